//! Ids of paragraphs.
use crate::doc::*;
use crate::full::{full, Ops};
use crate::opc;
use crate::runner::{fail, Case, Out, Prop, DEF};
use docx_rs::*;
use std::collections::{BTreeMap, BTreeSet};

fn c12(c: &mut Case) -> Out {
    // as in a fresh process
    drop(Docx::new().json());
    let mut cx = Ctx::new(&mut c.g, Cfg { fmt: 0, depth: 2, images: false, fields: false, bias: &[K_COMMENT], rbias: &[R_NOTE], ..Cfg::write_all() });
    cx.ids = Some(vec![]);
    let f = full(&mut cx, &Ops { style: 0, default: 0, settings: 0, props: 0, item: 0, ext: 0, num: 0, comment: 1, ..Ops::all() });
    let mut d = f.d;
    if cx.g.chance(1, 4) {
        let (t, _) = super::toc::toc(&mut cx, &[]);
        // wherever a table of contents may stand
        d = match cx.g.n(2) {
            0 => d.add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_table_of_contents(t)])])),
            _ => d.add_table_of_contents(t),
        };
        if cx.g.coin() {
            d = d.add_style(Style::new("mark0", StyleType::Paragraph).name("heading 1"));
        }
        cx.cls("table of contents");
    }
    let mut given = cx.ids.clone().unwrap_or_default();
    if cx.g.chance(1, 4) {
        cx.cls("content added to a document that was read");
        let b = pack(d)?;
        // ids as they are in the document read
        for (p, id) in paragraphs(&opc::open(&b)?)? {
            if let Some(n) = p {
                given[n] = id;
            } else {
                given.push(id);
            }
        }
        d = super::roundtrip::read(&b)?;
        let n = given.len();
        cx.ids = Some(vec![String::new(); n]);
        for _ in 0..cx.g.len(0, 4) {
            let b = block(&mut cx);
            d = add_block(d, b.v);
        }
        given.extend(cx.ids.clone().unwrap_or_default().split_off(n));
    }
    match cx.g.n(8) {
        0 => {
            cx.cls("comments looked at before writing");
            d.comments_json();
        }
        1 => {
            cx.cls("JSON before writing");
            d.json_with_update_comments();
        }
        _ => {}
    }
    let comments = cx.comments.clone();
    let cl = cx.classes.clone();
    let n = given.len();
    let mut times: BTreeMap<String, usize> = BTreeMap::new();
    given.iter().for_each(|i| *times.entry(i.to_lowercase()).or_default() += 1);
    let shared = times.values().any(|n| *n > 1);
    c.note(&cl, format!("{n} paragraphs: {given:?}"));
    if shared {
        c.class("shared id");
    }
    if given.iter().any(|i| i.is_empty()) {
        c.class("no id");
    }
    c.nontrivial = n > 1;
    let p = opc::open(&pack(d)?)?;
    let all = paragraphs(&p)?;
    let mut seen = BTreeSet::new();
    for (m, id) in &all {
        let v = u32::from_str_radix(id, 16).unwrap_or(0);
        if id.len() != 8 || v == 0 || v >= 0x8000_0000 {
            return fail("id:form", format!("a paragraph has id {id:?}"));
        }
        if !seen.insert(v) {
            return fail("id:shared", format!("two paragraphs have id {id:?}"));
        }
        if let Some(g) = m.and_then(|m| given.get(m)) {
            if times.get(&g.to_lowercase()) == Some(&1) && !g.is_empty() && g != id {
                return fail("id:changed", format!("the paragraph of id {g:?} has got id {id:?}"));
            }
        }
    }
    super::package::threads(&comments, &p)
}

/// Paragraphs of all parts: the number they are marked with, and their id.
fn paragraphs(p: &opc::Pkg) -> Result<Vec<(Option<usize>, String)>, crate::runner::Fail> {
    let mut v = vec![];
    for n in &p.names {
        if !n.starts_with("word/") || !n.ends_with(".xml") {
            continue;
        }
        let x = p.xml(n)?;
        for e in x.all("w:p") {
            let m = e.child("w:pPr").and_then(|r| r.child("w:pStyle")).and_then(|s| s.attr("w:val"));
            let m = m.and_then(|m| m.strip_prefix("mark")).and_then(|m| m.parse().ok());
            v.push((m, e.attr("w14:paraId").unwrap_or("").to_string()));
        }
    }
    Ok(v)
}
pub const C12: Prop = Prop { id: "C12", rule: "documents with at least two paragraphs", quick: 20000, run: c12, ..DEF };
