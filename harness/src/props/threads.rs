//! Documents made in several threads at once.
use super::package::{bodies, comments_part, footnotes_part, model_of, take};
use crate::doc::*;
use crate::full::Ops;
use crate::gen::{mix, G};
use crate::opc;
use crate::runner::{fail, guard, Case, Out, Prop, DEF};
use docx_rs::*;
use std::collections::BTreeSet;
use std::sync::{Arc, Barrier};

fn together<T: Send + 'static>(n: usize, job: impl Fn(usize) -> T + Send + Sync + 'static) -> Vec<T> {
    let (job, gate) = (Arc::new(job), Arc::new(Barrier::new(n)));
    let threads: Vec<_> = (0..n)
        .map(|i| {
            let (job, gate) = (job.clone(), gate.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    gate.wait();
                    job(i)
                })
                .expect("thread")
        })
        .collect();
    threads.into_iter().map(|t| t.join().expect("joins")).collect()
}

/// A document of its own, checked like one made alone.
fn alone(seed: u64) -> Out {
    let mut g = G::random(seed);
    let cfg = Cfg { fmt: 1, depth: 1, bias: &[K_LINK, K_COMMENT, K_INS, K_BOOKMARK], rbias: &[R_PIC, R_NOTE, R_NOTE], ..Cfg::write_all() };
    let (mut m, _) = model_of(&mut g, cfg, &Ops { block: 6, section: 1, hf: 2, num: 1, style: 1, item: 1, ..Ops::none() });
    let d = take(&mut m);
    let b = if g.coin() { pack(d)? } else { pack_parts(d)? };
    let p = opc::open(&b)?;
    bodies(&m, &p)?;
    comments_part(&m.comments, &p)?;
    footnotes_part(&m.footnotes, &p)?;
    opc::integrity(&p)?;
    ids(&p)?;
    let d = super::roundtrip::read(&b)?;
    opc::integrity(&opc::open(&pack(d)?)?)
}

fn pack_parts(d: Docx) -> Result<Vec<u8>, crate::runner::Fail> {
    let mut w = std::io::Cursor::new(vec![]);
    match guard("pack", || d.build().pack(&mut w))? {
        Ok(()) => Ok(w.into_inner()),
        Err(e) => fail("pack:error", format!("packing rendered parts failed: {e}")),
    }
}

/// Ids of paragraphs, notes and generated bookmarks are distinct.
fn ids(p: &opc::Pkg) -> Out {
    let mut seen = BTreeSet::new();
    for n in p.names.iter().filter(|n| n.starts_with("word/") && n.ends_with(".xml")) {
        let x = p.xml(n)?;
        for e in x.all("w:p") {
            let id = e.attr("w14:paraId").unwrap_or("").to_string();
            if !seen.insert(id.clone()) {
                return fail("ids:paragraph", format!("two paragraphs have id {id}"));
            }
        }
        let mut notes = BTreeSet::new();
        for e in x.all("w:footnoteReference") {
            let id = e.attr("w:id").unwrap_or("").to_string();
            if !notes.insert(id.clone()) {
                return fail("ids:footnote", format!("two references lead to footnote {id}"));
            }
        }
        let mut marks = BTreeSet::new();
        for e in x.all("w:bookmarkStart").iter().filter(|e| e.attr("w:name").is_some_and(|n| n.starts_with("_Toc"))) {
            for a in ["w:id", "w:name"] {
                let id = format!("{a}={}", e.attr(a).unwrap_or(""));
                if !marks.insert(id.clone()) {
                    return fail("ids:bookmark", format!("two generated bookmarks have {id}"));
                }
            }
        }
    }
    Ok(())
}

/// A document with many things that get an id when they are made.
fn crowded(kind: usize, n: usize) -> Out {
    let mut d = Docx::new();
    let mut p = Paragraph::new();
    match kind {
        0 => {
            for i in 0..n {
                p = p.add_run(Run::new().add_footnote_reference(Footnote::new().add_content(Paragraph::new().add_run(Run::new().add_text(format!("{i}"))))));
            }
            d = d.add_paragraph(p);
        }
        1 => {
            for i in 0..n {
                p = p.add_hyperlink(Hyperlink::new(format!("http://x/{i}"), HyperlinkType::External).add_run(Run::new().add_text("x")));
            }
            d = d.add_paragraph(p);
        }
        2 => {
            for i in 0..n {
                p = p.add_run(Run::new().add_image(Pic::new_with_dimensions(png(i as u64), 1, 1)));
            }
            d = d.add_paragraph(p);
        }
        _ => {
            d = d.add_style(Style::new("H1", StyleType::Paragraph).name("heading 1"));
            d = d.add_table_of_contents(TableOfContents::new().heading_styles_range(1, 3).auto());
            for i in 0..n {
                d = d.add_paragraph(Paragraph::new().add_run(Run::new().add_text(format!("h{i}"))).style("H1"));
            }
        }
    }
    let b = pack(d)?;
    let pk = opc::open(&b)?;
    ids(&pk)?;
    let x = pk.xml("word/document.xml")?;
    match kind {
        0 => {
            let notes = pk.xml("word/footnotes.xml")?;
            for (i, r) in x.all("w:footnoteReference").iter().enumerate() {
                let id = r.attr("w:id").unwrap_or("");
                let f: Vec<_> = notes.els().filter(|f| f.attr("w:id") == Some(id)).map(|f| f.all("w:t").iter().map(|t| t.text()).collect::<String>()).collect();
                if f != [format!("{i}")] {
                    return fail("crowd:footnote", format!("footnote {i} has id {id} and content {f:?}"));
                }
            }
        }
        1 | 2 => {
            let rels = pk.rels("word/document.xml")?;
            let (tag, at) = if kind == 1 { ("w:hyperlink", "r:id") } else { ("a:blip", "r:embed") };
            for (i, e) in x.all(tag).iter().enumerate() {
                let t: Vec<_> = rels.iter().filter(|r| Some(r.id.as_str()) == e.attr(at)).map(|r| r.target.clone()).collect();
                let ok = t.len() == 1 && if kind == 1 { t[0] == format!("http://x/{i}") } else { pk.get(&opc::resolve("word/document.xml", &t[0])) == Some(&png(i as u64)) };
                if !ok {
                    return fail("crowd:relationship", format!("{tag} {i} leads to {t:?}"));
                }
            }
        }
        _ => {
            let marks: BTreeSet<_> = x.all("w:bookmarkStart").iter().filter_map(|e| e.attr("w:name").map(String::from)).collect();
            if marks.len() != n {
                return fail("crowd:bookmarks", format!("{} bookmarks for {n} headings", marks.len()));
            }
        }
    }
    Ok(())
}

fn c24(c: &mut Case) -> Out {
    let n = 2 + c.g.n(5);
    let seed = c.g.below(1 << 40);
    let what = c.g.n(4);
    c.nontrivial = true;
    c.sample = format!("{n} threads, kind {what}, seed {seed}");
    let s = c.sample.clone();
    c.content(s.as_bytes());
    match what {
        0 | 1 => {
            c.class("a document in each thread");
            let r = together(n, move |i| {
                for k in 0..3 {
                    guard("thread", || alone(mix(seed, (i * 100 + k) as u64)))??;
                }
                Ok(())
            });
            r.into_iter().collect::<Result<(), _>>()
        }
        2 => {
            let kind = c.g.n(4);
            c.class(["many footnotes in each thread", "many links in each thread", "many images in each thread", "many headings in each thread"][kind]);
            let size = if kind == 2 { 60 } else { 150 };
            let r = together(n, move |_| guard("thread", || crowded(kind, size))?);
            r.into_iter().collect::<Result<(), _>>()
        }
        _ => {
            c.class("a document from parts made in several threads");
            let parts = together(n, move |i| {
                guard("thread", || {
                    let mut g = G::random(mix(seed, i as u64));
                    let cfg = Cfg { fmt: 1, depth: 1, links: false, comments: false, bookmarks: false, images: false, rbias: &[R_NOTE, R_NOTE], ..Cfg::write_all() };
                    let mut cx = Ctx::new(&mut g, cfg);
                    let (mut v, mut x) = (vec![], vec![]);
                    for _ in 0..cx.g.len(1, 4) {
                        let b = block(&mut cx);
                        v.push(b.v);
                        x.extend(b.x);
                    }
                    (v, x, std::mem::take(&mut cx.footnotes))
                })
            });
            let (mut d, mut x, mut notes) = (Docx::new(), vec![], vec![]);
            for r in parts {
                let (v, px, f) = r?;
                for b in v {
                    d = add_block(d, b);
                }
                x.extend(px);
                notes.extend(f);
            }
            let p = opc::open(&pack(d)?)?;
            let mut got = super::write::body_of(&p)?;
            got.kids.pop();
            super::write::cmp_dom("body", &crate::norm::norm(&crate::xml::el("w:body").ks(x)), &got)?;
            footnotes_part(&notes, &p)?;
            ids(&p)
        }
    }
}
pub const C24: Prop = Prop { id: "C24", rule: "documents made by at least two threads at once", quick: 1500, run: c24, ..DEF };
