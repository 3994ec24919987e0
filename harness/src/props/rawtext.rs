//! The text of a paragraph that was read.
use super::foreign::{foreign_package, respell, vary};
use super::roundtrip::read;
use crate::doc::*;
use crate::opc;
use crate::runner::{fail, Case, Fail, Out, Prop, DEF};
use crate::xml::{parse, El, Nd};
use docx_rs::*;

/// The text of a run as a reader of the page would copy it.
fn run(e: &El, o: &mut String) {
    for k in e.els() {
        match k.name.as_str() {
            "w:t" => k.kids.iter().for_each(|t| {
                if let Nd::T(t) = t {
                    o.push_str(t)
                }
            }),
            "w:tab" | "w:ptab" => o.push('\t'),
            "w:br" | "w:cr" => o.push('\n'),
            _ => {}
        }
    }
}

fn para(e: &El) -> String {
    let mut o = String::new();
    for k in e.els() {
        match k.name.as_str() {
            "w:r" => run(k, &mut o),
            "w:ins" | "w:moveTo" => k.els().filter(|r| r.name == "w:r").for_each(|r| run(r, &mut o)),
            _ => {}
        }
    }
    o
}

fn expected(e: &El, o: &mut Vec<String>) {
    for k in e.els() {
        match k.name.as_str() {
            "w:p" => o.push(para(k)),
            "w:tbl" | "w:tr" | "w:tc" => expected(k, o),
            _ => {}
        }
    }
}

fn table(t: &Table, o: &mut Vec<String>) {
    for r in &t.rows {
        let TableChild::TableRow(r) = r;
        for c in &r.cells {
            let TableRowChild::TableCell(c) = c;
            for k in &c.children {
                match k {
                    TableCellContent::Paragraph(p) => o.push(p.raw_text()),
                    TableCellContent::Table(t) => table(t, o),
                    _ => {}
                }
            }
        }
    }
}

fn c29(c: &mut Case) -> Out {
    let own = c.g.coin();
    let mut cx = Ctx::new(&mut c.g, Cfg { fmt: 1, depth: 2, boxes: !own, rbias: &[1, 2, 3, 4, 5, 6], ..Cfg::read_all() });
    let m = body(&mut cx, 5);
    let cl = cx.classes.clone();
    let mut exp = vec![];
    m.x.iter().for_each(|x| expected(&El { name: String::new(), attrs: vec![], kids: vec![Nd::E(x.clone())] }, &mut exp));
    let bytes = if own {
        pack(m.v)?
    } else {
        let mut parts = foreign_package(&m.x, &cx.comments, &cx.images);
        let v = vary(c);
        for (n, b) in parts.iter_mut() {
            if n == "word/document.xml" {
                match parse(b) {
                    Ok(e) => *b = respell(&mut c.g, &e, &v),
                    Err(m) => return fail("harness:unparsable", format!("{n}: {m}")),
                }
            }
        }
        opc::make_zip(&parts)
    };
    c.note(&cl, format!("{exp:?}"));
    c.class(if own { "written by the library" } else { "written without the library" });
    c.nontrivial = exp.iter().any(|t| !t.is_empty());
    let d = read(&bytes)?;
    let mut got = vec![];
    for k in &d.document.children {
        match k {
            DocumentChild::Paragraph(p) => got.push(p.raw_text()),
            DocumentChild::Table(t) => table(t, &mut got),
            _ => {}
        }
    }
    if exp.len() != got.len() {
        return fail("rawtext:paragraphs", format!("{} paragraphs instead of {}", got.len(), exp.len()));
    }
    for (a, b) in exp.iter().zip(&got) {
        if a != b {
            return fail("rawtext", format!("expected {a:?}, got {b:?}"));
        }
    }
    Ok::<(), Fail>(())
}
pub const C29: Prop = Prop { id: "C29", rule: "the text of a paragraph that was read", quick: 20000, run: c29, ..DEF };
