//! Reading a document and writing it again.
use super::package::{comments_part, model};
use super::roundtrip::read;
use super::write::cmp_dom;
use crate::doc::*;
use crate::full::{body_with_parts, root, Ops};
use crate::norm::norm;
use crate::opc::{self, Pkg};
use crate::runner::{Case, Fail, Out, Prop, DEF};
use crate::xml::{el, El, Nd};

/// Markup without what the reader is known not to keep (its tests pin it): the properties of content controls, controls
/// around runs, the distance of columns, and that an upright page is upright;
/// the next style, priority and visibility of styles.
fn reduce(e: &El) -> El {
    let mut o = El { kids: vec![], ..e.clone() };
    match e.name.as_str() {
        "w:cols" => o.attrs.retain(|(k, _)| k != "w:space"),
        "w:pgSz" => o.attrs.retain(|(k, v)| !(k == "w:orient" && v == "portrait")),
        _ => {}
    }
    for k in &e.kids {
        match k {
            Nd::T(_) => o.kids.push(k.clone()),
            Nd::E(c) if c.name == "w:sdtPr" => {}
            // drawings other than pictures are not represented
            Nd::E(c) if alien(c) || c.name == "w:r" && c.els().all(|x| x.name == "w:rPr" || alien(x)) => {}
            Nd::E(c) if e.name == "w:style" && ["w:next", "w:uiPriority", "w:semiHidden", "w:unhideWhenUsed", "w:qFormat"].contains(&c.name.as_str()) => {}
            Nd::E(c) if c.name == "w:sdt" && (e.name == "w:p" || e.name == "w:hyperlink") => {
                for s in c.els().filter(|s| s.name == "w:sdtContent") {
                    o.kids.extend(reduce(&El { name: e.name.clone(), ..s.clone() }).kids);
                }
            }
            Nd::E(c) => o.kids.push(Nd::E(reduce(c))),
        }
    }
    o
}

fn alien(e: &El) -> bool {
    e.name == "w:drawing" && e.attr("pics") == Some("0")
}

fn same_part(a: &Pkg, b: &Pkg, n: &str) -> Out {
    if !a.has(n) {
        return Ok(());
    }
    cmp_dom(&format!("again:{}", opc::generic(n)), &reduce(&norm(&root(a, n)?)), &reduce(&norm(&root(b, n)?)))
}

fn foreign(c: &mut Case) -> Out {
    let mut cx = Ctx::new(&mut c.g, Cfg { fmt: 3, depth: 2, no_refs: true, charts: true, ..Cfg::read_all() });
    let m = body(&mut cx, 4);
    // ids as others hand them out, or ids this library would give to its next link or image
    let (word, from) = match cx.g.n(3) {
        0 => ("rId", 1),
        1 => ("rIdHyperlink", next_link()),
        _ => ("rIdImage", next_image()),
    };
    let parts = super::foreign::foreign_package_with(&m.x, &cx.comments, &cx.images, &|n| format!("{word}{}", from + n));
    let a = opc::make_zip(&parts);
    let pa = opc::open(&a)?;
    let mut d = read(&a)?;
    // sometimes more is added before it is written
    let mut exp = m.x;
    let mut added = false;
    cx.cfg.charts = false;
    if cx.g.chance(1, 2) {
        added = true;
        for _ in 0..cx.g.len(1, 3) {
            let b = block(&mut cx);
            d = add_block(d, b.v);
            exp.extend(b.x);
        }
    }
    let (cl, comments) = (cx.classes.clone(), cx.comments.clone());
    c.note(&cl, String::from_utf8_lossy(&pa.parts["word/document.xml"]).to_string());
    c.class("document made elsewhere");
    if added {
        c.class("more added after reading");
    }
    c.nontrivial = true;
    let pb = opc::open(&pack(d)?)?;
    opc::integrity(&pb)?;
    let mut got = body_with_parts(&pb)?;
    got.kids.retain(|k| !matches!(k, Nd::E(e) if e.name == "w:sectPr"));
    cmp_dom("foreign:body", &reduce(&norm(&el("w:body").ks(exp))), &reduce(&got))?;
    comments_part(&comments, &pb)
}

fn number(s: &str) -> usize {
    s.trim_start_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(0)
}
fn next_link() -> usize {
    match docx_rs::Hyperlink::new("x", docx_rs::HyperlinkType::External).link {
        docx_rs::HyperlinkData::External { rid, .. } => number(&rid) + 1,
        _ => 1,
    }
}
fn next_image() -> usize {
    number(&docx_rs::Pic::new_with_dimensions(vec![], 1, 1).id) + 1
}

fn c25(c: &mut Case) -> Out {
    if c.g.chance(1, 3) {
        return foreign(c);
    }
    let m = model(c, Cfg { fmt: 3, depth: 2, no_refs: true, ..Cfg::read_all() }, &Ops::all(), &[]);
    let a = pack(m.f.d)?;
    let pa = opc::open(&a)?;
    let d = read(&a)?;
    let b = pack(d)?;
    let pb = opc::open(&b)?;
    opc::integrity(&pb)?;
    cmp_dom("again:body", &reduce(&body_with_parts(&pa)?), &reduce(&body_with_parts(&pb)?))?;
    let related = pa.rels("word/document.xml")?.iter().any(|r| r.target == "numbering.xml");
    for n in ["word/styles.xml", "word/numbering.xml", "word/settings.xml", "word/comments.xml", "docProps/custom.xml"] {
        // a numbering part nothing relates to is not part of the document
        if related || n != "word/numbering.xml" {
            same_part(&pa, &pb, n)?;
        }
    }
    Ok(())
}

/// A document with one run holding the given markup, read and written again.
fn again(k: El, sig: &str) -> Out {
    let parts = super::foreign::foreign_package(&[el("w:p").k(el("w:r").k(k))], &[], &Default::default());
    let d = read(&opc::make_zip(&parts))?;
    pack(d).map(|_| ()).map_err(|f| Fail { sig: sig.into(), msg: f.msg })
}
fn known_shape() -> Out {
    again(el("w:pict").k(el("v:shape").a("style", "width:10pt;height:10pt")), "again:shape")
}
fn known_box() -> Out {
    let t = el("w:txbxContent").k(el("w:p").k(el("w:r").k(t_el("w:t", "box"))));
    let s = el("wps:wsp").k(el("wps:spPr")).k(el("wps:txbx").k(t)).k(el("wps:bodyPr"));
    let g = el("a:graphic").k(el("a:graphicData").a("uri", "http://schemas.microsoft.com/office/word/2010/wordprocessingShape").k(s));
    again(el("w:drawing").k(el("wp:inline").k(el("wp:extent").a("cx", 1).a("cy", 1)).k(g)), "again:text-box")
}

pub const C25: Prop = Prop { id: "C25", known: &[("again:shape", known_shape), ("again:text-box", known_box)], rule: "reading a document and writing it again keeps it", quick: 20000, run: c25, ..DEF };
