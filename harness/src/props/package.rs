//! Properties of whole packages built by sequences of calls.
use super::write::cmp_dom;
use crate::doc::*;
use crate::full::{self, *};
use crate::gen::G;
use crate::norm::{norm, resolve_refs};
use crate::opc::{self, Pkg};
use crate::runner::{fail, Case, Fail, Out, Prop, DEF};
use crate::xml::{el, frag, El};
use docx_rs::*;
use std::collections::{BTreeMap, BTreeSet};

/// What a generated package must contain beyond `Full`.
pub struct Model {
    pub f: Full,
    pub comments: Vec<CommentX>,
    pub footnotes: Vec<(usize, Vec<El>)>,
    pub images: BTreeMap<String, Vec<u8>>,
    pub links: Vec<String>,
}

/// A model and the classes it belongs to.
pub fn model_of(g: &mut G, cfg: Cfg, o: &Ops) -> (Model, BTreeSet<&'static str>) {
    let mut cx = Ctx::new(g, cfg);
    let f = full::full(&mut cx, o);
    let cl = std::mem::take(&mut cx.classes);
    let m = Model {
        f,
        comments: std::mem::take(&mut cx.comments),
        footnotes: std::mem::take(&mut cx.footnotes),
        images: std::mem::take(&mut cx.images),
        links: std::mem::take(&mut cx.links),
    };
    (m, cl)
}

pub fn model(c: &mut Case, cfg: Cfg, o: &Ops, want: &[&'static str]) -> Model {
    let (m, cl) = model_of(&mut c.g, cfg, o);
    c.nontrivial = want.is_empty() || want.iter().any(|w| cl.contains(w));
    let s = frag(&expected_body(&m.f));
    c.note(&cl, s);
    m
}

pub fn take(m: &mut Model) -> Docx {
    std::mem::take(&mut m.f.d)
}

/// Body, sections, headers and footers equal the model.
pub fn bodies(m: &Model, p: &Pkg) -> Out {
    cmp_dom("body", &expected_body(&m.f), &body_with_parts(p)?)
}

fn light() -> Cfg {
    Cfg { tables: true, images: true, links: true, fields: true, fmt: 1, depth: 1, ..Cfg::plain() }
}

// ---------------------------------------------------------------- C07

fn c07(c: &mut Case) -> Out {
    let mut m = model(c, Cfg { fmt: 1, depth: 2, bias: &[K_LINK, K_COMMENT], rbias: &[R_PIC], ..Cfg::write_all() }, &Ops::all(), &[]);
    if m.f.calls < 2 {
        c.nontrivial = false;
    }
    let b = pack(take(&mut m))?;
    opc::integrity(&opc::open(&b)?)
}
pub const C07: Prop = Prop { id: "C07", rule: "packages built by at least two package-level calls", quick: 30000, run: c07, ..DEF };

// ---------------------------------------------------------------- C08

fn c08(c: &mut Case) -> Out {
    let o = Ops { block: 2, section: 4, hf: 4, page: 3, settings: 1, ..Ops::none() };
    let mut m = model(c, light(), &o, &["section", "document header", "document footer"]);
    let b = pack(take(&mut m))?;
    let p = opc::open(&b)?;
    bodies(&m, &p)?;
    let s = p.xml("word/settings.xml")?;
    let even = s.child("w:evenAndOddHeaders").is_some();
    if even != m.f.even {
        return fail("even-and-odd", format!("even and odd headers: settings say {even}, the document needs {}", m.f.even));
    }
    Ok(())
}
pub const C08: Prop = Prop { id: "C08", rule: "documents with a section of their own or a header or footer", quick: 30000, run: c08, ..DEF };

// ---------------------------------------------------------------- C09

fn para_id(p: &El) -> String {
    p.attr("w14:paraId").unwrap_or("").to_string()
}

fn c09(c: &mut Case) -> Out {
    let mut cfg = Cfg { fmt: 0, depth: 2, bias: &[K_COMMENT], images: false, ..Cfg::write_all() };
    cfg.fields = false;
    let o = Ops { block: 6, section: 2, comment: 2, hf: 1, ..Ops::none() };
    let mut m = model(c, cfg, &o, &["comment"]);
    let b = pack(take(&mut m))?;
    let p = opc::open(&b)?;
    bodies(&m, &p)?;
    comments_part(&m.comments, &p)
}

/// Comments part and threading equal the model.
pub fn comments_part(cs: &[CommentX], p: &Pkg) -> Out {
    let rels = p.rels("word/document.xml")?;
    let lead = |t: &str| rels.iter().find(|r| r.ty.ends_with(t)).map(|r| opc::resolve("word/document.xml", &r.target));
    let part = match lead("/comments") {
        Some(x) => x,
        None if cs.is_empty() => return Ok(()),
        None => return fail("comments:unrelated", "no relationship leads to the comments"),
    };
    let got = norm(&root(p, &part)?);
    let mut exp = el("w:comments");
    for x in cs {
        exp = exp.k(el("w:comment").a("w:id", x.id).a("w:author", &x.author).a("w:date", &x.date).a("w:initials", "").ks(x.x.clone()));
    }
    // comments are looked up by id: their order in the part is free
    let by_id = |e: El| {
        let mut e = e;
        e.kids.sort_by_key(|k| match k {
            crate::xml::Nd::E(e) => e.attr("w:id").and_then(|v| v.parse::<usize>().ok()),
            _ => None,
        });
        e
    };
    cmp_dom("comments", &by_id(norm(&exp)), &by_id(got))?;
    threads(cs, p)
}

/// Threading of comments equals the model.
pub fn threads(cs: &[CommentX], p: &Pkg) -> Out {
    if cs.is_empty() {
        return Ok(());
    }
    let rels = p.rels("word/document.xml")?;
    let lead = |t: &str| rels.iter().find(|r| r.ty.ends_with(t)).map(|r| opc::resolve("word/document.xml", &r.target));
    let raw = match lead("/comments") {
        Some(x) => p.xml(&x)?,
        None => return fail("comments:unrelated", "no relationship leads to the comments"),
    };
    let ex = match lead("/commentsExtended") {
        Some(x) => p.xml(&x)?,
        None => return fail("comments:extended-unrelated", "no relationship leads to the comment threads"),
    };
    // a comment is identified by its last paragraph
    let ids: BTreeMap<usize, String> = raw
        .els()
        .map(|e| (e.attr("w:id").unwrap_or("0").parse().unwrap_or(0), e.children("w:p").last().map(|p| para_id(p)).unwrap_or_default()))
        .collect();
    let mut seen = BTreeSet::new();
    for (k, v) in &ids {
        if v.is_empty() || !seen.insert(v.clone()) {
            return fail("thread:paragraph-id", format!("comment {k} ends with a paragraph of id {v:?}, shared or missing"));
        }
    }
    let mut exp = BTreeMap::new();
    for x in cs {
        let id = |n: usize| ids.get(&n).cloned().unwrap_or_default();
        exp.insert(id(x.id), x.parent.map(id));
    }
    let got: Vec<_> = ex
        .els()
        .map(|e| (e.attr("w15:paraId").unwrap_or("").to_string(), e.attr("w15:paraIdParent").map(|s| s.to_string()), e.attr("w15:done").map(|s| s.to_string())))
        .collect();
    if got.iter().any(|g| g.2.as_deref() != Some("0")) {
        return fail("thread:done", format!("{got:?}"));
    }
    if got.len() != exp.len() {
        return fail("thread:count", format!("{} thread entries for {} comments", got.len(), exp.len()));
    }
    for (a, b, _) in got {
        match exp.get(&a) {
            None => return fail("thread:paragraph", format!("thread entry for {a}, not the last paragraph of a comment")),
            Some(x) if *x != b => return fail("thread:parent", format!("entry {a} has parent {b:?}, expected {x:?}")),
            _ => {}
        }
    }
    Ok(())
}
pub const C09: Prop = Prop { id: "C09", rule: "documents with at least one comment", quick: 30000, run: c09, ..DEF };

// ---------------------------------------------------------------- C10

fn c10(c: &mut Case) -> Out {
    let cfg = Cfg { fmt: 0, depth: 2, bias: &[K_LINK, K_LINK, K_INS, K_BOOKMARK], images: false, fields: false, ..Cfg::write_all() };
    let o = Ops { block: 6, section: 2, hf: 3, comment: 1, ..Ops::none() };
    let mut m = model(c, cfg, &o, &["external hyperlink", "anchor hyperlink"]);
    let b = pack(take(&mut m))?;
    let p = opc::open(&b)?;
    bodies(&m, &p)?;
    // exactly the targets given, each escaping the package
    let mut got = vec![];
    for n in p.names.iter().filter(|n| n.ends_with(".rels")) {
        let src = opc::rels_source(n).unwrap_or_default();
        for r in p.rels(&src)? {
            if r.ty.ends_with("/hyperlink") {
                if !r.external {
                    return fail("link:mode", format!("link {} is not external", r.target));
                }
                got.push(r.target);
            }
        }
    }
    let (mut a, mut b) = (vec![], got);
    for x in expected_body(&m.f).all("w:hyperlink") {
        a.extend(x.attr("r:id").map(|s| s.trim_start_matches("LINK:").to_string()));
    }
    a.sort();
    b.sort();
    a.dedup();
    b.dedup();
    if a != b {
        return fail("link:targets", format!("targets {b:?}, expected {a:?}"));
    }
    Ok(())
}
pub const C10: Prop = Prop { id: "C10", rule: "documents with at least one hyperlink", quick: 30000, run: c10, ..DEF };

// ---------------------------------------------------------------- C13

fn default_numbering() -> El {
    let mut e = el("w:abstractNum").a("w:abstractNumId", 1);
    for i in 0..9usize {
        let (f, t) = match i % 3 {
            0 => ("decimal", format!("%{}.", i + 1)),
            1 => ("decimal", format!("(%{})", i + 1)),
            _ => ("decimalEnclosedCircle", format!("%{}", i + 1)),
        };
        e = e.k(el("w:lvl")
            .a("w:ilvl", i)
            .k(el("w:start").a("w:val", 1))
            .k(el("w:numFmt").a("w:val", f))
            .k(el("w:lvlText").a("w:val", t))
            .k(el("w:lvlJc").a("w:val", "left"))
            .k(el("w:pPr").k(el("w:ind").a("w:left", 420 * (i + 1)).a("w:hanging", 420))));
    }
    e
}

fn strip(mut e: El, names: &[&str]) -> El {
    e.kids.retain(|k| !matches!(k, crate::xml::Nd::E(x) if names.contains(&x.name.as_str())));
    for k in e.kids.iter_mut() {
        if let crate::xml::Nd::E(x) = k {
            *x = strip(std::mem::take(x), names);
        }
    }
    e
}

fn c13(c: &mut Case) -> Out {
    let cfg = Cfg { fmt: 3, depth: 1, tables: true, tracked: true, sdt: true, numbering: true, f: crate::fmt::FmtCfg { read: false, wild: true }, ..Cfg::plain() };
    let o = Ops { block: 3, section: 1, hf: 1, num: 6, style: 1, ..Ops::none() };
    let mut m = model(c, cfg, &o, &["abstract numbering", "numbered paragraph"]);
    let b = pack(take(&mut m))?;
    let p = opc::open(&b)?;
    bodies(&m, &p)?;
    let rels = p.rels("word/document.xml")?;
    let uses = |e: &El| !e.all("w:numId").is_empty();
    let part = match rels.iter().find(|r| r.ty.ends_with("/numbering")) {
        Some(r) => opc::resolve("word/document.xml", &r.target),
        None if uses(&expected_body(&m.f)) || m.f.styles.iter().any(uses) => return fail("numbering:unrelated", "no relationship leads to the numbering definitions in use"),
        None => "word/numbering.xml".to_string(),
    };
    let mut abs = m.f.abs.clone();
    if !abs.iter().any(|a| a.attr("w:abstractNumId") == Some("1")) {
        abs.insert(0, default_numbering());
    }
    let mut nums = m.f.nums.clone();
    if !nums.iter().any(|a| a.attr("w:numId") == Some("1")) {
        nums.insert(0, el("w:num").a("w:numId", 1).k(el("w:abstractNumId").a("w:val", 1)));
    }
    let exp = norm(&el("w:numbering").ks(abs).ks(nums));
    let got = norm(&strip(root(&p, &part)?, &["w:multiLevelType"]));
    cmp_dom("numbering", &by_key(exp), &by_key(got))
}
/// Definitions are looked up by id.
fn by_key(mut e: El) -> El {
    e.kids.sort_by_key(|k| match k {
        crate::xml::Nd::E(e) => (e.name.clone(), e.attr("w:abstractNumId").or(e.attr("w:numId")).and_then(|v| v.parse::<usize>().ok())),
        _ => (String::new(), None),
    });
    e
}
pub const C13: Prop = Prop { id: "C13", rule: "documents that define numbering or number a paragraph", quick: 30000, run: c13, ..DEF };

// ---------------------------------------------------------------- C14

fn c14(c: &mut Case) -> Out {
    let cfg = Cfg { fmt: 1, depth: 2, rbias: &[R_NOTE], images: false, fields: false, ..Cfg::write_all() };
    let o = Ops { block: 6, section: 2, ..Ops::none() };
    let mut m = model(c, cfg, &o, &["footnote"]);
    let b = pack(take(&mut m))?;
    let p = opc::open(&b)?;
    bodies(&m, &p)?;
    footnotes_part(&m.footnotes, &p)
}

/// The footnotes part equals the model.
pub fn footnotes_part(notes: &[(usize, Vec<El>)], p: &Pkg) -> Out {
    let rels = p.rels("word/document.xml")?;
    let part = match rels.iter().find(|r| r.ty.ends_with("/footnotes")) {
        Some(r) => opc::resolve("word/document.xml", &r.target),
        None if notes.is_empty() => return Ok(()),
        None => return fail("footnotes:unrelated", "no relationship leads to the footnotes"),
    };
    let got = root(p, &part)?;
    let mut exp = el("w:footnotes");
    for (id, x) in notes {
        exp = exp.k(el("w:footnote").a("w:id", id).ks(x.clone()));
    }
    cmp_dom("footnotes", &by_id(norm(&exp)), &by_id(norm(&got)))
}
fn by_id(mut e: El) -> El {
    e.kids.sort_by_key(|k| match k {
        crate::xml::Nd::E(e) => e.attr("w:id").and_then(|v| v.parse::<i64>().ok()),
        _ => None,
    });
    e
}
pub const C14: Prop = Prop { id: "C14", rule: "documents with at least one footnote", quick: 30000, run: c14, ..DEF };

// ---------------------------------------------------------------- C20

fn c20(c: &mut Case) -> Out {
    let cfg = Cfg { fmt: 5, numbering: true, f: crate::fmt::FmtCfg { read: false, wild: true }, ..Cfg::plain() };
    let o = Ops { block: 1, style: 6, default: 3, ..Ops::none() };
    let mut m = model(c, cfg, &o, &["style", "document default"]);
    let mut exp = el("w:styles");
    let mut dp = el("w:pPr");
    if let Some(l) = &m.f.def_line {
        dp = dp.k(l.x());
    }
    exp = exp.k(el("w:docDefaults").k(el("w:rPrDefault").k(m.f.def_r.x())).k(el("w:pPrDefault").k(dp)));
    if !m.f.styles.iter().any(|s| s.attr("w:styleId") == Some("Normal")) {
        exp = exp.k(el("w:style").a("w:type", "paragraph").a("w:styleId", "Normal").k(el("w:name").a("w:val", "Normal")).k(el("w:qFormat")));
    }
    exp = norm(&exp.ks(m.f.styles.clone()));
    let f = frag(&exp);
    c.content(f.as_bytes());
    c.sample = f;
    let b = pack(take(&mut m))?;
    let p = opc::open(&b)?;
    let got = norm(&root(&p, "word/styles.xml")?);
    cmp_dom("styles", &exp, &got)
}
pub const C20: Prop = Prop { id: "C20", rule: "documents that define a style or a document default", quick: 30000, run: c20, ..DEF };

// ---------------------------------------------------------------- C21

fn one(e: &El, name: &str) -> String {
    e.all(name).first().map(|x| x.text()).unwrap_or_else(|| "<absent>".into())
}
fn want(sig: &str, exp: impl std::fmt::Debug, got: impl std::fmt::Debug) -> Out {
    let (a, b) = (format!("{exp:?}"), format!("{got:?}"));
    if a != b {
        return fail(sig.to_string(), format!("{sig}: expected {a}, found {b}"));
    }
    Ok(())
}

fn c21(c: &mut Case) -> Out {
    let cfg = Cfg { any_text: true, f: crate::fmt::FmtCfg { read: false, wild: true }, ..Cfg::plain() };
    let o = Ops { block: 1, hf: 1, settings: 4, props: 4, item: 2, ext: 1, ..Ops::none() };
    let mut m = model(c, cfg, &o, &["setting", "document property", "custom XML item", "web extension", "settings given as a whole"]);
    let f = &m.f;
    let s = format!(
        "tab {} id {:?} vars {:?} adjust {} spacing {:?} created {} updated {} custom {:?} items {:?} exts {}",
        f.tab_stop,
        f.doc_id,
        f.doc_vars,
        f.adjust,
        f.spacing_control,
        f.created,
        f.updated,
        f.custom,
        f.items.iter().map(|(i, x)| (i.clone(), frag(x))).collect::<Vec<_>>(),
        f.exts.len()
    );
    c.content(s.as_bytes());
    c.sample = s;
    let d = take(&mut m);
    let f = &m.f;
    let p = opc::open(&pack(d)?)?;
    settings_part(f, &p)?;
    props_parts(f, &p)?;
    items_parts(f, &p)?;
    exts_parts(f, &p)
}
fn settings_part(f: &Full, p: &Pkg) -> Out {
    let s = norm(&root(p, "word/settings.xml")?);
    let val = |e: &El, n: &str| e.child(n).and_then(|x| x.attr("w:val").or(x.attr("w15:val")).map(|v| v.to_string()));
    want("settings:tab-stop", Some(f.tab_stop.to_string()), val(&s, "w:defaultTabStop"))?;
    want("settings:doc-id", f.doc_id.as_ref().map(|i| format!("{{{i}}}")), val(&s, "w15:docId"))?;
    want("settings:even", f.even, s.child("w:evenAndOddHeaders").is_some())?;
    let vars: Vec<_> = s
        .all("w:docVar")
        .iter()
        .map(|v| (v.attr("w:name").unwrap_or("?").to_string(), v.attr("w:val").unwrap_or("?").to_string()))
        .collect();
    want("settings:doc-vars", &f.doc_vars, vars)?;
    want("settings:doc-vars-parent", !f.doc_vars.is_empty(), s.child("w:docVars").is_some())?;
    want("settings:adjust-line-height", f.adjust as usize, s.all("w:adjustLineHeightInTable").len())?;
    want("settings:character-spacing", f.spacing_control, s.all("w:characterSpacingControl").first().and_then(|x| x.attr("w:val").map(|s| s.to_string())))
}
fn props_parts(f: &Full, p: &Pkg) -> Out {
    let core = root(p, "docProps/core.xml")?;
    want("core:created", &f.created, one(&core, "dcterms:created"))?;
    want("core:modified", &f.updated, one(&core, "dcterms:modified"))?;
    let cust = root(p, "docProps/custom.xml")?;
    let mut got = vec![];
    let mut pids = BTreeSet::new();
    for x in cust.els() {
        let pid = x.attr("pid").and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
        if pid < 2 || !pids.insert(pid) {
            return fail("custom:pid", format!("property id {pid} is reserved or used twice"));
        }
        want("custom:fmtid", Some("{D5CDD505-2E9C-101B-9397-08002B2CF9AE}"), x.attr("fmtid"))?;
        got.push((x.attr("name").unwrap_or("?").to_string(), one(x, "vt:lpwstr")));
    }
    got.sort();
    let exp: Vec<_> = f.custom.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    want("custom:properties", exp, got)
}
fn items_parts(f: &Full, p: &Pkg) -> Out {
    let rels = p.rels("word/document.xml")?;
    let mut got: Vec<(String, El)> = vec![];
    for r in rels.iter().filter(|r| r.ty.ends_with("/customXml")) {
        let t = opc::resolve("word/document.xml", &r.target);
        if !p.has(&t) {
            return fail("item:missing", format!("{t} is missing"));
        }
        let x = p.xml(&t)?;
        let ir = p.rels(&t)?;
        let pr: Vec<_> = ir.iter().filter(|r| r.ty.ends_with("/customXmlProps")).collect();
        if pr.len() != 1 {
            return fail("item:props", format!("{t} has {} property parts", pr.len()));
        }
        let pt = opc::resolve(&t, &pr[0].target);
        if !p.has(&pt) {
            return fail("item:props-missing", format!("{pt} is missing"));
        }
        let px = p.xml(&pt)?;
        got.push((px.attr("ds:itemID").unwrap_or("?").to_string(), x));
    }
    let exp: Vec<_> = f.items.iter().map(|(i, x)| (format!("{{{i}}}"), x.clone())).collect();
    if exp.len() != got.len() {
        return fail("item:count", format!("{} custom XML items, expected {}", got.len(), exp.len()));
    }
    for ((a, x), (b, y)) in exp.iter().zip(&got) {
        want("item:id", a, b)?;
        cmp_dom("item", x, y)?;
    }
    Ok(())
}
fn exts_parts(f: &Full, p: &Pkg) -> Out {
    let rels = p.rels("")?;
    let tp = rels.iter().find(|r| r.ty.ends_with("/webextensiontaskpanes"));
    if f.exts.is_empty() {
        return Ok(());
    }
    let t = match tp {
        Some(r) => opc::resolve("", &r.target),
        None => return fail("extension:unrelated", "no relationship leads to the task panes"),
    };
    let mut x = p.xml(&t)?;
    resolve_refs(&mut x, p, &t)?;
    let leads: Vec<String> = x.all("wetp:webextensionref").iter().filter_map(|e| e.attr("r:id").map(|s| s.to_string())).collect();
    // the library shows a pane for the first extension only
    let parts: Vec<String> = p.rels(&t)?.iter().filter(|r| r.ty.ends_with("/webextension")).map(|r| opc::resolve(&t, &r.target)).collect();
    if leads.is_empty() || leads[0] != format!("PART:{}", parts.first().cloned().unwrap_or_default()) {
        return fail("extension:panes", format!("task panes show {leads:?} of {parts:?}"));
    }
    if parts.len() != f.exts.len() {
        return fail("extension:count", format!("{parts:?} for {} extensions", f.exts.len()));
    }
    for (e, part) in f.exts.iter().zip(parts) {
        let y = root_with_attrs(p, &part)?;
        want("extension:id", Some(format!("{{{}}}", e.id)), y.attr("id"))?;
        let r = match y.child("we:reference") {
            Some(r) => r,
            None => return fail("extension:reference", "no reference"),
        };
        want("extension:reference", e.reference.iter().map(|s| Some(s.as_str())).collect::<Vec<_>>(), vec![r.attr("id"), r.attr("version"), r.attr("store"), r.attr("storeType")])?;
        let got: Vec<_> = y.all("we:property").iter().map(|p| (p.attr("name").unwrap_or("?").to_string(), p.attr("value").unwrap_or("?").to_string())).collect();
        let exp: Vec<_> = e.props.iter().map(|(a, b)| (a.clone(), format!("\"{}\"", b.replace('"', "\\\"")))).collect();
        want("extension:properties", exp, got)?;
    }
    Ok(())
}
fn root_with_attrs(p: &Pkg, part: &str) -> Result<El, Fail> {
    if !p.has(part) {
        return fail("part:missing", format!("part {part} is missing"));
    }
    p.xml(part)
}
pub const C21: Prop = Prop { id: "C21", rule: "documents with a setting, a document property, a custom XML item or a web extension", quick: 30000, run: c21, ..DEF };
