//! Reading what other producers write: the same content as markup made without the library,
//! and the same markup in other spellings.
use super::hostile::{ser_part, skeleton, Parts, AROUND};
use super::roundtrip::{cmp_json, json_of, read, read_children};
use crate::doc::*;
use crate::full::{self, Ops};
use crate::gen::G;
use crate::norm::*;
use crate::opc;
use crate::runner::{fail, guard, Case, Fail, Out, Prop, DEF};
use crate::xml::{el, esc_attr, parse, El, Nd, DECL, NS};
use serde_json::Value;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- C06

fn real_drawing(e: &El, rid: &str) -> El {
    let ext = |n: &str| el(n).a("cx", e.attr("cx").unwrap()).a("cy", e.attr("cy").unwrap());
    let at = |k: &str| e.attr(k).unwrap_or("").to_string();
    let float = at("kind") == "anchor";
    let d = at("dist").trim_matches(|c| c == '[' || c == ']').split(", ").map(String::from).collect::<Vec<_>>();
    let mut out = el(if float { "wp:anchor" } else { "wp:inline" }).a("distT", &d[0]).a("distB", &d[1]).a("distL", &d[2]).a("distR", &d[3]);
    if float {
        let s = at("simple");
        let s: Vec<_> = s.split(' ').collect();
        out = out.a("simplePos", s[0]).a("relativeHeight", at("z")).a("behindDoc", 0).a("locked", 0);
        out = out.a("layoutInCell", at("cell")).a("allowOverlap", at("overlap"));
        out = out.k(el("wp:simplePos").a("x", s[1]).a("y", s[2]));
        for (k, n) in [("h", "wp:positionH"), ("v", "wp:positionV")] {
            let v = at(k);
            let v: Vec<_> = v.split(' ').collect();
            out = out.k(el(n).a("relativeFrom", v[0]).k(el(if v[1] == "align" { "wp:align" } else { "wp:posOffset" }).t(v[2])));
        }
    }
    let wrap = if at("wrap") == "none" { el("wp:wrapNone") } else { el("wp:wrapSquare").a("wrapText", "bothSides") };
    let (uri, content) = if e.attr("box").is_some() {
        let c = el("wps:wsp").ks(vec![
            el("wps:cNvSpPr").a("txBox", 1),
            el("wps:spPr").k(el("a:xfrm").k(el("a:off").a("x", 0).a("y", 0)).k(ext("a:ext"))).k(el("a:prstGeom").a("prst", "rect").k(el("a:avLst"))),
            el("wps:txbx").k(El { kids: e.kids.clone(), ..el("w:txbxContent") }),
            el("wps:bodyPr").a("rot", 0),
        ]);
        ("http://schemas.microsoft.com/office/word/2010/wordprocessingShape", Some(c))
    } else {
        ("http://schemas.openxmlformats.org/drawingml/2006/picture", None)
    };
    let exts = || el("a:extLst").k(el("a:ext").a("uri", "{28A0092B-C50C-407E-A947-70E740481C1C}"));
    el("w:drawing").k(
        out.ks(vec![
            ext("wp:extent"),
            el("wp:effectExtent").a("l", 0).a("t", 0).a("r", 0).a("b", 0),
        ]).ks(if float { vec![wrap] } else { vec![] }).ks(vec![
            el("wp:docPr").a("id", 1).a("name", "Figure 1"),
            el("wp:cNvGraphicFramePr").k(el("a:graphicFrameLocks").a("noChangeAspect", 1)),
            el("a:graphic").k(
                el("a:graphicData").a("uri", uri).k(content.unwrap_or_else(|| {
                    el("pic:pic").ks(vec![
                        el("pic:nvPicPr").k(el("pic:cNvPr").a("id", 0).a("name", "")).k(el("pic:cNvPicPr")),
                        el("pic:blipFill").k(el("a:blip").a("r:embed", rid).k(exts())).k(el("a:stretch").k(el("a:fillRect"))),
                        el("pic:spPr").k(el("a:xfrm").a("rot", at("rot")).k(el("a:off").a("x", 0).a("y", 0)).k(ext("a:ext"))).k(el("a:prstGeom").a("prst", "rect").k(el("a:avLst"))).k(exts()),
                    ])
                })),
            ),
        ]),
    )
}

/// Turn the reference model's markup into markup a producer would write.
fn realize(e: &mut El, rels: &mut BTreeMap<String, String>, ids: &dyn Fn(usize) -> String) {
    let mut rid = |ph: &str| {
        let n = rels.len();
        rels.entry(ph.to_string()).or_insert_with(|| ids(n)).clone()
    };
    if e.name == "w:drawing" && e.attr("kind").is_some() {
        if e.attr("box").is_some() {
            for k in e.kids.iter_mut() {
                if let Nd::E(c) = k {
                    realize(c, rels, ids);
                }
            }
            *e = real_drawing(e, "");
            return;
        }
        let r = rid(e.attr("embed").unwrap());
        *e = real_drawing(e, &r);
        return;
    }
    for (k, v) in e.attrs.iter_mut() {
        if k == "r:id" && v.starts_with("LINK:") {
            *v = rid(v);
        }
    }
    for k in e.kids.iter_mut() {
        if let Nd::E(c) = k {
            realize(c, rels, ids);
        }
    }
}

fn comments_parts(cs: &[CommentX]) -> (El, El) {
    let (mut a, mut b) = (el("w:comments"), el("w15:commentsEx"));
    let mut n = 0x1000;
    let mut last: BTreeMap<usize, String> = BTreeMap::new();
    for c in cs {
        let mut e = el("w:comment").a("w:id", c.id).a("w:author", &c.author).a("w:date", &c.date).a("w:initials", "");
        let mut ids = vec![];
        for x in &c.x {
            let mut x = x.clone();
            if x.name == "w:p" {
                n += 1;
                ids.push(format!("{n:08X}"));
                x.attrs.insert(0, ("w14:paraId".into(), ids.last().unwrap().clone()));
            }
            e = e.k(x);
        }
        a = a.k(e);
        if let Some(l) = ids.last() {
            last.insert(c.id, l.clone());
        }
    }
    for c in cs {
        if let Some(l) = last.get(&c.id) {
            let mut e = el("w15:commentEx").a("w15:paraId", l).a("w15:done", 0);
            if let Some(p) = c.parent.and_then(|p| last.get(&p)) {
                e = e.a("w15:paraIdParent", p);
            }
            b = b.k(e);
        }
    }
    (a, b)
}

/// A package holding the body a reference model describes, made without the library.
pub fn foreign_package(body: &[El], cs: &[CommentX], images: &BTreeMap<String, Vec<u8>>) -> Parts {
    foreign_package_with(body, cs, images, &|n| format!("rId{}", n + 1))
}

/// The same, its links and images having the given relationship ids.
pub fn foreign_package_with(body: &[El], cs: &[CommentX], images: &BTreeMap<String, Vec<u8>>, ids: &dyn Fn(usize) -> String) -> Parts {
    let mut doc = el("w:document").k(el("w:body").ks(body.to_vec()).k(el("w:sectPr").k(el("w:pgSz").a("w:w", 11906).a("w:h", 16838))));
    let mut rels = BTreeMap::new();
    realize(&mut doc, &mut rels, ids);
    let mut around = vec![];
    if !cs.is_empty() {
        let (a, b) = comments_parts(cs);
        around.push((AROUND.iter().position(|x| x.1 == "comments").unwrap(), a));
        around.push((AROUND.iter().position(|x| x.1 == "commentsExtended").unwrap(), b));
    }
    let mut v = skeleton(&doc, &around, Some(png(9)));
    let mut more = String::new();
    for (i, (ph, rid)) in rels.iter().enumerate() {
        if let Some(u) = ph.strip_prefix("LINK:") {
            more.push_str(&format!("<Relationship Id=\"{rid}\" Type=\"{}\" Target=\"{}\" TargetMode=\"External\"/>", super::hostile::rel_type("hyperlink"), esc_attr(u)));
        } else {
            more.push_str(&format!("<Relationship Id=\"{rid}\" Type=\"{}\" Target=\"media/pic{i}.png\"/>", super::hostile::rel_type("image")));
            v.push((format!("word/media/pic{i}.png"), images[ph].clone()));
        }
    }
    let r = v.iter_mut().find(|p| p.0 == "word/_rels/document.xml.rels").unwrap();
    // low ids for what the text refers to, as word processors hand them out in no particular order
    r.1 = String::from_utf8(r.1.clone()).unwrap().replace("Id=\"rId", "Id=\"rId10").replace("</Relationships>", &format!("{more}</Relationships>")).into_bytes();
    v
}

fn c06(c: &mut Case) -> Out {
    let mut cx = Ctx::new(&mut c.g, Cfg { fmt: 4, boxes: true, ..Cfg::read_all() });
    let m = body(&mut cx, 4);
    let exp = jnorm(&Value::Array(m.j));
    let cl = cx.classes.clone();
    let parts = foreign_package(&m.x, &cx.comments, &cx.images);
    let xml = String::from_utf8_lossy(&parts.iter().find(|p| p.0 == "word/document.xml").unwrap().1).to_string();
    c.note(&cl, xml);
    c.nontrivial = true;
    let d = read(&opc::make_zip(&parts))?;
    let got = read_children(&d)?;
    cmp_json("foreign", &exp, &got)
}

pub const C06: Prop = Prop { id: "C06", rule: "markup made without the library reads as the content it states", quick: 20000, run: c06, ..DEF };

// ---------------------------------------------------------------- C05

/// Spellings a case uses.
#[derive(Default, Debug, Clone)]
pub struct Vary {
    pub order: bool,
    pub quotes: bool,
    pub blanks: bool,
    pub comments: bool,
    pub refs: bool,
    pub cdata: bool,
    pub open_close: bool,
    pub local_ns: bool,
    pub toggles: bool,
    pub unknown: bool,
    pub children: bool,
    pub bom: bool,
    pub split: bool,
    pub defaults: bool,
    pub prefixes: bool,
    /// usual prefix, the one of elements, the one of attributes
    pub renamed: Vec<(&'static str, String, String)>,
}

impl Vary {
    fn named(&self, n: &str, attr: bool) -> String {
        if let Some((p, l)) = n.split_once(':') {
            if let Some((_, e, a)) = self.renamed.iter().find(|r| r.0 == p) {
                return match if attr { a } else { e }.as_str() {
                    "" => l.to_string(),
                    p => format!("{p}:{l}"),
                };
            }
        }
        n.to_string()
    }
    /// Fixed markup in the prefixes of the part.
    fn fixed(&self, s: &str) -> String {
        let e = parse_fragment(s);
        let mut o = format!("<{}", self.named(&e.0, false));
        for (k, v) in e.1 {
            o.push_str(&format!(" {}=\"{v}\"", self.named(&k, true)));
        }
        o + "/>"
    }
}
/// Name and attributes of one empty element.
fn parse_fragment(s: &str) -> (String, Vec<(String, String)>) {
    let s = s.trim_start_matches('<').trim_end_matches("/>");
    let mut i = s.split(' ');
    let n = i.next().unwrap().to_string();
    (n, i.map(|a| a.split_once('=').unwrap()).map(|(k, v)| (k.to_string(), v.trim_matches('"').to_string())).collect())
}

/// Namespaces a part may give any prefix.
const RENAMED: &[&str] = &["w", "a", "mc", "v", "w14", "w15", "r", "wp", "pic", "wps"];

const TOGGLES: &[&str] = &[
    "w:b", "w:caps", "w:i", "w:strike", "w:dstrike", "w:vanish", "w:specVanish", "w:keepNext", "w:keepLines", "w:pageBreakBefore", "w:widowControl", "w:snapToGrid", "w:titlePg", "w:evenAndOddHeaders",
    "w:adjustLineHeightInTable", "w:cantSplit", "w:isLgl",
];
/// Attributes which are on or off.
const SWITCHES: &[&str] = &["w:dirty", "w15:done", "w:history", "w:default", "simplePos", "layoutInCell", "allowOverlap", "behindDoc", "locked", "w:equalWidth", "w:beforeAutospacing", "w:afterAutospacing"];
/// Attributes that mean the same when left out.
const DEFAULTS: &[(&str, &str, &str)] = &[
    ("w:vMerge", "w:val", "continue"),
    ("w:br", "w:type", "textWrapping"),
    ("w15:commentEx", "w15:done", "0"),
    ("Relationship", "TargetMode", "Internal"),
    ("w:tcW", "w:type", "dxa"),
    ("w:tblW", "w:type", "dxa"),
    ("w:tblInd", "w:type", "dxa"),
    ("w:pgSz", "w:orient", "portrait"),
    ("w:fldChar", "w:dirty", "0"),
    ("w:style", "w:default", "0"),
];
/// Property containers: children stated in any order say the same.
const PROPS: &[&str] = &["w:rPr", "w:pPr", "w:tcPr", "w:tblPr", "w:trPr", "w:numPr", "w:pBdr", "w:tblBorders", "w:tcBorders", "w:tblCellMar", "w:tcMar"];
const MIXED: &[&str] = &["w:t", "w:delText", "w:instrText", "w:delInstrText", "wp:posOffset", "wp:align", "vt:lpwstr", "a:t"];

fn chars(g: &mut G, t: &str, v: &Vary, attr: bool, q: char, o: &mut String) {
    for ch in t.chars() {
        match ch {
            '&' => o.push_str(if v.refs && g.coin() { "&#38;" } else { "&amp;" }),
            '<' => o.push_str(if v.refs && g.coin() { "&#x3C;" } else { "&lt;" }),
            '>' if !attr => o.push_str("&gt;"),
            '\r' => o.push_str("&#13;"),
            '\n' | '\t' if attr => o.push_str(&format!("&#{};", ch as u32)),
            '"' | '\'' if attr && ch == q => o.push_str(&format!("&#{};", ch as u32)),
            c if v.refs && g.chance(1, 8) => {
                if g.coin() {
                    o.push_str(&format!("&#{};", c as u32))
                } else {
                    o.push_str(&format!("&#x{:X};", c as u32))
                }
            }
            c => o.push(c),
        }
    }
}

/// Text interrupted by what is not text.
fn pieces(g: &mut G, t: &str, v: &Vary, o: &mut String) {
    let cs: Vec<char> = t.chars().collect();
    let at = g.n(cs.len() + 1);
    for (i, half) in [&cs[..at], &cs[at..]].into_iter().enumerate() {
        let s: String = half.iter().collect();
        if g.coin() && !s.contains("]]>") && !s.contains('\r') {
            o.push_str(&format!("<![CDATA[{s}]]>"));
        } else {
            chars(g, &s, v, false, ' ', o);
        }
        if i == 0 && g.coin() {
            o.push_str(*g.pick(&["<!-- x -->", "<?x y?>"]));
        }
    }
}

fn between(g: &mut G, v: &Vary, o: &mut String) {
    if v.blanks && g.coin() {
        o.push_str(*g.pick(&["\n", "\n  ", " ", "\r\n\t"]));
    }
    if v.comments && g.chance(1, 5) {
        o.push_str(*g.pick(&["<!-- note -->", "<!---->", "<?proof off?>", "<!-- <w:p/> & -->"]));
    }
}

fn write(g: &mut G, e: &El, v: &Vary, xmlns: &str, o: &mut String) {
    let mut attrs: Vec<(String, String)> = e.attrs.clone();
    if v.toggles && TOGGLES.contains(&e.name.as_str()) {
        let on = !matches!(e.attr("w:val"), Some("0") | Some("false") | Some("off"));
        attrs.retain(|a| a.0 != "w:val");
        let s = if on { *g.pick(&["1", "true", "on", ""]) } else { *g.pick(&["0", "false", "off"]) };
        if !s.is_empty() {
            attrs.push(("w:val".into(), s.into()));
        }
    }
    if v.toggles {
        for a in attrs.iter_mut().filter(|a| SWITCHES.contains(&a.0.as_str())) {
            match a.1.as_str() {
                "1" | "true" | "on" => a.1 = g.pick(if a.0.contains(':') { &["1", "true", "on"] } else { &["1", "true"] as &[&str] }).to_string(),
                "0" | "false" | "off" => a.1 = g.pick(if a.0.contains(':') { &["0", "false", "off"] } else { &["0", "false"] as &[&str] }).to_string(),
                _ => {}
            }
        }
    }
    if v.defaults {
        if let Some((_, k, d)) = DEFAULTS.iter().find(|d| d.0 == e.name) {
            if g.coin() {
                let n = attrs.len();
                attrs.retain(|a| a.0 != *k || a.1 != *d);
                if attrs.len() == n && !attrs.iter().any(|a| a.0 == *k) {
                    attrs.push((k.to_string(), d.to_string()));
                }
            }
        }
    }
    if v.unknown && matches!(e.name.as_str(), "w:p" | "w:r" | "w:tr") && g.chance(1, 3) {
        attrs.push(("w:rsidR".into(), "00A77B3E".into()));
    }
    if v.order {
        let p = g.perm(attrs.len());
        attrs = p.into_iter().map(|i| attrs[i].clone()).collect();
    }
    let name = v.named(&e.name, false);
    o.push('<');
    o.push_str(&name);
    o.push_str(xmlns);
    if v.local_ns && g.chance(1, 10) && xmlns.is_empty() {
        if let Some((p, _)) = e.name.split_once(':') {
            if let Some((_, u)) = NS.iter().find(|n| n.0 == p) {
                match name.split_once(':') {
                    Some((p, _)) => o.push_str(&format!(" xmlns:{p}=\"{u}\"")),
                    None => o.push_str(&format!(" xmlns=\"{u}\"")),
                }
            }
        }
    }
    for (k, val) in &attrs {
        let val = &if k == "Requires" { v.named(&format!("{val}:"), true).trim_end_matches(':').to_string() } else { val.clone() };
        let k = v.named(k, true);
        o.push_str(if v.blanks && g.chance(1, 4) { "\n    " } else { " " });
        let q = if v.quotes && g.coin() { '\'' } else { '"' };
        let eq = if v.blanks && g.chance(1, 8) { " = " } else { "=" };
        o.push_str(&format!("{k}{eq}{q}"));
        chars(g, val, v, true, q, o);
        o.push(q);
    }
    if v.blanks && g.chance(1, 6) {
        o.push(' ');
    }
    if e.kids.is_empty() {
        if v.open_close && g.coin() {
            o.push_str(&format!("></{name}>"));
        } else {
            o.push_str("/>");
        }
        return;
    }
    o.push('>');
    let mixed = MIXED.contains(&e.name.as_str()) || e.kids.iter().any(|k| matches!(k, Nd::T(t) if !t.trim().is_empty()));
    let mut kids: Vec<&Nd> = e.kids.iter().collect();
    if v.children && PROPS.contains(&e.name.as_str()) {
        let p = g.perm(kids.len());
        kids = p.into_iter().map(|i| kids[i]).collect();
    }
    for k in kids {
        if !mixed {
            between(g, v, o);
        }
        match k {
            Nd::T(t) => {
                if v.split && MIXED.contains(&e.name.as_str()) && g.coin() {
                    pieces(g, t, v, o);
                } else if v.cdata && !t.contains("]]>") && !t.contains('\r') && g.chance(1, 3) {
                    o.push_str(&format!("<![CDATA[{t}]]>"));
                } else {
                    chars(g, t, v, false, ' ', o);
                }
            }
            Nd::E(c) => write(g, c, v, "", o),
        }
        if v.unknown {
            let s = match e.name.as_str() {
                "w:p" if g.chance(1, 6) && !matches!(k, Nd::E(c) if c.name == "w:pPr") => *g.pick(&["<w:proofErr w:type=\"spellStart\"/>", "<w:permStart w:id=\"77\" w:edGrp=\"everyone\"/>"]),
                "w:rPr" if g.chance(1, 6) => *g.pick(&["<w:lang w:val=\"en-US\"/>", "<w:noProof/>", "<w:kern w:val=\"2\"/>", "<w14:ligatures w14:val=\"standard\"/>"]),
                "w:pPr" if g.chance(1, 6) => *g.pick(&["<w:contextualSpacing/>", "<w:suppressAutoHyphens/>", "<w:kinsoku w:val=\"0\"/>"]),
                "w:tcPr" if g.chance(1, 6) => *g.pick(&["<w:noWrap/>", "<w:hideMark/>"]),
                "w:tblPr" if g.chance(1, 6) => "<w:tblLook w:val=\"04A0\" w:firstRow=\"1\"/>",
                "w:r" if g.chance(1, 8) => "<w:lastRenderedPageBreak/>",
                _ => "",
            };
            if !s.is_empty() {
                o.push_str(&v.fixed(s));
            }
        }
    }
    if !mixed {
        between(g, v, o);
    }
    o.push_str(&format!("</{name}>"));
}

/// Another spelling of a part.
pub fn respell(g: &mut G, e: &El, v: &Vary) -> Vec<u8> {
    // names in package level parts carry no prefix
    let plain = parse(ser_part(e).as_bytes()).unwrap();
    let mut plain = plain;
    let mut v = &Vary { renamed: vec![], ..v.clone() };
    let named;
    if v.prefixes {
        named = prefixes(g, v);
        v = &named;
    }
    let mut xmlns = String::new();
    for (p, u) in NS {
        match v.renamed.iter().find(|r| r.0 == p) {
            Some((_, e, a)) => {
                xmlns.push_str(&if e.is_empty() { format!(" xmlns=\"{u}\"") } else { format!(" xmlns:{e}=\"{u}\"") });
                if a != e {
                    xmlns.push_str(&format!(" xmlns:{a}=\"{u}\""));
                }
            }
            None => xmlns.push_str(&format!(" xmlns:{p}=\"{u}\"")),
        }
    }
    for p in ["rel", "ct", "cust", "ext"] {
        if plain.name.starts_with(&format!("{p}:")) && v.prefixes && g.coin() {
            break;
        }
        if plain.name.starts_with(&format!("{p}:")) {
            strip(&mut plain, &format!("{p}:"));
            let u = NS.iter().find(|x| x.0 == p).unwrap().1;
            xmlns = format!(" xmlns=\"{u}\" xmlns:vt=\"{}\"", NS.iter().find(|x| x.0 == "vt").unwrap().1);
        }
    }
    let mut o = String::new();
    if v.bom && g.coin() {
        o.push('\u{feff}');
    }
    if !v.bom || g.coin() {
        o.push_str(if v.quotes && g.coin() { "<?xml version='1.0' encoding='utf-8'?>" } else { DECL });
    }
    between(g, v, &mut o);
    write(g, &plain, v, &xmlns, &mut o);
    between(g, v, &mut o);
    o.into_bytes()
}
/// Other prefixes for some namespaces.
fn prefixes(g: &mut G, v: &Vary) -> Vary {
    let mut r: Vec<(&'static str, String, String)> = vec![];
    if g.chance(1, 5) {
        // two change places
        let p = &RENAMED[..6];
        let (a, b) = (g.n(6), g.n(6));
        r.push((p[a], p[b].into(), p[b].into()));
        if a != b {
            r.push((p[b], p[a].into(), p[a].into()));
        }
    } else {
        let mut bare = false;
        for p in RENAMED {
            match g.n(4) {
                0 => r.push((p, format!("ns{}", r.len()), format!("ns{}", r.len()))),
                1 if !bare => {
                    bare = true;
                    r.push((p, String::new(), p.to_string()));
                }
                2 => r.push((p, format!("x-{p}.1"), format!("x-{p}.1"))),
                _ => {}
            }
        }
    }
    Vary { renamed: r, ..v.clone() }
}
fn strip(e: &mut El, p: &str) {
    if let Some(n) = e.name.strip_prefix(p) {
        e.name = n.to_string();
    }
    for k in e.kids.iter_mut() {
        if let Nd::E(c) = k {
            strip(c, p);
        }
    }
}

pub fn vary(c: &mut Case) -> Vary {
    let mut v = Vary::default();
    let fs: [(&str, &mut bool); 15] = [
        ("attribute order", &mut v.order),
        ("quotes", &mut v.quotes),
        ("blanks", &mut v.blanks),
        ("comments and instructions", &mut v.comments),
        ("character references", &mut v.refs),
        ("character data sections", &mut v.cdata),
        ("empty elements", &mut v.open_close),
        ("local namespace declarations", &mut v.local_ns),
        ("on/off spellings", &mut v.toggles),
        ("unknown markup", &mut v.unknown),
        ("order of properties", &mut v.children),
        ("byte order mark", &mut v.bom),
        ("text in pieces", &mut v.split),
        ("default values", &mut v.defaults),
        ("prefixes", &mut v.prefixes),
    ];
    for (n, f) in fs {
        if c.g.chance(1, 3) {
            *f = true;
            c.classes.insert(n.to_string());
        }
    }
    v
}

/// Everything read, generated ids and relationship-neutral noise removed.
fn all_json(d: &docx_rs::Docx) -> Result<Value, crate::runner::Fail> {
    let v = json_of(d)?;
    Ok(jnorm(&v))
}

fn c05(c: &mut Case) -> Out {
    let parts: Parts = if c.g.coin() {
        let mut cx = Ctx::new(&mut c.g, Cfg { fmt: 3, boxes: true, ..Cfg::read_all() });
        let m = body(&mut cx, 3);
        foreign_package(&m.x, &cx.comments, &cx.images)
    } else {
        let mut cx = Ctx::new(&mut c.g, Cfg { fmt: 2, depth: 1, ..Cfg::write_all() });
        let f = full::full(&mut cx, &Ops { calls: 4, ..Ops::all() });
        let p = opc::open(&pack(f.d)?)?;
        p.names.iter().map(|n| (n.clone(), p.parts[n].clone())).collect()
    };
    let v = vary(c);
    c.nontrivial = c.classes.len() > 0;
    let mut other: Parts = vec![];
    for (n, b) in &parts {
        if opc::is_xml(n) && !n.starts_with("customXml") {
            match parse(b) {
                Ok(e) => other.push((n.clone(), respell(&mut c.g, &e, &v))),
                Err(m) => return fail("harness:unparsable", format!("{n}: {m}")),
            }
        } else {
            other.push((n.clone(), b.clone()));
        }
    }
    let text = |ps: &Parts| ps.iter().filter(|p| opc::is_xml(&p.0)).map(|(n, b)| format!("{n}: {}\n", String::from_utf8_lossy(b))).collect::<String>();
    let s = text(&other);
    c.content(s.as_bytes());
    c.sample = s;
    for (n, b) in &other {
        if opc::is_xml(n) && !n.starts_with("customXml") {
            if let Err(m) = parse(b) {
                return fail("harness:respelling", format!("{n}: {m}"));
            }
        }
    }
    let a = all_json(&read(&opc::make_zip(&parts))?)?;
    let b = all_json(&read(&opc::make_zip(&other))?)?;
    cmp_json("respelled", &a, &b)
}

pub const C05: Prop = Prop { id: "C05", rule: "how markup is spelled does not change what is read", quick: 20000, run: c05, ..DEF };

// ---------------------------------------------------------------- C18

fn read_flat(s: &str) -> Result<docx_rs::Docx, Fail> {
    match guard("read_xml", || docx_rs::read_xml(s))? {
        Ok(d) => Ok(d),
        Err(e) => fail("flat:error", format!("read_xml failed: {e:?}")),
    }
}

/// A flat package of the given parts in one of the layouts word processors write.
fn flat_varied(g: &mut crate::gen::G, parts: &Parts) -> String {
    let mut order: Vec<usize> = (0..parts.len()).collect();
    if g.coin() {
        for i in (1..order.len()).rev() {
            order.swap(i, g.n(i + 1));
        }
    }
    let nl = if g.coin() { "\r\n" } else { "" };
    let slash = if g.chance(1, 4) { "" } else { "/" };
    let wrap = if g.coin() { 76 } else { usize::MAX };
    let swap = g.chance(1, 4);
    let mut s = format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>{nl}<?mso-application progid=\"Word.Document\"?>{nl}<pkg:package xmlns:pkg=\"http://schemas.microsoft.com/office/2006/xmlPackage\">");
    for i in order {
        let (n, b) = &parts[i];
        if n == "[Content_Types].xml" {
            continue;
        }
        let xml = opc::is_xml(n);
        let name = format!(" pkg:name=\"{slash}{n}\"");
        let ct = format!(" pkg:contentType=\"{}\"", if xml { "application/xml" } else { "image/png" });
        let extra = match g.below(4) {
            0 => " pkg:padding=\"512\"",
            1 => " pkg:compression=\"store\"",
            _ => "",
        };
        let attrs = if swap { format!("{extra}{ct}{name}") } else { format!("{name}{ct}{extra}") };
        s.push_str(&format!("{nl}<pkg:part{attrs}>{nl}"));
        if xml {
            let t = String::from_utf8_lossy(b);
            let t = match t.find("?>") {
                Some(i) if t.starts_with("<?xml") => t[i + 2..].to_string(),
                _ => t.to_string(),
            };
            s.push_str(&format!("<pkg:xmlData>{t}</pkg:xmlData>"));
        } else {
            let d = super::hostile::b64(b);
            let d: Vec<String> = d.as_bytes().chunks(wrap).map(|c| String::from_utf8_lossy(c).to_string()).collect();
            s.push_str(&format!("<pkg:binaryData>{}</pkg:binaryData>", d.join("\r\n")));
        }
        s.push_str(&format!("{nl}</pkg:part>"));
    }
    s.push_str(nl);
    s.push_str("</pkg:package>");
    s
}

fn c18(c: &mut Case) -> Out {
    let cl;
    let parts: Parts = if c.g.coin() {
        let mut cx = Ctx::new(&mut c.g, Cfg { fmt: 2, boxes: true, ..Cfg::read_all() });
        let m = body(&mut cx, 3);
        cl = cx.classes.clone();
        foreign_package(&m.x, &cx.comments, &cx.images)
    } else {
        let mut cx = Ctx::new(&mut c.g, Cfg { fmt: 2, depth: 1, ..Cfg::write_all() });
        let f = full::full(&mut cx, &Ops { calls: 5, item: 0, ext: 0, ..Ops::all() });
        cl = cx.classes.clone();
        let p = opc::open(&pack(f.d)?)?;
        p.names.iter().map(|n| (n.clone(), p.parts[n].clone())).collect()
    };
    let mut parts = parts;
    // the flat reader takes up a numbering part nothing relates to, which is a leniency of its own
    if !parts.iter().any(|p| p.0 == "word/_rels/document.xml.rels" && String::from_utf8_lossy(&p.1).contains("relationships/numbering")) {
        parts.retain(|p| p.0 != "word/numbering.xml");
    }
    let s = flat_varied(&mut c.g, &parts);
    c.note(&cl, s.clone());
    c.nontrivial = true;
    let a = read(&opc::make_zip(&parts))?;
    let b = read_flat(&s)?;
    let strip = |d: &docx_rs::Docx| -> Result<Value, Fail> {
        let mut v = all_json(d)?;
        // compared below: paths differ between the two forms, and flat packages are documented
        // not to bring the images of headers and footers
        for k in ["images", "hyperlinks", "contentType", "documentRels"] {
            v[k] = Value::Null;
        }
        Ok(v)
    };
    cmp_json("flat", &strip(&a)?, &strip(&b)?)?;
    let links = |d: &docx_rs::Docx| d.hyperlinks.iter().map(|(i, t, m)| (i.clone(), (t.clone(), m.clone()))).collect::<BTreeMap<_, _>>();
    if links(&a) != links(&b) {
        return fail("flat:hyperlinks", format!("{:?} but flat {:?}", links(&a), links(&b)));
    }
    let rels = parts.iter().find(|p| p.0 == "word/_rels/document.xml.rels").map(|p| String::from_utf8_lossy(&p.1).to_string()).unwrap_or_default();
    let imgs = |d: &docx_rs::Docx| d.images.iter().filter(|i| rels.contains(&format!("\"{}\"", i.0))).map(|i| (i.0.clone(), (i.2 .0.clone(), i.3 .0.clone()))).collect::<BTreeMap<_, _>>();
    if imgs(&a) != imgs(&b) {
        return fail("flat:images", format!("{:?} but flat {:?}", imgs(&a).keys(), imgs(&b).keys()));
    }
    // text boxes and shapes cannot be written (see C25)
    if cl.contains("text box") || cl.contains("shape") {
        return Ok(());
    }
    // both are written the same again: the same parts, related and typed alike
    let again = |d: docx_rs::Docx| -> Result<Vec<(&'static str, Vec<String>)>, Fail> {
        let p = opc::open(&pack(d)?)?;
        let names = p.names.iter().filter(|n| !n.starts_with("word/media")).cloned();
        let rels = p.rels("word/document.xml")?.into_iter().filter(|r| !r.ty.ends_with("/image")).map(|r| format!("{} {}", r.ty, r.target));
        let types = p.xml("[Content_Types].xml")?.els().map(|e| format!("{:?}", e.attrs)).collect::<Vec<_>>();
        let mut v = vec![("entries", names.collect::<Vec<_>>()), ("relationships", rels.collect()), ("types", types)];
        v.iter_mut().for_each(|x| x.1.sort());
        Ok(v)
    };
    for ((k, x), (_, y)) in again(a)?.into_iter().zip(again(b)?) {
        if x != y {
            return fail(format!("flat:again:{k}"), format!("{x:?} but flat {y:?}"));
        }
    }
    Ok(())
}

pub const C18: Prop = Prop { id: "C18", rule: "a flat XML package reads as the same parts in an archive do", quick: 20000, run: c18, ..DEF };
