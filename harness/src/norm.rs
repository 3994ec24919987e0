//! Normal forms: markup and JSON reduced to what they mean.

use crate::doc::img_ph;
use crate::opc::{resolve, Pkg};
use crate::xml::{El, Nd};
use serde_json::{Map, Value};

/// On/off elements and the meaning of their absence is left to the caller: a
/// present one is normalised to `w:val="1"` or `w:val="0"`.
const TOGGLES: &[&str] = &[
    "w:b", "w:bCs", "w:caps", "w:i", "w:iCs", "w:strike", "w:dstrike", "w:vanish", "w:specVanish", "w:keepNext", "w:keepLines",
    "w:pageBreakBefore", "w:widowControl", "w:snapToGrid", "w:bidi", "w:cantSplit", "w:titlePg", "w:isLgl", "w:qFormat", "w:semiHidden",
    "w:unhideWhenUsed", "w:evenAndOddHeaders", "w:adjustLineHeightInTable",
];
/// Containers in which child order carries no meaning.
const SETS: &[&str] = &[
    "w:rPr", "w:pPr", "w:tcPr", "w:tblPr", "w:trPr", "w:sdtPr", "w:sectPr", "w:numPr", "w:pBdr", "w:tblBorders", "w:tcBorders", "w:tblCellMar",
    "w:tcMar", "w:style", "w:lvl", "w:settings", "w:rPrDefault", "w:pPrDefault",
    "w:styles", "w:abstractNum", "w:lvlOverride", "w:compat",
];
/// Empty containers that say nothing.
const VOID: &[&str] = &["w:rPr", "w:pPr", "w:tcPr", "w:trPr", "w:tblBorders", "w:tcBorders", "w:sdtPr", "w:tabs", "w:tblCellMar", "w:tcMar", "w:pBdr"];

fn on(v: Option<&str>) -> &'static str {
    match v {
        None | Some("1") | Some("true") | Some("on") => "1",
        Some("0") | Some("false") | Some("off") => "0",
        Some(_) => "?",
    }
}

fn set(e: &mut El, k: &str, v: &str) {
    match e.attrs.iter_mut().find(|(n, _)| n == k) {
        Some(a) => a.1 = v.to_string(),
        None => e.attrs.push((k.to_string(), v.to_string())),
    }
}

/// Reduce a DOM: unify toggles, sort unordered containers, drop content-free
/// containers, empty runs and generated identifiers.
pub fn norm(e: &El) -> El {
    let mut o = El { name: e.name.clone(), attrs: e.attrs.clone(), kids: vec![] };
    if TOGGLES.contains(&e.name.as_str()) {
        let v = on(e.attr("w:val"));
        set(&mut o, "w:val", v);
    }
    match e.name.as_str() {
        "w:p" => o.attrs.retain(|(k, _)| k != "w14:paraId" && k != "w14:textId"),
        "w:ins" | "w:del" | "w:moveFrom" | "w:moveTo" | "w:pPrChange" => o.attrs.retain(|(k, _)| k != "w:id"),
        "w:ind" => o.attrs.retain(|(k, v)| !((k == "w:left" || k == "w:right") && v == "0")),
        "w:fldChar" => {
            let v = on(o.attr("w:dirty"));
            if o.attr("w:dirty").is_none() || v == "0" {
                o.attrs.retain(|(k, _)| k != "w:dirty");
            } else {
                set(&mut o, "w:dirty", "1");
            }
        }
        "w:gridCol" => o.attrs.retain(|(k, _)| k != "w:type"),
        "w:drawing" => {
            if o.attr("kind").is_none() {
                return drawing(e);
            }
        }
        // character data is significant when it is preserved, or has no edge blanks
        "w:t" | "w:delText" => {
            let t = e.text();
            let pres = e.attr("xml:space") == Some("preserve");
            let edge = t.starts_with([' ', '\t', '\n', '\r']) || t.ends_with([' ', '\t', '\n', '\r']);
            o.attrs.retain(|(k, _)| k != "xml:space");
            if edge && !pres {
                set(&mut o, "space-lost", "1");
            }
            o.kids = e.kids.clone();
            return o;
        }
        "w:instrText" | "w:delInstrText" => {
            o.attrs.retain(|(k, _)| k != "xml:space");
            let mut t = e.text().trim().to_string();
            if t.starts_with("TOC") {
                t = crate::field::switches(&t);
            }
            return o.t(t);
        }
        _ => {}
    }
    for k in &e.kids {
        match k {
            Nd::T(t) => {
                if !t.trim().is_empty() {
                    o.kids.push(Nd::T(t.clone()));
                }
            }
            Nd::E(c) => {
                let c = norm(c);
                if VOID.contains(&c.name.as_str()) && c.kids.is_empty() {
                    continue;
                }
                if c.name == "w:ind" && c.attrs.is_empty() {
                    continue;
                }
                // a run without content shows nothing
                if c.name == "w:r" && c.els().all(|x| x.name == "w:rPr") {
                    continue;
                }
                o.kids.push(Nd::E(c));
            }
        }
    }
    if SETS.contains(&o.name.as_str()) {
        o.kids.sort_by_key(|k| match k {
            Nd::E(e) => (e.name.clone(), format!("{:?}", crate::xml::sorted_attrs(e))),
            Nd::T(_) => (String::new(), String::new()),
        });
    }
    o
}

/// Reduce a picture drawing to the facts that matter.
pub fn drawing(e: &El) -> El {
    let mut o = crate::xml::el("w:drawing");
    let holder = e.els().next();
    if let Some(h) = holder {
        o = o.a("kind", h.name.trim_start_matches("wp:"));
        let pics = e.all("pic:pic");
        if pics.len() == 1 {
            if let Some(b) = e.all("a:blip").first() {
                o = o.ao("embed", b.attr("r:embed"));
            }
            if let Some(x) = h.child("wp:extent") {
                o = o.ao("cx", x.attr("cx")).ao("cy", x.attr("cy"));
            }
            if let Some(x) = e.all("a:ext").iter().find(|x| x.attr("cx").is_some()) {
                o = o.ao("xcx", x.attr("cx")).ao("xcy", x.attr("cy"));
            }
            let n = |k: &str| h.attr(k).and_then(|v| v.parse::<i64>().ok()).unwrap_or(0);
            o = o.a("rot", e.all("a:xfrm").first().and_then(|x| x.attr("rot")).unwrap_or("0"));
            o = o.a("dist", format!("{:?}", [n("distT"), n("distB"), n("distL"), n("distR")]));
            if h.name == "wp:anchor" {
                let on = |k: &str, d: &str| matches!(h.attr(k).unwrap_or(d), "1" | "true" | "on") as u8;
                let sp = h.child("wp:simplePos");
                let c = |k: &str| sp.and_then(|s| s.attr(k)).unwrap_or("?").to_string();
                o = o.a("simple", format!("{} {} {}", on("simplePos", "0"), c("x"), c("y")));
                for (k, n) in [("h", "wp:positionH"), ("v", "wp:positionV")] {
                    let p = h.child(n);
                    let how: Vec<String> =
                        p.map(|p| p.els().map(|x| format!("{} {}", x.name.replace("wp:posOffset", "offset").replace("wp:", ""), x.text())).collect()).unwrap_or_default();
                    o = o.a(k, format!("{} {}", p.and_then(|p| p.attr("relativeFrom")).unwrap_or("?"), how.join("+")));
                }
                o = o.a("overlap", on("allowOverlap", "1")).a("cell", on("layoutInCell", "1")).ao("z", h.attr("relativeHeight"));
                let w: Vec<_> = h.els().filter(|x| x.name.starts_with("wp:wrap")).map(|x| x.name[7..].to_lowercase()).collect();
                o = o.a("wrap", w.join("+"));
            }
        } else {
            o = o.a("pics", pics.len());
        }
    }
    o
}

/// Replace relationship ids by what they denote.
pub fn resolve_refs(e: &mut El, p: &Pkg, part: &str) -> Result<(), crate::runner::Fail> {
    let rels = p.rels(part)?;
    let mut bad = None;
    subst(e, &mut |name, attr, v| {
        if attr != "r:id" && attr != "r:embed" && attr != "r:link" {
            return None;
        }
        let r = match rels.iter().find(|r| r.id == v) {
            Some(r) => r,
            None => {
                bad.get_or_insert(crate::runner::Fail {
                    sig: format!("ref:unresolved:{}:{name}", crate::opc::generic(part)),
                    msg: format!("{part}: <{name}> refers to {v:?}, which is not a relationship of that part"),
                });
                return None;
            }
        };
        if r.external {
            return Some(format!("LINK:{}", r.target));
        }
        let t = resolve(part, &r.target);
        if t.contains("media/") {
            return Some(match p.parts.get(&t) {
                Some(b) => img_ph(b),
                None => format!("MISSING:{t}"),
            });
        }
        Some(format!("PART:{t}"))
    });
    match bad {
        Some(b) => Err(b),
        None => Ok(()),
    }
}

pub fn subst(e: &mut El, f: &mut dyn FnMut(&str, &str, &str) -> Option<String>) {
    let name = e.name.clone();
    for (k, v) in e.attrs.iter_mut() {
        if let Some(n) = f(&name, k, v) {
            *v = n;
        }
    }
    for k in e.kids.iter_mut() {
        if let Nd::E(c) = k {
            subst(c, f);
        }
    }
}

/// JSON ------------------------------------------------------------------------

/// Reduce document JSON: no nulls, no generated ids, no empty runs, no flags
/// derived from other fields.
pub fn jnorm(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut o = Map::new();
            let is_para = m.contains_key("children") && m.contains_key("property") && m.contains_key("id");
            for (k, x) in m {
                if x.is_null() || k == "hasNumbering" || (is_para && k == "id") {
                    continue;
                }
                o.insert(k.clone(), jnorm(x));
            }
            if o.get("type").and_then(|t| t.as_str()) == Some("drawing") {
                if let Some(d) = o.get("data").cloned() {
                    o.insert("data".into(), jdrawing(&d));
                }
            }
            if let Some(Value::Object(i)) = o.get_mut("indent") {
                for k in ["start", "end"] {
                    if i.get(k) == Some(&Value::from(0)) {
                        i.remove(k);
                    }
                }
                if i.is_empty() {
                    o.remove("indent");
                }
            }
            for k in ["borders", "margins"] {
                if matches!(o.get(k), Some(Value::Object(x)) if x.is_empty()) {
                    o.remove(k);
                }
            }
            Value::Object(o)
        }
        Value::Array(a) => Value::Array(
            a.iter()
                .filter(|x| !(x["type"] == "run" && x["data"]["children"].as_array().map_or(false, |c| c.is_empty())))
                .map(jnorm)
                .collect(),
        ),
        Value::Number(n) => {
            // 10.0 and 10 are the same number
            match n.as_f64() {
                Some(f) if f.fract() == 0.0 && f.abs() < 9e15 => Value::from(f as i64),
                _ => v.clone(),
            }
        }
        _ => v.clone(),
    }
}

pub fn unesc(s: &str) -> String {
    s.replace("&lt;", "<")
        .replace("&gt;", ">")
        .replace("&quot;", "\"")
        .replace("&apos;", "'")
        .replace("&#xA;", "\n")
        .replace("&amp;", "&")
}

/// The library keeps authors in escaped form; undo it in place.
pub fn unesc_authors(v: &mut Value) {
    match v {
        Value::Object(m) => {
            for (k, x) in m.iter_mut() {
                match x {
                    Value::String(s) if k == "author" => *s = unesc(s),
                    _ => unesc_authors(x),
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(unesc_authors),
        _ => {}
    }
}

fn jdrawing(d: &Value) -> Value {
    if d["data"].is_object() {
        let p = &d["data"];
        let mut v = serde_json::json!({"type": d["type"], "id": p["id"], "size": p["size"], "rot": p["rot"]});
        v["dist"] = serde_json::json!([p["distT"], p["distB"], p["distL"], p["distR"]]);
        v["float"] = (p["positionType"] == "anchor").into();
        if p["positionType"] == "anchor" {
            v["simple"] = serde_json::json!([p["simplePos"], p["simplePosX"], p["simplePosY"]]);
            for (k, f, n) in [("h", "relativeFromH", "positionH"), ("v", "relativeFromV", "positionV")] {
                let how = match p[n].as_object().and_then(|o| o.iter().next()) {
                    Some((k, v)) => format!("{k} {}", v.as_str().map(String::from).unwrap_or(v.to_string())),
                    None => "?".into(),
                };
                v[k] = serde_json::json!([p[f].as_str().unwrap_or("?").replace("outsize", "outside"), how]);
            }
            v["overlap"] = p["allowOverlap"].clone();
            v["cell"] = p["layoutInCell"].clone();
            v["z"] = p["relativeHeight"].clone();
        }
        if d["type"] == "textBox" {
            for k in ["id", "size", "rot"] {
                v.as_object_mut().unwrap().remove(k);
            }
            v["children"] = p["children"].clone();
        }
        return v;
    }
    d.clone()
}

/// Map relationship ids inside document JSON to what they denote.
pub fn jresolve(v: &mut Value, links: &dyn Fn(&str) -> Option<String>, imgs: &dyn Fn(&str) -> Option<String>) {
    match v {
        Value::Object(m) => {
            if m.get("type").and_then(|t| t.as_str()) == Some("external") {
                if let Some(Value::String(r)) = m.get("rid").cloned() {
                    m.insert("rid".into(), Value::String(links(&r).unwrap_or(format!("UNRESOLVED:{r}"))));
                    m.remove("path");
                }
            }
            if m.get("type").and_then(|t| t.as_str()) == Some("drawing") {
                if let Some(Value::String(r)) = m["data"].get("id").cloned() {
                    m["data"]["id"] = Value::String(imgs(&r).unwrap_or(format!("UNRESOLVED:{r}")));
                }
            }
            for (_, x) in m.iter_mut() {
                jresolve(x, links, imgs);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| jresolve(x, links, imgs)),
        _ => {}
    }
}

pub fn jdiff(exp: &Value, got: &Value, path: &str) -> Option<(String, String)> {
    match (exp, got) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, x) in a {
                match b.get(k) {
                    None => return Some((format!("{path}.{k}"), format!("expected {x} got nothing"))),
                    Some(y) => {
                        if let Some(d) = jdiff(x, y, &format!("{path}.{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            for (k, y) in b {
                if !a.contains_key(k) {
                    return Some((format!("{path}.{k}"), format!("unexpected {y}")));
                }
            }
            None
        }
        (Value::Array(a), Value::Array(b)) => {
            for i in 0..a.len().max(b.len()) {
                match (a.get(i), b.get(i)) {
                    (Some(x), Some(y)) => {
                        if let Some(d) = jdiff(x, y, &format!("{path}[{i}]")) {
                            return Some(d);
                        }
                    }
                    (Some(x), None) => return Some((format!("{path}[{i}]"), format!("expected {x} got nothing"))),
                    (None, Some(y)) => return Some((format!("{path}[{i}]"), format!("unexpected {y}"))),
                    _ => {}
                }
            }
            None
        }
        _ if exp == got => None,
        _ => Some((path.to_string(), format!("expected {exp} got {got}"))),
    }
}

/// path without indices, for signatures
pub fn shape(path: &str) -> String {
    let mut o = String::new();
    let mut skip = false;
    for c in path.chars() {
        match c {
            '[' => skip = true,
            ']' => skip = false,
            c if !skip => o.push(c),
            _ => {}
        }
    }
    // the last three segments identify the place
    let segs: Vec<&str> = o.split(|c| c == '.' || c == '/').filter(|s| !s.is_empty()).collect();
    segs[segs.len().saturating_sub(3)..].join(".")
}
