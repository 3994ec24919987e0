//! Definitions of documents made elsewhere: styles, numbering, settings, theme and web settings.
use super::foreign::{respell, vary};
use super::hostile::{ser_part, skeleton, AROUND};
use super::roundtrip::{cmp_json, json_of, read};
use crate::doc::*;
use crate::fmt::*;
use crate::full::{FORMATS, STYLE_TYPES};
use crate::norm::{jnorm, unesc};
use crate::opc;
use crate::runner::{fail, Case, Out, Prop, DEF};
use crate::xml::{el, parse, El};
use serde_json::{json, Map, Value};

fn val(n: &str, v: impl ToString) -> El {
    el(n).a("w:val", v)
}

fn rpr(cx: &mut Ctx) -> (El, Value) {
    let (_, st) = rs_history(cx.g, RTarget::Prop, cx.cfg.f, 3);
    (st.x(), st.j())
}
fn ppr(cx: &mut Ctx) -> (El, Value) {
    let (_, st) = ps_history(cx.g, PTarget::Prop, cx.cfg.f, 3, true);
    (st.x(), st.j())
}
fn tblpr(cx: &mut Ctx) -> (El, Value) {
    let mut st = TState::new(cx.g.coin());
    for _ in 0..cx.g.len(0, 3) {
        let h = ts(cx.g, cx.cfg.f);
        st.apply(&h);
    }
    (st.x(), st.j())
}
fn tcpr(cx: &mut Ctx) -> (El, Value) {
    let mut st = CState::default();
    for _ in 0..cx.g.len(0, 3) {
        let h = cs(cx.g);
        st.apply(&h);
    }
    (st.x(), st.j())
}

/// Conditional formatting of a table style.
fn conditional(cx: &mut Ctx) -> El {
    let t = *cx.g.pick(&["firstRow", "lastRow", "band1Horz", "nwCell"]);
    let mut e = el("w:tblStylePr").a("w:type", t);
    if cx.g.coin() {
        e = e.k(ppr(cx).0);
    }
    if cx.g.coin() {
        e = e.k(rpr(cx).0);
    }
    if cx.g.coin() {
        e = e.k(tblpr(cx).0);
    }
    if cx.g.coin() {
        e = e.k(tcpr(cx).0);
    }
    cx.cls("conditional table formatting");
    e
}

fn style(cx: &mut Ctx, id: &str) -> (El, Value) {
    let ti = cx.g.n(4);
    let mut e = el("w:style").a("w:type", STYLE_TYPES[ti].1).a("w:styleId", id);
    let mut j = Map::new();
    j.insert("styleId".into(), json!(id));
    j.insert("styleType".into(), json!(STYLE_TYPES[ti].1));
    if cx.g.chance(1, 5) {
        e = e.a("w:default", 1);
    }
    let name = if cx.g.chance(1, 8) { String::new() } else { cx.txt() };
    if !name.is_empty() {
        e = e.k(val("w:name", &name));
    }
    j.insert("name".into(), json!(name));
    let noise = |cx: &mut Ctx, e: El, k: El| if cx.g.chance(1, 4) { e.k(k) } else { e };
    e = noise(cx, e, val("w:aliases", "other"));
    for (n, k) in [("w:basedOn", "basedOn"), ("w:link", "link")] {
        if cx.g.chance(1, 3) {
            let t = cx.g.ident();
            e = e.k(val(n, &t));
            j.insert(k.into(), json!(t));
        }
    }
    e = noise(cx, e, el("w:autoRedefine"));
    e = noise(cx, e, el("w:locked"));
    e = noise(cx, e, val("w:rsid", "00A77B3E"));
    j.insert("paragraphProperty".into(), PState::default().j());
    j.insert("runProperty".into(), json!({}));
    if cx.g.coin() {
        let (x, v) = ppr(cx);
        e = e.k(x);
        j.insert("paragraphProperty".into(), v);
    }
    if cx.g.coin() {
        let (x, v) = rpr(cx);
        e = e.k(x);
        j.insert("runProperty".into(), v);
    }
    if ti == 2 {
        let (x, v) = tblpr(cx);
        e = e.k(x);
        j.insert("tableProperty".into(), v);
        e = noise(cx, e, el("w:trPr").k(el("w:cantSplit")));
        let (x, v) = tcpr(cx);
        e = e.k(x);
        j.insert("tableCellProperty".into(), v);
        for _ in 0..cx.g.len(0, 2) {
            let k = conditional(cx);
            e = e.k(k);
        }
    }
    cx.cls("style");
    (e, Value::Object(j))
}

fn level(cx: &mut Ctx, i: usize) -> (El, Value) {
    let mut e = el("w:lvl").a("w:ilvl", i);
    if cx.g.chance(1, 4) {
        e = e.a("w:tplc", "04090001");
    }
    let mut j = Map::new();
    j.insert("level".into(), json!(i));
    j.insert("start".into(), json!(1));
    j.insert("format".into(), json!("decimal"));
    j.insert("text".into(), json!(""));
    j.insert("jc".into(), json!("left"));
    j.insert("suffix".into(), json!("tab"));
    let n = cx.g.num(0, 32767);
    e = e.k(val("w:start", n));
    j.insert("start".into(), json!(n));
    if cx.g.chance(4, 5) {
        let t = cx.g.pick(FORMATS).to_string();
        e = e.k(val("w:numFmt", &t));
        j.insert("format".into(), json!(t));
    }
    if cx.g.chance(1, 4) {
        let n = cx.g.num(0, 9);
        e = e.k(val("w:lvlRestart", n));
        j.insert("levelRestart".into(), json!(n));
    }
    if cx.g.chance(1, 4) {
        let t = cx.g.ident();
        e = e.k(val("w:pStyle", &t));
        j.insert("pstyle".into(), json!(t));
    }
    if cx.g.chance(1, 4) {
        let on = cx.g.chance(2, 3);
        e = e.k(if on { el("w:isLgl") } else { val("w:isLgl", 0) });
        if on {
            j.insert("isLgl".into(), json!(true));
        }
    }
    if cx.g.chance(1, 3) {
        let s = cx.g.n(SUFFIXES.len());
        e = e.k(val("w:suff", SUFFIXES[s].1));
        j.insert("suffix".into(), json!(SUFFIXES[s].1));
    }
    if cx.g.chance(4, 5) {
        let t = cx.val();
        e = e.k(val("w:lvlText", &t));
        j.insert("text".into(), json!(t));
    }
    if cx.g.chance(4, 5) {
        let t = *cx.g.pick(&["left", "center", "right", "start", "end"]);
        e = e.k(val("w:lvlJc", t));
        j.insert("jc".into(), json!(t));
    }
    j.insert("paragraphProperty".into(), PState::default().j());
    j.insert("runProperty".into(), json!({}));
    if cx.g.coin() {
        let (x, v) = ppr(cx);
        e = e.k(x);
        j.insert("paragraphProperty".into(), v);
    }
    if cx.g.coin() {
        let (x, v) = rpr(cx);
        e = e.k(x);
        j.insert("runProperty".into(), v);
    }
    (e, Value::Object(j))
}

fn numbering(cx: &mut Ctx) -> (El, Value) {
    let mut e = el("w:numbering");
    let (mut a, mut n) = (vec![], vec![]);
    for i in 0..cx.g.len(0, 2) {
        let id = i * 3 + cx.g.n(2);
        let mut x = el("w:abstractNum").a("w:abstractNumId", id);
        if cx.g.coin() {
            x = x.a("w15:restartNumberingAfterBreak", 0).k(val("w:nsid", "0CC12345")).k(val("w:multiLevelType", "hybridMultilevel")).k(val("w:tmpl", "A1B2C3D4")).k(val("w:name", "list"));
        }
        let mut j = json!({"id": id, "levels": []});
        for (n, k) in [("w:styleLink", "styleLink"), ("w:numStyleLink", "numStyleLink")] {
            if cx.g.chance(1, 5) {
                let t = cx.g.ident();
                x = x.k(val(n, &t));
                j[k] = json!(t);
            }
        }
        let mut ls = vec![];
        for l in 0..cx.g.len(0, 3) {
            let (lx, lj) = level(cx, l);
            x = x.k(lx);
            ls.push(lj);
        }
        j["levels"] = Value::Array(ls);
        e = e.k(x);
        a.push(j);
    }
    for i in 0..cx.g.len(0, 3) {
        let (id, ab) = (i * 2 + cx.g.n(2), cx.g.num(0, 9));
        let mut x = el("w:num").a("w:numId", id).k(val("w:abstractNumId", ab));
        let mut os = vec![];
        for l in 0..cx.g.len(0, 2) {
            let mut ox = el("w:lvlOverride").a("w:ilvl", l);
            let mut oj = json!({"level": l});
            if cx.g.coin() {
                let s = cx.g.num(0, 99);
                ox = ox.k(val("w:startOverride", s));
                oj["overrideStart"] = json!(s);
            }
            if cx.g.coin() {
                let (lx, lj) = level(cx, l);
                ox = ox.k(lx);
                oj["overrideLevel"] = lj;
            }
            x = x.k(ox);
            os.push(oj);
        }
        e = e.k(x);
        n.push(json!({"id": id, "abstractNumId": ab, "levelOverrides": os}));
    }
    cx.cls("numbering");
    (e, json!({"abstractNums": a, "numberings": n}))
}

fn settings(cx: &mut Ctx) -> (El, Value) {
    let mut e = el("w:settings");
    let mut j = json!({"defaultTabStop": 840, "zoom": 100, "docVars": [], "evenAndOddHeaders": false, "adjustLineHeightInTable": false});
    if cx.g.coin() {
        e = e.k(el("w:zoom").a("w:percent", 100)).k(el("w:trackRevisions"));
    }
    if cx.g.coin() {
        let n = cx.g.num(0, 5000);
        e = e.k(val("w:defaultTabStop", n));
        j["defaultTabStop"] = json!(n);
    }
    if cx.g.coin() {
        let on = cx.g.coin();
        e = e.k(if on { el("w:evenAndOddHeaders") } else { val("w:evenAndOddHeaders", 0) });
        j["evenAndOddHeaders"] = json!(on);
    }
    if cx.g.coin() {
        let t = *cx.g.pick(&["doNotCompress", "compressPunctuation", "compressPunctuationAndJapaneseKana"]);
        e = e.k(val("w:characterSpacingControl", t));
        j["characterSpacingControl"] = json!(t);
    }
    if cx.g.coin() {
        let on = cx.g.coin();
        e = e.k(el("w:compat").k(el("w:spaceForUL")).k(if on { el("w:adjustLineHeightInTable") } else { val("w:adjustLineHeightInTable", 0) }).k(el("w:useFELayout")));
        j["adjustLineHeightInTable"] = json!(on);
    }
    let mut vs = vec![];
    for _ in 0..cx.g.len(0, 3) {
        let (a, b) = (cx.txt(), cx.val());
        vs.push((a, b));
    }
    if !vs.is_empty() {
        e = e.k(el("w:docVars").ks(vs.iter().map(|(a, b)| el("w:docVar").a("w:name", a).a("w:val", b)).collect()));
        j["docVars"] = Value::Array(vs.iter().map(|(a, b)| json!({"name": a, "val": b})).collect());
    }
    if cx.g.coin() {
        let t = cx.g.ident();
        e = e.k(el("w14:docId").a("w14:val", "1A2B3C4D")).k(el("w15:docId").a("w15:val", format!("{{{t}}}")));
        j["docId"] = json!(t);
    }
    cx.cls("settings");
    (e, j)
}

fn fonts(cx: &mut Ctx, n: &str) -> (El, Value) {
    let mut e = el(n);
    let mut j = json!({"latin": "", "ea": "", "cs": "", "fonts": []});
    for k in ["latin", "ea", "cs"] {
        if cx.g.chance(4, 5) {
            let t = cx.val();
            e = e.k(el(&format!("a:{k}")).a("typeface", &t).a("panose", "020F0302020204030204"));
            j[k] = json!(t);
        }
    }
    let mut fs = vec![];
    for _ in 0..cx.g.len(0, 3) {
        let (a, b) = (cx.g.pick(&["Jpan", "Hang", "Arab", "Thai"]).to_string(), cx.txt());
        e = e.k(el("a:font").a("script", &a).a("typeface", &b));
        fs.push(json!({"script": a, "typeface": b}));
    }
    j["fonts"] = Value::Array(fs);
    (e, j)
}

fn theme(cx: &mut Ctx) -> (El, Value) {
    let (a, aj) = fonts(cx, "a:majorFont");
    let (b, bj) = fonts(cx, "a:minorFont");
    let mut t = el("a:themeElements");
    if cx.g.coin() {
        t = t.k(el("a:clrScheme").a("name", "Office").k(el("a:dk1").k(el("a:sysClr").a("val", "windowText").a("lastClr", "000000"))));
    }
    t = t.k(el("a:fontScheme").a("name", "Office").k(a).k(b));
    if cx.g.coin() {
        t = t.k(el("a:fmtScheme").a("name", "Office").k(el("a:fillStyleLst").k(el("a:solidFill").k(el("a:schemeClr").a("val", "phClr")))));
    }
    let mut e = el("a:theme").a("name", "Office Theme").k(t);
    if cx.g.chance(1, 3) {
        // fonts elsewhere in the theme
        e = e.k(el("a:objectDefaults").k(el("a:spDef").k(el("a:lstStyle").k(el("a:defPPr").k(el("a:defRPr").k(el("a:latin").a("typeface", "Elsewhere")).k(el("a:ea").a("typeface", "Elsewhere")))))));
    }
    cx.cls("theme");
    (e, json!([{"fontSchema": {"majorFont": aj, "minorFont": bj}}]))
}

fn div(cx: &mut Ctx, depth: usize) -> (El, Value) {
    let id = cx.g.num(0, 99999).to_string();
    let mut e = el("w:div").a("w:id", &id);
    let mut j = json!({"id": id, "marginLeft": 0, "marginRight": 0, "marginTop": 0, "marginBottom": 0, "divsChild": []});
    for (n, k) in [("w:marLeft", "marginLeft"), ("w:marRight", "marginRight"), ("w:marTop", "marginTop"), ("w:marBottom", "marginBottom")] {
        if cx.g.chance(3, 4) {
            let v = cx.g.num(0, 9999);
            e = e.k(val(n, v));
            j[k] = json!(v);
        }
    }
    if cx.g.coin() {
        e = e.k(el("w:divBdr").k(el("w:top").a("w:val", "none").a("w:sz", 0).a("w:space", 0).a("w:color", "auto")));
    }
    if depth < 3 && cx.g.chance(1, 3) {
        let mut d = el("w:divsChild");
        let mut v = vec![];
        for _ in 0..cx.g.len(1, 2) {
            let (x, y) = div(cx, depth + 1);
            d = d.k(x);
            v.push(y);
        }
        e = e.k(d);
        j["divsChild"] = Value::Array(v);
        cx.cls("division in division");
    }
    (e, j)
}

fn web(cx: &mut Ctx) -> (El, Value) {
    let mut ds = el("w:divs");
    let mut v = vec![];
    for _ in 0..cx.g.len(1, 2) {
        let (x, y) = div(cx, 0);
        ds = ds.k(x);
        v.push(y);
    }
    (el("w:webSettings").k(ds).k(el("w:optimizeForBrowser")), json!({"divs": v}))
}

fn properties(cx: &mut Ctx) -> (El, Value) {
    let mut e = el("Properties");
    let mut j = Map::new();
    for i in 0..cx.g.len(0, 4) {
        let name = format!("{}{i}", cx.txt());
        let p = el("property").a("fmtid", "{D5CDD505-2E9C-101B-9397-08002B2CF9AE}").a("pid", i + 2).a("name", &name);
        // only texts are represented
        e = e.k(match cx.g.n(4) {
            0 => p.k(el("vt:i4").t("7")),
            1 => p.k(el("vt:bool").t("true")),
            _ => {
                let t = cx.val();
                j.insert(name, json!(t));
                p.k(el("vt:lpwstr").t(&t))
            }
        });
    }
    cx.cls("custom properties");
    (e, Value::Object(j))
}

/// The members of `exp` only.
fn only(exp: &Value, got: &Value) -> Value {
    match (exp, got) {
        (Value::Object(e), Value::Object(g)) if e.contains_key("styleId") => Value::Object(g.iter().filter(|(k, _)| e.contains_key(*k) || ["basedOn", "link"].contains(&k.as_str())).map(|(k, v)| (k.clone(), if k == "name" { Value::from(unesc(v.as_str().unwrap_or(""))) } else { v.clone() })).collect()),
        (Value::Array(e), Value::Array(g)) if e.len() == g.len() => Value::Array(e.iter().zip(g).map(|(a, b)| only(a, b)).collect()),
        _ => got.clone(),
    }
}

fn c27(c: &mut Case) -> Out {
    let mut cx = Ctx::new(&mut c.g, Cfg { fmt: 3, ..Cfg::read_all() });
    let at = |n: &str| AROUND.iter().position(|a| a.1 == n).unwrap();
    let mut around: Vec<(usize, El)> = vec![];
    let mut exp: Vec<(&str, Value)> = vec![];
    if cx.g.chance(2, 3) {
        let mut e = el("w:styles");
        let (rx, rj) = rpr(&mut cx);
        let (px, pj) = ppr(&mut cx);
        e = e.k(el("w:docDefaults").k(el("w:rPrDefault").k(rx)).k(el("w:pPrDefault").k(px)));
        exp.push(("docDefaults", json!({"runPropertyDefault": {"runProperty": rj}, "paragraphPropertyDefault": {"paragraphProperty": pj}})));
        if cx.g.coin() {
            e = e.k(el("w:latentStyles").a("w:count", 2).k(el("w:lsdException").a("w:name", "Normal")));
        }
        let mut v = vec![];
        for i in 0..cx.g.len(0, 4) {
            let (x, j) = style(&mut cx, &format!("S{i}"));
            e = e.k(x);
            v.push(j);
        }
        around.push((at("styles"), e));
        exp.push(("styles", Value::Array(v)));
    }
    if cx.g.coin() {
        let (x, j) = numbering(&mut cx);
        around.push((at("numbering"), x));
        exp.push(("numberings", j));
    }
    if cx.g.coin() {
        let (x, j) = settings(&mut cx);
        around.push((at("settings"), x));
        exp.push(("settings", j));
    }
    if cx.g.coin() {
        let (x, j) = theme(&mut cx);
        around.push((at("theme"), x));
        exp.push(("themes", j));
    }
    if cx.g.chance(1, 3) {
        let (x, j) = web(&mut cx);
        around.push((at("webSettings"), x));
        exp.push(("webSettings", j));
    }
    let mut custom = None;
    if cx.g.chance(1, 3) {
        let (x, j) = properties(&mut cx);
        custom = Some(x);
        exp.push(("properties", j));
    }
    let cl = cx.classes.clone();
    let doc = el("w:document").k(el("w:body").k(el("w:p")));
    let mut parts = skeleton(&doc, &around, None);
    if let Some(x) = custom {
        parts.push(("docProps/custom.xml".into(), ser_part(&x).into_bytes()));
    }
    if c.g.coin() {
        let v = vary(c);
        for (n, b) in parts.iter_mut().filter(|p| p.0.contains('/') && p.0.ends_with(".xml")) {
            match parse(b) {
                Ok(e) => *b = respell(&mut c.g, &e, &v),
                Err(m) => return fail("harness:unparsable", format!("{n}: {m}")),
            }
        }
    }
    let s = parts.iter().filter(|p| p.0.contains('/') && !p.0.contains("rels") && !p.0.ends_with("document.xml")).map(|(n, b)| format!("{n}: {}\n", String::from_utf8_lossy(b))).collect::<String>();
    c.note(&cl, s);
    c.nontrivial = !exp.is_empty();
    let d = read(&opc::make_zip(&parts))?;
    let j = json_of(&d)?;
    for (k, e) in &exp {
        let g = match *k {
            "docDefaults" => &j["styles"]["docDefaults"],
            "properties" => &j["docProps"]["custom"]["properties"],
            "styles" => &j["styles"]["styles"],
            k => &j[k],
        };
        let e = jnorm(e);
        cmp_json(k, &e, &only(&e, &jnorm(g)))?;
    }
    Ok(())
}
pub const C27: Prop = Prop { id: "C27", rule: "definitions made without the library read as they say", quick: 20000, run: c27, ..DEF };

