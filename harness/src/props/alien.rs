//! What the reader does not support, put anywhere into documents it does support.
use super::foreign::{foreign_package, respell, vary};
use super::roundtrip::{cmp_json, json_of, read, read_children};
use crate::doc::*;
use crate::gen::G;
use crate::norm::jnorm;
use crate::opc;
use crate::runner::{fail, Case, Out, Prop, DEF};
use crate::xml::{el, parse, El, Nd};
use serde_json::Value;
use std::collections::BTreeSet;

/// Texts of what is not supported; whether they are shown is left open.
const MARK: char = '\u{E777}';

fn val(n: &str, v: impl ToString) -> El {
    el(n).a("w:val", v)
}
fn marked(n: usize) -> String {
    std::iter::repeat(MARK).take(n + 1).collect()
}
fn run(g: &mut G) -> El {
    let mut r = el("w:r");
    if g.coin() {
        r = r.k(el("w:rPr").k(el("w:b")).k(val("w:color", "FF0000")));
    }
    r.k(el("w:t").t(marked(g.n(2))))
}
fn para(g: &mut G) -> El {
    let mut p = el("w:p");
    if g.coin() {
        p = p.k(el("w:pPr").k(val("w:jc", "right")).k(val("w:pStyle", "Alien")));
    }
    for _ in 0..g.n(3) {
        p = p.k(run(g));
    }
    p
}
fn blocks(g: &mut G) -> Vec<El> {
    (0..1 + g.n(2))
        .map(|_| match g.n(4) {
            0 => el("w:tbl").k(el("w:tblPr")).k(el("w:tblGrid").k(el("w:gridCol").a("w:w", 99))).k(el("w:tr").k(el("w:tc").k(para(g)))),
            _ => para(g),
        })
        .collect()
}
fn revision(n: &str) -> El {
    el(n).a("w:id", 901).a("w:author", "alien").a("w:date", "2001-01-01T00:00:00Z")
}

fn math(g: &mut G) -> El {
    let r = |t: &str| el("m:r").k(el("m:rPr").k(el("m:sty").a("m:val", "p"))).k(el("w:rPr").k(el("w:i")).k(val("w:sz", 77))).k(el("m:t").t(t));
    let mut m = el("m:oMath");
    for _ in 0..1 + g.n(2) {
        m = m.k(match g.n(4) {
            0 => r("x"),
            1 => el("m:f").k(el("m:num").k(r("a"))).k(el("m:den").k(r("b"))),
            2 => el("m:sSup").k(el("m:sSupPr").k(el("m:ctrlPr").k(el("w:rPr").k(el("w:i"))))).k(el("m:e").k(r("e"))).k(el("m:sup").k(r("2"))),
            _ => el("m:d").k(el("m:dPr").k(el("m:begChr").a("m:val", "["))).k(el("m:e").k(r("z"))),
        });
    }
    m
}

fn vml(g: &mut G) -> El {
    let n = *g.pick(&["v:rect", "v:oval", "v:roundrect", "v:line"]);
    let b = blocks(g);
    el(n).a("id", "_x0000_s1026").a("style", "width:9pt;height:9pt").k(el("v:fill").a("color", "red")).k(el("v:textbox").k(el("w:txbxContent").ks(b)))
}

fn graphic(uri: &str, x: El) -> El {
    let e = |n: &str| el(n).a("cx", 9525).a("cy", 9525);
    el("w:drawing").k(
        el("wp:inline").a("distT", 0).a("distB", 0).a("distL", 0).a("distR", 0).k(e("wp:extent")).k(el("wp:docPr").a("id", 7).a("name", "Alien")).k(
            el("a:graphic").k(el("a:graphicData").a("uri", uri).k(x)),
        ),
    )
}
fn drawing(g: &mut G, boxed: bool) -> El {
    let d = "http://schemas.openxmlformats.org/drawingml/2006/";
    match g.n(5) {
        0 => graphic(&format!("{d}chart"), el("c:chart").a("xmlns:c", format!("{d}chart")).a("r:id", "rId99")),
        1 => graphic(&format!("{d}diagram"), el("dgm:relIds").a("xmlns:dgm", format!("{d}diagram")).a("r:dm", "rId97").a("r:lo", "rId96")),
        // its text may be shown as a text box, which must not be taken for the one it is in
        2 if !boxed => {
            let b = blocks(g);
            let s = el("wps:wsp").k(el("wps:cNvSpPr")).k(el("wps:spPr")).k(el("wps:txbx").k(el("w:txbxContent").ks(b))).k(el("wps:bodyPr"));
            graphic("http://schemas.microsoft.com/office/word/2010/wordprocessingGroup", el("wpg:wgp").k(el("wpg:cNvGrpSpPr")).k(el("wpg:grpSpPr")).k(s))
        }
        3 => {
            let t = el("a:txBody").k(el("a:bodyPr")).k(el("a:p").k(el("a:pPr").a("algn", "ctr")).k(el("a:r").k(el("a:rPr").a("b", 1)).k(el("a:t").t(MARK))));
            graphic(&format!("{d}lockedCanvas"), el("a:sp").k(el("a:nvSpPr")).k(el("a:txSp").k(t)))
        }
        _ => graphic("http://schemas.microsoft.com/office/word/2010/wordprocessingCanvas", el("wpc:wpc").k(el("wpc:bg")).k(el("wpc:whole"))),
    }
}

/// In a run.
fn in_run(g: &mut G, boxed: bool, used: &mut BTreeSet<String>) -> El {
    let (n, e) = match g.n(9) {
        8 => {
            let pr = el("w:rubyPr").k(val("w:rubyAlign", "center")).k(val("w:hps", 12)).k(val("w:lid", "ja-JP"));
            let (a, b) = (run(g), run(g));
            ("ruby", el("w:ruby").k(pr).k(el("w:rt").k(a)).k(el("w:rubyBase").k(b)))
        }
        0 => ("VML shape with text", el("w:pict").k(vml(g))),
        1 => ("VML group with text", el("w:pict").k(el("v:group").a("style", "width:9pt").k(vml(g)).k(vml(g)))),
        2 => (
            "embedded object",
            el("w:object").a("w:dxaOrig", 10).k(el("v:shapetype").a("id", "_x0000_t75").k(el("v:stroke").a("joinstyle", "miter"))).k(el("o:OLEObject").a("Type", "Embed").a("ProgID", "Excel.Sheet.12").a("r:id", "rId98")),
        ),
        3 => ("unsupported drawing", drawing(g, boxed)),
        4 => {
            let (c, f) = (drawing(g, boxed), vml(g));
            ("alternate content", el("mc:AlternateContent").k(el("mc:Choice").a("Requires", "wpg").k(c)).k(el("mc:Fallback").k(el("w:pict").k(f))))
        }
        5 => ("hyphen or mark", el(*g.pick(&["w:softHyphen", "w:noBreakHyphen", "w:pgNum", "w:annotationRef", "w:footnoteRef", "w:separator", "w:lastRenderedPageBreak", "w:dayLong"]))),
        6 => ("endnote reference", el("w:endnoteReference").a("w:id", 3)),
        _ => ("ink", el("w:contentPart").a("r:id", "rId95")),
    };
    used.insert(n.into());
    e
}

/// Between runs.
fn in_paragraph(g: &mut G, used: &mut BTreeSet<String>) -> El {
    let (n, e) = match g.n(5) {
        0 | 1 => ("equation", math(g)),
        2 => ("equation paragraph", el("m:oMathPara").k(el("m:oMathParaPr").k(el("m:jc").a("m:val", "left"))).k(math(g))),
        3 => ("range mark", el(*g.pick(&["w:permStart", "w:proofErr", "w:customXmlInsRangeStart", "w:moveFromRangeStart", "w:moveToRangeEnd", "w:customXmlDelRangeEnd"])).a("w:id", 91)),
        _ => ("subdocument", el("w:subDoc").a("r:id", "rId94")),
    };
    used.insert(n.into());
    e
}

/// Between paragraphs and tables.
fn in_story(g: &mut G, used: &mut BTreeSet<String>) -> El {
    let (n, e) = match g.n(3) {
        0 => ("range mark between blocks", el(*g.pick(&["w:permStart", "w:proofErr", "w:customXmlMoveToRangeStart", "w:moveToRangeStart", "w:permEnd"])).a("w:id", 92)),
        1 => ("imported chunk", el("w:altChunk").a("r:id", "rId93").k(el("w:altChunkPr").k(val("w:matchSrc", 1)))),
        _ => ("equation between blocks", el("m:oMathPara").k(math(g))),
    };
    used.insert(n.into());
    e
}

/// Earlier values of properties and settings nobody reads.
fn in_properties(g: &mut G, name: &str, used: &mut BTreeSet<String>) -> Option<El> {
    let b = |n: &str| el(n).a("w:val", "double").a("w:sz", 9).a("w:space", 0).a("w:color", "123456");
    let w = |n: &str| el(n).a("w:w", 77).a("w:type", "dxa");
    let shd = || el("w:shd").a("w:val", "clear").a("w:color", "auto").a("w:fill", "ABCDEF");
    let rpr = || el("w:rPr").k(el("w:b")).k(val("w:color", "00FF00")).k(val("w:sz", 99)).k(val("w:rStyle", "Old"));
    let (n, e) = match (name, g.n(3)) {
        ("w:rPr", 0) => ("earlier run properties", revision("w:rPrChange").k(rpr())),
        ("w:rPr", 1) => (
            "text effect",
            match g.n(3) {
                0 => el("w14:textFill").k(el("w14:solidFill").k(el("w14:srgbClr").a("w14:val", "FF0000"))),
                1 => el("w14:shadow").a("w14:blurRad", 9).k(el("w14:srgbClr").a("w14:val", "000000").k(el("w14:alpha").a("w14:val", 60000))),
                _ => el("w14:stylisticSets").k(el("w14:styleSet").a("w14:id", 1)),
            },
        ),
        ("w:rPr", _) => ("unread run property", g.pick(&[val("w:lang", "en-US"), el("w:noProof"), val("w:em", "dot"), el("w:rtl"), val("w:effect", "shimmer"), val("w:position", 6), el("w:outline"), el("w:webHidden")]).clone()),
        ("w:pPr", _) => ("unread paragraph property", g.pick(&[val("w:cnfStyle", "100000000000"), el("w:contextualSpacing"), val("w:textDirection", "tbRl"), el("w:mirrorIndents"), val("w:textboxTightWrap", "none"), el("w:suppressLineNumbers")]).clone()),
        ("w:numPr", 0 | 1) => ("tracked numbering", if g.coin() { revision("w:ins") } else { revision("w:numberingChange").a("w:original", "%1:1:0:.") }),
        ("w:sdtPr", 0 | 1) => (
            "content control property",
            match g.n(7) {
                0 => rpr(),
                1 => val("w:alias", "a"),
                2 => el("w:date").a("w:fullDate", "2001-01-01T00:00:00Z").k(val("w:dateFormat", "d")).k(val("w:lid", "en")),
                3 => el("w:dropDownList").k(el("w:listItem").a("w:displayText", "x").a("w:value", "y")),
                4 => el("w:placeholder").k(val("w:docPart", "P")),
                5 => el("w:docPartObj").k(val("w:docPartGallery", "Cover Pages")).k(el("w:docPartUnique")),
                _ => el("w:text").a("w:multiLine", 1),
            },
        ),
        ("w:tblPr", 0) => (
            "earlier table properties",
            revision("w:tblPrChange").k(el("w:tblPr").k(val("w:tblStyle", "Old")).k(w("w:tblW")).k(val("w:jc", "right")).k(w("w:tblInd")).k(el("w:tblBorders").k(b("w:top"))).k(el("w:tblLayout").a("w:type", "fixed")).k(el("w:tblCellMar").k(w("w:left")))),
        ),
        ("w:tblPr", _) => ("unread table property", g.pick(&[val("w:tblLook", "04A0"), val("w:tblCaption", "c"), val("w:tblStyleRowBandSize", 1), el("w:bidiVisual"), w("w:tblCellSpacing"), val("w:tblOverlap", "never"), shd()]).clone()),
        ("w:trPr", 0) => ("earlier row properties", revision("w:trPrChange").k(el("w:trPr").k(val("w:trHeight", 999)).k(val("w:gridBefore", 2)).k(el("w:cantSplit")).k(w("w:wAfter")))),
        ("w:trPr", _) => ("unread row property", g.pick(&[val("w:cnfStyle", "100000000000"), val("w:jc", "center"), el("w:hidden"), el("w:tblHeader"), w("w:tblCellSpacing")]).clone()),
        ("w:tcPr", 0) => (
            "earlier cell properties",
            revision("w:tcPrChange").k(el("w:tcPr").k(w("w:tcW")).k(val("w:gridSpan", 3)).k(val("w:vMerge", "restart")).k(el("w:tcBorders").k(b("w:top")).k(b("w:tl2br"))).k(shd()).k(el("w:tcMar").k(w("w:top"))).k(val("w:textDirection", "tbRl")).k(val("w:vAlign", "bottom"))),
        ),
        ("w:tcPr", _) => ("unread cell property", g.pick(&[val("w:cnfStyle", "100000000000"), el("w:noWrap"), el("w:tcFitText"), revision("w:cellIns"), revision("w:cellDel"), el("w:hideMark")]).clone()),
        ("w:tblGrid", 0) => ("earlier grid", el("w:tblGridChange").a("w:id", 902).k(el("w:tblGrid").k(el("w:gridCol").a("w:w", 77)).k(el("w:gridCol").a("w:w", 78)))),
        _ => return None,
    };
    used.insert(n.into());
    Some(e)
}

/// Wrappers that leave their content what it is.
fn wrap(g: &mut G, x: Vec<El>, inline: bool, used: &mut BTreeSet<String>) -> El {
    let c = |e: El, p: &str| e.a("w:uri", "urn:alien").a("w:element", "item").k(el(p).k(el("w:attr").a("w:name", "a").a("w:val", "b")));
    let (n, e) = match if inline { g.n(5) } else { 1 } {
        0 => ("smart tag", c(el("w:smartTag"), "w:smartTagPr")),
        1 => ("custom markup", c(el("w:customXml"), "w:customXmlPr")),
        2 => ("direction override", val("w:bdo", "rtl")),
        3 => ("direction", val("w:dir", "rtl")),
        _ => ("simple field", el("w:fldSimple").a("w:instr", " AUTHOR ")),
    };
    used.insert(if inline { n.into() } else { format!("{n} around blocks") });
    e.ks(x)
}

/// Content controls and custom markup around a row or a cell.
fn wrap_part(g: &mut G, x: El, what: &str, used: &mut BTreeSet<String>) -> El {
    if g.coin() {
        used.insert(format!("custom markup around a {what}"));
        return el("w:customXml").a("w:element", "item").k(el("w:customXmlPr").k(val("w:placeholder", "p"))).k(x);
    }
    used.insert(format!("content control around a {what}"));
    el("w:sdt").k(el("w:sdtPr").k(val("w:tag", "t"))).k(el("w:sdtContent").k(x))
}

fn invade(g: &mut G, e: &mut El, used: &mut BTreeSet<String>, rate: u64, boxed: bool) {
    let boxed = boxed || e.name == "w:drawing";
    // drawings and their like are taken as a whole
    if matches!(e.name.as_str(), "w:pict" | "w:pPrChange") || (e.name == "w:drawing" && e.attr("box").is_none()) {
        return;
    }
    for k in e.kids.iter_mut() {
        if let Nd::E(c) = k {
            invade(g, c, used, rate, boxed);
        }
    }
    if rate == 0 && !used.is_empty() {
        return;
    }
    let rate = rate.max(1);
    let lead = e.els().take_while(|c| matches!(c.name.as_str(), "w:rPr" | "w:pPr" | "w:tcPr" | "w:tblPr" | "w:tblGrid" | "w:trPr" | "w:sdtPr")).count();
    let n = e.kids.len();
    let name = e.name.clone();
    let at = |e: &mut El, g: &mut G, x: El| {
        let i = lead + g.n(e.kids.len() - lead + 1);
        e.kids.insert(i, Nd::E(x));
    };
    match name.as_str() {
        "w:r" if g.chance(rate, 12) => {
            let x = in_run(g, boxed, used);
            at(e, g, x);
        }
        "w:p" | "w:hyperlink" | "w:ins" | "w:del" | "w:moveTo" => {
            if matches!(name.as_str(), "w:p" | "w:hyperlink") && n > lead && g.chance(rate, 12) {
                // runs only: what else stands there may not be wrapped
                let i = lead + g.n(n - lead);
                if matches!(&e.kids[i], Nd::E(r) if r.name == "w:r") {
                    if let Nd::E(r) = e.kids.remove(i) {
                        e.kids.insert(i, Nd::E(wrap(g, vec![r], true, used)));
                    }
                }
            }
            if g.chance(rate, 12) {
                let x = in_paragraph(g, used);
                at(e, g, x);
            }
        }
        "w:tc" | "w:body" | "w:txbxContent" if g.chance(rate, 12) || (name == "w:body" && g.coin()) => {
            if g.coin() {
                let x = in_story(g, used);
                at(e, g, x);
            } else if n > lead {
                let i = lead + g.n(n - lead);
                if matches!(&e.kids[i], Nd::E(r) if r.name == "w:p" || r.name == "w:tbl") {
                    if let Nd::E(r) = e.kids.remove(i) {
                        e.kids.insert(i, Nd::E(wrap(g, vec![r], false, used)));
                    }
                }
            }
        }
        "w:tbl" if g.chance(rate, 12) => {
            if g.coin() {
                used.insert("range mark between rows".into());
                at(e, g, el("w:permStart").a("w:id", 93));
            } else if n > lead {
                let i = lead + g.n(n - lead);
                if let Nd::E(r) = e.kids.remove(i) {
                    e.kids.insert(i, Nd::E(wrap_part(g, r, "row", used)));
                }
            }
        }
        "w:tr" if n > lead && g.chance(rate, 12) && g.coin() => {
            let i = lead + g.n(n - lead);
            if let Nd::E(r) = e.kids.remove(i) {
                e.kids.insert(i, Nd::E(wrap_part(g, r, "cell", used)));
            }
        }
        "w:tr" if g.chance(rate, 12) => {
            used.insert("table properties of a row".into());
            let m = |n: &str| el(n).a("w:w", 76).a("w:type", "dxa");
            e.kids.insert(0, Nd::E(el("w:tblPrEx").k(m("w:tblW")).k(val("w:jc", "center")).k(m("w:tblInd")).k(el("w:tblBorders").k(el("w:top").a("w:val", "double").a("w:sz", 9).a("w:space", 0).a("w:color", "123456"))).k(el("w:tblCellMar").k(m("w:left")))));
        }
        "w:rPr" | "w:pPr" | "w:tblPr" | "w:trPr" | "w:tcPr" | "w:tblGrid" | "w:numPr" | "w:sdtPr" if g.chance(rate, 10) => {
            if let Some(x) = in_properties(g, &name, used) {
                e.kids.push(Nd::E(x));
            }
        }
        _ => {}
    }
}

/// Without the texts of what is not supported and the empty drawings that stand for it.
fn clean(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(
            a.iter()
                .filter(|e| !alien(e))
                .map(clean)
                .filter(|e| !(e["type"] == "run" && e["data"]["children"].as_array().map_or(false, |c| c.is_empty())))
                .collect(),
        ),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), clean(v))).collect()),
        v => v.clone(),
    }
}
fn alien(e: &Value) -> bool {
    match e["type"].as_str() {
        Some("drawing") => e["data"]["type"].is_null() || e["data"]["type"] == "textBox" && only_marks(&e["data"]),
        Some("text") => e["data"]["text"].as_str().map_or(false, |t| !t.is_empty() && t.chars().all(|c| c == MARK)),
        _ => false,
    }
}

fn only_marks(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().all(only_marks),
        Value::Object(o) => match o.get("text") {
            Some(Value::String(t)) => t.chars().all(|c| c == MARK),
            _ => o.values().all(only_marks),
        },
        _ => true,
    }
}

fn c28(c: &mut Case) -> Out {
    let mut cx = Ctx::new(&mut c.g, Cfg { fmt: 3, boxes: true, ..Cfg::read_all() });
    let m = body(&mut cx, 3);
    let exp = jnorm(&Value::Array(m.j));
    let cl = cx.classes.clone();
    let (mut comments, images) = (std::mem::take(&mut cx.comments), cx.images.clone());
    let mut b = el("w:body").ks(m.x);
    let mut used = BTreeSet::new();
    // 0: one thing only
    let rate = c.g.below(5);
    invade(&mut c.g, &mut b, &mut used, rate, false);
    for x in comments.iter_mut().flat_map(|c| c.x.iter_mut()) {
        invade(&mut c.g, x, &mut used, rate, true);
    }
    let body: Vec<El> = b.els().cloned().collect();
    let mut parts = foreign_package(&body, &comments, &images);
    if (rate > 0 || used.is_empty()) && c.g.chance(1, 3) {
        used.insert("earlier section properties".into());
        let p = parts.iter_mut().find(|p| p.0 == "word/document.xml").unwrap();
        let old = "<w:sectPrChange w:id=\"903\" w:author=\"alien\" w:date=\"2001-01-01T00:00:00Z\"><w:sectPr><w:pgSz w:w=\"77\" w:h=\"78\" w:orient=\"landscape\"/><w:pgMar w:top=\"79\" w:right=\"79\" w:bottom=\"79\" w:left=\"79\" w:header=\"79\" w:footer=\"79\" w:gutter=\"79\"/><w:titlePg/></w:sectPr></w:sectPrChange></w:sectPr></w:body>";
        p.1 = String::from_utf8_lossy(&p.1).replace("</w:sectPr></w:body>", old).into_bytes();
    }
    if c.g.chance(1, 4) {
        let v = vary(c);
        for p in parts.iter_mut().filter(|p| p.0 == "word/document.xml") {
            match parse(&p.1) {
                Ok(e) => p.1 = respell(&mut c.g, &e, &v),
                Err(m) => return fail("harness:unparsable", m),
            }
        }
    }
    let xml = String::from_utf8_lossy(&parts.iter().find(|p| p.0 == "word/document.xml").unwrap().1).to_string();
    c.note(&cl, xml[xml.find("body").map_or(0, |i| i - 1)..].to_string());
    c.nontrivial = !used.is_empty();
    let kind = match used.len() {
        0 => "none".into(),
        1 => used.first().unwrap().clone(),
        _ => "several".to_string(),
    };
    c.classes.extend(used);
    let d = read(&opc::make_zip(&parts))?;
    let got = clean(&read_children(&d)?);
    cmp_json(&kind, &clean(&exp), &got)?;
    let s = &json_of(&d)?["document"]["sectionProperty"];
    let size = (s["pageSize"]["w"].as_u64(), s["pageSize"]["h"].as_u64());
    if size != (Some(11906), Some(16838)) || s["titlePg"] == Value::Bool(true) {
        return fail(format!("{kind}:section"), format!("the section was read as {s}"));
    }
    Ok(())
}

pub const C28: Prop = Prop { id: "C28", rule: "supported content with unsupported markup in it", quick: 20000, run: c28, ..DEF };
