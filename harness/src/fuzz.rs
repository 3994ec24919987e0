//! Hostile inputs for the reader: markup drawn from a loose grammar, mutations of element
//! trees, of bytes and of archives.

use crate::gen::G;
use crate::xml::{el, El, Nd};

/// What may plausibly be found below what, as far as the reader knows it.
pub const GRAMMAR: &[(&str, &[&str])] = &[
    ("w:document", &["w:body", "w:background"]),
    ("w:body", &["w:p", "w:p", "w:tbl", "w:sdt", "w:sectPr", "w:bookmarkStart", "w:bookmarkEnd", "w:commentRangeStart", "w:commentRangeEnd", "w:ins", "w:del", "mc:AlternateContent"]),
    ("w:p", &["w:pPr", "w:r", "w:r", "w:hyperlink", "w:ins", "w:del", "w:moveFrom", "w:moveTo", "w:bookmarkStart", "w:bookmarkEnd", "w:commentRangeStart", "w:commentRangeEnd", "w:sdt", "w:fldSimple", "w:smartTag", "m:oMath", "w:proofErr"]),
    ("w:pPr", &["w:pStyle", "w:keepNext", "w:keepLines", "w:pageBreakBefore", "w:framePr", "w:widowControl", "w:numPr", "w:pBdr", "w:shd", "w:tabs", "w:spacing", "w:ind", "w:jc", "w:textAlignment", "w:adjustRightInd", "w:snapToGrid", "w:outlineLvl", "w:divId", "w:rPr", "w:sectPr", "w:pPrChange", "w:bidi"]),
    ("w:pPrChange", &["w:pPr"]),
    ("w:pBdr", &["w:top", "w:left", "w:start", "w:bottom", "w:right", "w:end", "w:between", "w:bar"]),
    ("w:tabs", &["w:tab"]),
    ("w:numPr", &["w:ilvl", "w:numId"]),
    ("w:rPr", &["w:rStyle", "w:rFonts", "w:b", "w:bCs", "w:i", "w:iCs", "w:caps", "w:strike", "w:dstrike", "w:vanish", "w:specVanish", "w:color", "w:spacing", "w:w", "w:sz", "w:szCs", "w:highlight", "w:u", "w:bdr", "w:shd", "w:fitText", "w:vertAlign", "w:ins", "w:del", "w:rPrChange"]),
    ("w:rPrChange", &["w:rPr"]),
    ("w:r", &["w:rPr", "w:t", "w:t", "w:delText", "w:tab", "w:ptab", "w:br", "w:cr", "w:sym", "w:fldChar", "w:instrText", "w:delInstrText", "w:drawing", "w:pict", "mc:AlternateContent", "w:commentReference", "w:footnoteReference", "w:footnoteRef", "w:object", "w:lastRenderedPageBreak", "w:noBreakHyphen", "w:softHyphen"]),
    ("w:hyperlink", &["w:r", "w:ins", "w:del", "w:hyperlink", "w:bookmarkStart", "w:commentRangeStart", "w:commentRangeEnd", "w:sdt"]),
    ("w:ins", &["w:r", "w:del", "w:commentRangeStart", "w:commentRangeEnd", "w:hyperlink", "w:ins", "w:moveFrom"]),
    ("w:del", &["w:r", "w:commentRangeStart", "w:commentRangeEnd", "w:ins", "w:del"]),
    ("w:moveFrom", &["w:r", "w:commentRangeStart", "w:commentRangeEnd", "w:ins", "w:del"]),
    ("w:moveTo", &["w:r", "w:del", "w:commentRangeStart", "w:commentRangeEnd", "w:ins"]),
    ("w:tbl", &["w:tblPr", "w:tblGrid", "w:tr", "w:tr", "w:bookmarkStart", "w:sdt"]),
    ("w:tblPr", &["w:tblStyle", "w:tblpPr", "w:tblW", "w:jc", "w:tblInd", "w:tblBorders", "w:tblLayout", "w:tblCellMar", "w:tblPrChange", "w:tblLook", "w:shd"]),
    ("w:tblPrChange", &["w:tblPr"]),
    ("w:tblBorders", &["w:top", "w:left", "w:start", "w:bottom", "w:right", "w:end", "w:insideH", "w:insideV"]),
    ("w:tblCellMar", &["w:top", "w:left", "w:start", "w:bottom", "w:right", "w:end"]),
    ("w:tblGrid", &["w:gridCol", "w:tblGridChange"]),
    ("w:tblGridChange", &["w:tblGrid"]),
    ("w:tr", &["w:trPr", "w:tc", "w:tc", "w:tblPrEx", "w:sdt"]),
    ("w:trPr", &["w:trHeight", "w:cantSplit", "w:gridBefore", "w:gridAfter", "w:wBefore", "w:wAfter", "w:ins", "w:del", "w:jc", "w:trPrChange", "w:tblHeader"]),
    ("w:trPrChange", &["w:trPr"]),
    ("w:tc", &["w:tcPr", "w:p", "w:p", "w:tbl", "w:sdt"]),
    ("w:tcPr", &["w:tcW", "w:gridSpan", "w:vMerge", "w:tcBorders", "w:shd", "w:tcMar", "w:textDirection", "w:vAlign", "w:tcPrChange", "w:noWrap"]),
    ("w:tcPrChange", &["w:tcPr"]),
    ("w:tcBorders", &["w:top", "w:left", "w:start", "w:bottom", "w:right", "w:end", "w:insideH", "w:insideV", "w:tl2br", "w:tr2bl"]),
    ("w:tcMar", &["w:top", "w:left", "w:start", "w:bottom", "w:right", "w:end"]),
    ("w:sdt", &["w:sdtPr", "w:sdtContent", "w:sdtEndPr"]),
    ("w:sdtPr", &["w:rPr", "w:alias", "w:dataBinding", "w:docPartObj", "w:id", "w:tag"]),
    ("w:sdtContent", &["w:p", "w:r", "w:tbl", "w:sdt", "w:bookmarkStart", "w:bookmarkEnd", "w:commentRangeStart", "w:commentRangeEnd"]),
    ("w:sectPr", &["w:headerReference", "w:footerReference", "w:pgSz", "w:pgMar", "w:cols", "w:docGrid", "w:type", "w:titlePg", "w:pgNumType", "w:textDirection"]),
    ("w:drawing", &["wp:inline", "wp:anchor"]),
    ("wp:inline", &["wp:extent", "wp:effectExtent", "wp:docPr", "wp:cNvGraphicFramePr", "a:graphic"]),
    ("wp:anchor", &["wp:simplePos", "wp:positionH", "wp:positionV", "wp:extent", "wp:effectExtent", "wp:wrapNone", "wp:wrapSquare", "wp:docPr", "a:graphic", "wp14:sizeRelH"]),
    ("wp:positionH", &["wp:posOffset", "wp:align"]),
    ("wp:positionV", &["wp:posOffset", "wp:align"]),
    ("a:graphic", &["a:graphicData"]),
    ("a:graphicData", &["pic:pic", "wps:wsp", "wpg:wgp"]),
    ("pic:pic", &["pic:nvPicPr", "pic:blipFill", "pic:spPr", "a:blip", "a:xfrm"]),
    ("pic:blipFill", &["a:blip", "a:srcRect", "a:stretch"]),
    ("pic:spPr", &["a:xfrm", "a:prstGeom"]),
    ("a:xfrm", &["a:off", "a:ext"]),
    ("wps:wsp", &["wps:cNvSpPr", "wps:spPr", "wps:style", "wps:txbx", "wps:bodyPr"]),
    ("wps:spPr", &["a:xfrm", "a:prstGeom", "a:solidFill", "a:ln"]),
    ("wps:txbx", &["w:txbxContent"]),
    ("w:txbxContent", &["w:p", "w:tbl"]),
    ("mc:AlternateContent", &["mc:Choice", "mc:Fallback", "mc:Choice"]),
    ("mc:Choice", &["w:drawing", "w:r", "wp:anchor", "w:pict"]),
    ("mc:Fallback", &["w:pict", "w:drawing", "w:r"]),
    ("w:pict", &["v:shape", "v:rect", "v:shapetype", "v:textbox", "v:imagedata"]),
    ("v:shape", &["v:imagedata", "v:textbox", "v:stroke", "v:fill"]),
    ("v:rect", &["v:textbox", "v:stroke", "v:fill"]),
    ("v:textbox", &["w:txbxContent"]),
    ("w:styles", &["w:docDefaults", "w:style", "w:style", "w:latentStyles"]),
    ("w:docDefaults", &["w:rPrDefault", "w:pPrDefault"]),
    ("w:rPrDefault", &["w:rPr"]),
    ("w:pPrDefault", &["w:pPr"]),
    ("w:style", &["w:name", "w:basedOn", "w:next", "w:link", "w:qFormat", "w:uiPriority", "w:pPr", "w:rPr", "w:tblPr", "w:tcPr", "w:trPr", "w:tblStylePr"]),
    ("w:numbering", &["w:abstractNum", "w:num", "w:numPicBullet"]),
    ("w:abstractNum", &["w:multiLevelType", "w:lvl", "w:lvl", "w:numStyleLink", "w:styleLink"]),
    ("w:lvl", &["w:start", "w:numFmt", "w:suff", "w:isLgl", "w:lvlText", "w:lvlJc", "w:lvlRestart", "w:pStyle", "w:pPr", "w:rPr"]),
    ("w:num", &["w:abstractNumId", "w:lvlOverride"]),
    ("w:lvlOverride", &["w:startOverride", "w:lvl"]),
    ("w:settings", &["w:defaultTabStop", "w:docVars", "w15:docId", "w14:docId", "w:evenAndOddHeaders", "w:adjustLineHeightInTable", "w:characterSpacingControl", "w:compat", "w:zoom"]),
    ("w:docVars", &["w:docVar"]),
    ("w:compat", &["w:adjustLineHeightInTable", "w:compatSetting"]),
    ("w:comments", &["w:comment"]),
    ("w:comment", &["w:p", "w:tbl", "w:sdt"]),
    ("w15:commentsEx", &["w15:commentEx"]),
    ("w:hdr", &["w:p", "w:tbl", "w:sdt"]),
    ("w:ftr", &["w:p", "w:tbl", "w:sdt"]),
    ("w:webSettings", &["w:divs", "w:div"]),
    ("w:divs", &["w:div"]),
    ("w:div", &["w:marLeft", "w:marRight", "w:marTop", "w:marBottom", "w:divBdr", "w:divsChild"]),
    ("w:divsChild", &["w:div"]),
    ("a:theme", &["a:themeElements"]),
    ("a:themeElements", &["a:fontScheme", "a:clrScheme"]),
    ("a:fontScheme", &["a:majorFont", "a:minorFont"]),
    ("a:majorFont", &["a:latin", "a:ea", "a:cs", "a:font"]),
    ("a:minorFont", &["a:latin", "a:ea", "a:cs", "a:font"]),
    ("Relationships", &["Relationship"]),
    ("Types", &["Default", "Override"]),
    ("Properties", &["property"]),
    ("property", &["vt:lpwstr", "vt:i4", "vt:bool"]),
];

/// Attributes worth giving to an element beyond `w:val`.
pub const ATTRS: &[(&str, &[&str])] = &[
    ("w:ind", &["w:left", "w:start", "w:right", "w:end", "w:hanging", "w:firstLine", "w:leftChars", "w:startChars", "w:firstLineChars", "w:hangingChars"]),
    ("w:spacing", &["w:before", "w:after", "w:beforeLines", "w:afterLines", "w:line", "w:lineRule", "w:val"]),
    ("w:framePr", &["w:w", "w:h", "w:hRule", "w:hAnchor", "w:vAnchor", "w:hSpace", "w:vSpace", "w:x", "w:y", "w:xAlign", "w:yAlign", "w:wrap"]),
    ("w:rFonts", &["w:ascii", "w:hAnsi", "w:eastAsia", "w:cs", "w:asciiTheme", "w:hAnsiTheme", "w:eastAsiaTheme", "w:cstheme", "w:hint"]),
    ("w:tab", &["w:val", "w:leader", "w:pos"]),
    ("w:ptab", &["w:alignment", "w:relativeTo", "w:leader"]),
    ("w:br", &["w:type", "w:clear"]),
    ("w:sym", &["w:char", "w:font"]),
    ("w:fldChar", &["w:fldCharType", "w:dirty"]),
    ("w:shd", &["w:val", "w:color", "w:fill"]),
    ("w:bdr", &["w:val", "w:color", "w:sz", "w:space"]),
    ("w:top", &["w:val", "w:color", "w:sz", "w:space", "w:w", "w:type"]),
    ("w:left", &["w:val", "w:color", "w:sz", "w:space", "w:w", "w:type"]),
    ("w:bottom", &["w:val", "w:color", "w:sz", "w:space", "w:w", "w:type"]),
    ("w:right", &["w:val", "w:color", "w:sz", "w:space", "w:w", "w:type"]),
    ("w:start", &["w:val", "w:color", "w:sz", "w:space", "w:w", "w:type"]),
    ("w:end", &["w:val", "w:color", "w:sz", "w:space", "w:w", "w:type"]),
    ("w:insideH", &["w:val", "w:color", "w:sz", "w:space"]),
    ("w:insideV", &["w:val", "w:color", "w:sz", "w:space"]),
    ("w:between", &["w:val", "w:color", "w:sz", "w:space"]),
    ("w:bar", &["w:val", "w:color", "w:sz", "w:space"]),
    ("w:tl2br", &["w:val", "w:color", "w:sz", "w:space"]),
    ("w:tr2bl", &["w:val", "w:color", "w:sz", "w:space"]),
    ("w:tcW", &["w:w", "w:type"]),
    ("w:tblW", &["w:w", "w:type"]),
    ("w:tblInd", &["w:w", "w:type"]),
    ("w:wBefore", &["w:w", "w:type"]),
    ("w:wAfter", &["w:w", "w:type"]),
    ("w:gridCol", &["w:w"]),
    ("w:trHeight", &["w:val", "w:hRule"]),
    ("w:tblpPr", &["w:leftFromText", "w:rightFromText", "w:vertAnchor", "w:horzAnchor", "w:tblpXSpec", "w:tblpX", "w:tblpYSpec", "w:tblpY"]),
    ("w:tblLayout", &["w:type"]),
    ("w:hyperlink", &["r:id", "w:anchor", "w:history"]),
    ("w:ins", &["w:id", "w:author", "w:date"]),
    ("w:del", &["w:id", "w:author", "w:date"]),
    ("w:moveFrom", &["w:id", "w:author", "w:date"]),
    ("w:moveTo", &["w:id", "w:author", "w:date"]),
    ("w:pPrChange", &["w:id", "w:author", "w:date"]),
    ("w:rPrChange", &["w:id", "w:author", "w:date"]),
    ("w:bookmarkStart", &["w:id", "w:name"]),
    ("w:bookmarkEnd", &["w:id"]),
    ("w:commentRangeStart", &["w:id"]),
    ("w:commentRangeEnd", &["w:id"]),
    ("w:commentReference", &["w:id"]),
    ("w:footnoteReference", &["w:id"]),
    ("w:comment", &["w:id", "w:author", "w:date", "w:initials"]),
    ("w15:commentEx", &["w15:paraId", "w15:done", "w15:paraIdParent"]),
    ("w:p", &["w14:paraId", "w:rsidR"]),
    ("w:headerReference", &["w:type", "r:id"]),
    ("w:footerReference", &["w:type", "r:id"]),
    ("w:pgSz", &["w:w", "w:h", "w:orient"]),
    ("w:pgMar", &["w:top", "w:right", "w:bottom", "w:left", "w:header", "w:footer", "w:gutter"]),
    ("w:cols", &["w:num", "w:space"]),
    ("w:docGrid", &["w:type", "w:linePitch", "w:charSpace"]),
    ("w:pgNumType", &["w:start", "w:chapStyle"]),
    ("w:style", &["w:type", "w:styleId", "w:default"]),
    ("w:abstractNum", &["w:abstractNumId"]),
    ("w:num", &["w:numId"]),
    ("w:lvl", &["w:ilvl", "w:tplc"]),
    ("w:lvlOverride", &["w:ilvl"]),
    ("w:docVar", &["w:name", "w:val"]),
    ("w15:docId", &["w15:val"]),
    ("w14:docId", &["w14:val"]),
    ("w:fitText", &["w:val", "w:id"]),
    ("w:div", &["w:id"]),
    ("wp:extent", &["cx", "cy"]),
    ("a:ext", &["cx", "cy"]),
    ("a:off", &["x", "y"]),
    ("a:xfrm", &["rot"]),
    ("a:blip", &["r:embed", "r:link"]),
    ("wp:anchor", &["distT", "distB", "distL", "distR", "simplePos", "relativeHeight", "layoutInCell", "allowOverlap", "behindDoc", "locked"]),
    ("wp:inline", &["distT", "distB", "distL", "distR"]),
    ("wp:simplePos", &["x", "y"]),
    ("wp:positionH", &["relativeFrom"]),
    ("wp:positionV", &["relativeFrom"]),
    ("wp:docPr", &["id", "name"]),
    ("a:graphicData", &["uri"]),
    ("a:prstGeom", &["prst"]),
    ("mc:Choice", &["Requires"]),
    ("v:shape", &["style", "id", "type"]),
    ("v:rect", &["style", "id"]),
    ("v:imagedata", &["r:id", "o:title"]),
    ("a:latin", &["typeface"]),
    ("a:ea", &["typeface"]),
    ("a:cs", &["typeface"]),
    ("a:font", &["typeface", "script"]),
    ("Relationship", &["Id", "Type", "Target", "TargetMode"]),
    ("Default", &["Extension", "ContentType"]),
    ("Override", &["PartName", "ContentType"]),
    ("property", &["fmtid", "pid", "name"]),
    ("w:dataBinding", &["w:xpath", "w:prefixMappings", "w:storeItemID"]),
];

pub const VALS: &[&str] = &[
    "", " ", "0", "1", "-1", "2", "12", "240", "true", "false", "on", "off", "0.5", "1.5", "-0.5", "1e3", "1e400", "NaN", "inf", "+5", "007", "50%", "-50%", "%", "12pt", "1in", "2.54cm", "25.4mm",
    "3pc", "pt", "1e308pt", "99999999999999999999", "-99999999999999999999", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "18446744073709551615",
    "18446744073709551616", "9223372036854775807", "-9223372036854775808", "0x10", "FF0000", "#FF0000", "GGGGGG", "auto", "nil", "none", "single", "unknown", "left", "center", "both", "dxa", "pct",
    "restart", "continue", "begin", "separate", "end", "page", "decimal", "default", "first", "even", "lines", "exact", "atLeast", "Normal", "rId1", "é", "日本語", "\u{1F600}", "a\u{0}b", "12345678",
    "width:10pt;height:20pt", "width:;height", ":;:;", "width:1e999pt", "2020-01-01T00:00:00Z", "../../x", "/", "/word/document.xml", "word\\document.xml", "http://x/?a=b&c=d", "TOC \\o \"1-3\" \\h",
    "PAGEREF", "HYPERLINK \"", "TC \"x\" \\f \\l", "\\", "\"\"", "1 2", "１２", "٣", "dash", "F0FC",
];

pub fn value(g: &mut G) -> String {
    match g.n(12) {
        0 => g.num(-1 << 40, 1 << 40).to_string(),
        1 => g.range(-20, 300).to_string(),
        2 => g.wild_text(),
        3 => {
            let n = g.range(0, 100000);
            let u = g.pick(&["pt", "cm", "mm", "in", "pi", "pc", "%", "px", "em", "é"]);
            format!("{n}{u}")
        }
        4 => {
            let (a, b) = (g.range(-9, 9999), g.range(0, 999));
            format!("{a}.{b}")
        }
        _ => g.pick(VALS).to_string(),
    }
}

pub fn any_name(g: &mut G) -> String {
    if g.chance(1, 3) {
        return g.pick(GRAMMAR).0.to_string();
    }
    let ks = g.pick(GRAMMAR).1;
    g.pick(ks).to_string()
}

fn attrs_of(n: &str) -> &'static [&'static str] {
    ATTRS.iter().find(|a| a.0 == n).map(|a| a.1).unwrap_or(&["w:val"])
}

pub fn some_attrs(g: &mut G, e: &mut El) {
    for a in attrs_of(&e.name) {
        if g.chance(3, 4) && e.attr(a).is_none() {
            let v = value(g);
            e.attrs.push((a.to_string(), v));
        }
    }
    if g.chance(1, 12) {
        let src = g.pick(ATTRS).1;
        let a = g.pick(src);
        if e.attr(a).is_none() {
            let v = value(g);
            e.attrs.push((a.to_string(), v));
        }
    }
}

/// An element with children drawn from the grammar, now and then from anywhere.
pub fn soup(g: &mut G, name: &str, depth: usize) -> El {
    let mut e = el(name);
    some_attrs(g, &mut e);
    if let Some((_, ks)) = GRAMMAR.iter().find(|x| x.0 == name) {
        if depth > 0 {
            for _ in 0..g.len(0, 5) {
                if !g.spend(1) {
                    break;
                }
                let k = if g.chance(1, 12) { any_name(g) } else { g.pick(ks).to_string() };
                let c = soup(g, &k, depth - 1);
                e.kids.push(Nd::E(c));
            }
        }
    } else if matches!(name, "w:t" | "w:delText" | "w:instrText" | "w:delInstrText" | "wp:posOffset" | "wp:align" | "vt:lpwstr") || g.chance(1, 20) {
        let t = if g.coin() { value(g) } else { g.text() };
        e.kids.push(Nd::T(t));
    }
    e
}

// ---- element trees -------------------------------------------------------------

fn count(e: &El) -> usize {
    1 + e.els().map(count).sum::<usize>()
}
/// The n-th element in document order.
fn nth<'a>(e: &'a mut El, n: &mut usize) -> Option<&'a mut El> {
    if *n == 0 {
        return Some(e);
    }
    *n -= 1;
    for k in e.kids.iter_mut() {
        if let Nd::E(c) = k {
            if let Some(r) = nth(c, n) {
                return Some(r);
            }
        }
    }
    None
}
fn some<'a>(g: &mut G, e: &'a mut El) -> &'a mut El {
    let mut n = g.n(count(e));
    nth(e, &mut n).unwrap()
}
fn depth(e: &El) -> usize {
    1 + e.els().map(depth).max().unwrap_or(0)
}
fn clip(e: &mut El, d: usize) {
    if d == 0 {
        e.kids.clear();
        return;
    }
    for k in e.kids.iter_mut() {
        if let Nd::E(c) = k {
            clip(c, d - 1);
        }
    }
}

/// Deepest nesting handed to the reader.
pub const DEPTH: usize = 60;

/// One change to the tree; `donor` is a tree pieces are copied from.
pub fn mutate(g: &mut G, root: &mut El, donor: &mut El) -> &'static str {
    let what = match g.n(15) {
        0 => {
            let e = some(g, root);
            if !e.kids.is_empty() {
                let i = g.n(e.kids.len());
                e.kids.remove(i);
            }
            "drop"
        }
        1 => {
            let e = some(g, root);
            if !e.kids.is_empty() {
                let i = g.n(e.kids.len());
                let c = e.kids[i].clone();
                e.kids.insert(i, c);
            }
            "twice"
        }
        2 | 3 => {
            let d = some(g, donor).clone();
            let e = some(g, root);
            let i = g.n(e.kids.len() + 1);
            e.kids.insert(i, Nd::E(d));
            "graft"
        }
        4 => {
            let n = any_name(g);
            let s = soup(g, &n, 3);
            let e = some(g, root);
            let i = g.n(e.kids.len() + 1);
            e.kids.insert(i, Nd::E(s));
            "soup"
        }
        5 => {
            let n = any_name(g);
            let e = some(g, root);
            e.name = n;
            "rename"
        }
        6 => {
            let e = some(g, root);
            if !e.attrs.is_empty() {
                let i = g.n(e.attrs.len());
                e.attrs.remove(i);
            }
            "no-attribute"
        }
        7 | 8 | 9 => {
            let v = value(g);
            let e = some(g, root);
            if !e.attrs.is_empty() {
                let i = g.n(e.attrs.len());
                e.attrs[i].1 = v;
            }
            "attribute"
        }
        10 => {
            let e = some(g, root);
            let mut c = el(&e.name);
            some_attrs(g, &mut c);
            for a in c.attrs {
                if e.attr(&a.0).is_none() {
                    e.attrs.push(a);
                }
            }
            "more-attributes"
        }
        11 => {
            let t = value(g);
            let e = some(g, root);
            let i = g.n(e.kids.len() + 1);
            e.kids.insert(i, Nd::T(t));
            "text"
        }
        12 => {
            let n = any_name(g);
            let e = some(g, root);
            let inner = std::mem::replace(e, el(&n));
            e.kids.push(Nd::E(inner));
            "wrap"
        }
        13 => {
            let e = some(g, root);
            if let Some(i) = e.kids.iter().position(|k| matches!(k, Nd::E(_))) {
                if let Nd::E(c) = e.kids.remove(i) {
                    for (j, k) in c.kids.into_iter().enumerate() {
                        e.kids.insert(i + j, k);
                    }
                }
            }
            "unwrap"
        }
        _ => {
            let n = g.len(2, 40);
            let e = some(g, root);
            if e.kids.len() < 6 && depth(e) < 12 {
                for _ in 0..n {
                    let (name, attrs) = (e.name.clone(), e.attrs.clone());
                    let inner = std::mem::replace(e, El { name, attrs, kids: vec![] });
                    e.kids.push(Nd::E(inner));
                }
            }
            "nest"
        }
    };
    clip(root, DEPTH);
    what
}

// ---- bytes --------------------------------------------------------------------

const TOKENS: &[&str] = &[
    "<", ">", "&", "\"", "'", "/>", "</", "]]>", "<!--", "-->", "<![CDATA[", "<?xml", "?>", "<!DOCTYPE w [<!ENTITY a \"b\">]>", "&a;", "&#0;", "&#x110000;", "&#;", "&lt", "&amp;amp;", "=", " xmlns=\"\"", " xmlns:w=\"x\"",
    "<w:p>", "</w:p>", "</w:body>", "<w:tbl>", "</w:r>", "\u{0}", "\u{feff}", "\r\n", "\t", "é", "\u{1F600}", "pkg:", "\"\"",
];

pub fn mangle(g: &mut G, b: &mut Vec<u8>) {
    let n = b.len();
    let at = g.n(n + 1);
    match g.n(8) {
        0 if n > 0 => b[at.min(n - 1)] = g.n(256) as u8,
        1 => b.truncate(at),
        2 => {
            let l = g.len(1, 40).min(n - at);
            b.drain(at..at + l);
        }
        3 => {
            let l = g.len(1, 80).min(n - at);
            let c = b[at..at + l].to_vec();
            let to = g.n(n + 1);
            b.splice(to..to, c);
        }
        4 => {
            let k = g.len(1, 6);
            let c = g.bytes(k);
            b.splice(at..at, c);
        }
        5 if n > 0 => b[at.min(n - 1)] ^= 1 << g.n(8),
        6 => *b = b[at..].to_vec(),
        _ => {
            let t = g.pick(TOKENS).as_bytes().to_vec();
            b.splice(at..at, t);
        }
    }
}

/// The same text in another encoding or behind a byte order mark.
pub fn recode(g: &mut G, b: &[u8]) -> Vec<u8> {
    let s = String::from_utf8_lossy(b).to_string();
    match g.n(4) {
        0 => [&[0xef, 0xbb, 0xbf], b].concat(),
        1 => s.encode_utf16().flat_map(|c| c.to_le_bytes()).collect(),
        2 => [vec![0xfe, 0xff], s.encode_utf16().flat_map(|c| c.to_be_bytes()).collect()].concat(),
        _ => s.chars().map(|c| if (c as u32) < 256 { c as u32 as u8 } else { b'?' }).collect(),
    }
}
