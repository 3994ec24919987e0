//! Package access and Open Packaging Conventions rules.

use crate::runner::Fail;
use crate::xml::{parse, El};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Cursor, Read, Write};

pub struct Pkg {
    /// entry names in archive order
    pub names: Vec<String>,
    pub parts: BTreeMap<String, Vec<u8>>,
}

pub fn open(bytes: &[u8]) -> Result<Pkg, Fail> {
    let bad = |m: String| Fail { sig: "package:unreadable-archive".into(), msg: m };
    let mut z = zip::ZipArchive::new(Cursor::new(bytes)).map_err(|e| bad(format!("{e}")))?;
    let mut names = vec![];
    let mut dirs = 0;
    let mut parts = BTreeMap::new();
    for i in 0..z.len() {
        let mut f = z.by_index(i).map_err(|e| bad(format!("{e}")))?;
        let n = f.name().to_string();
        if n.ends_with('/') {
            // a directory entry is not a part
            dirs += 1;
            continue;
        }
        let mut v = vec![];
        f.read_to_end(&mut v).map_err(|e| bad(format!("{n}: {e}")))?;
        names.push(n.clone());
        parts.insert(n, v);
    }
    // the central directory of the zip crate collapses duplicates: look at the raw count too
    let eocd = bytes.windows(4).rposition(|w| w == [0x50, 0x4b, 5, 6]).ok_or_else(|| bad("no end record".into()))?;
    let total = u16::from_le_bytes([bytes[eocd + 10], bytes[eocd + 11]]) as usize;
    if total != names.len() + dirs {
        return Err(Fail { sig: "package:duplicate-entry".into(), msg: format!("{} directory records for {} names", total, names.len()) });
    }
    Ok(Pkg { names, parts })
}

pub fn make_zip(parts: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(Cursor::new(vec![]));
    let opt = zip::write::SimpleFileOptions::default().compression_method(zip::CompressionMethod::Stored);
    for (n, b) in parts {
        z.start_file(n.as_str(), opt).unwrap();
        z.write_all(b).unwrap();
    }
    z.finish().unwrap().into_inner()
}

#[derive(Clone, Debug)]
pub struct Rel {
    pub id: String,
    pub ty: String,
    pub target: String,
    pub external: bool,
}

pub fn is_xml(n: &str) -> bool {
    n.ends_with(".xml") || n.ends_with(".rels")
}

pub fn rels_name(part: &str) -> String {
    match part.rfind('/') {
        Some(i) => format!("{}/_rels/{}.rels", &part[..i], &part[i + 1..]),
        None => format!("_rels/{part}.rels"),
    }
}

/// source part of a relationships part ("" for the package)
pub fn rels_source(name: &str) -> Option<String> {
    let (dir, file) = match name.rfind('/') {
        Some(i) => (&name[..i], &name[i + 1..]),
        None => return None,
    };
    let file = file.strip_suffix(".rels")?;
    if dir == "_rels" {
        return Some(file.to_string());
    }
    let d = dir.strip_suffix("/_rels")?;
    Some(format!("{d}/{file}"))
}

pub fn resolve(source: &str, target: &str) -> String {
    if let Some(t) = target.strip_prefix('/') {
        return t.to_string();
    }
    let mut segs: Vec<&str> = source.split('/').collect();
    segs.pop();
    for s in target.split('/') {
        match s {
            "." | "" => {}
            ".." => {
                segs.pop();
            }
            s => segs.push(s),
        }
    }
    segs.join("/")
}

impl Pkg {
    pub fn xml(&self, name: &str) -> Result<El, Fail> {
        let b = self.parts.get(name).ok_or_else(|| Fail { sig: format!("package:missing:{name}"), msg: format!("part {name} is absent") })?;
        parse(b).map_err(|e| Fail { sig: format!("xml:{}", generic(name)), msg: format!("{name}: {e}") })
    }
    pub fn get(&self, name: &str) -> Option<&Vec<u8>> {
        self.parts.get(name)
    }
    /// The package with a part under another name, with other content; relationships follow.
    pub fn rename(mut self, old: &str, new: &str, bytes: Vec<u8>) -> Pkg {
        self.parts.remove(old);
        self.parts.insert(new.to_string(), bytes);
        self.names.iter_mut().filter(|n| *n == old).for_each(|n| *n = new.to_string());
        let file = |n: &str| n.rsplit('/').next().unwrap_or("").to_string();
        let (a, b) = (format!("/{}\"", file(old)), format!("/{}\"", file(new)));
        for (n, v) in self.parts.iter_mut().filter(|p| p.0.ends_with(".rels")) {
            match String::from_utf8(v.clone()) {
                Ok(s) => *v = s.replace(&a, &b).into_bytes(),
                Err(_) => panic!("{n} is no text"),
            }
        }
        self
    }
    pub fn zip(&self) -> Vec<u8> {
        let parts: Vec<_> = self.names.iter().filter_map(|n| Some((n.clone(), self.parts.get(n)?.clone()))).collect();
        make_zip(&parts)
    }
    pub fn has(&self, name: &str) -> bool {
        self.parts.contains_key(name)
    }
    pub fn rels(&self, part: &str) -> Result<Vec<Rel>, Fail> {
        let n = rels_name(part);
        if !self.has(&n) {
            return Ok(vec![]);
        }
        let x = self.xml(&n)?;
        Ok(x.els()
            .map(|e| Rel {
                id: e.attr("Id").unwrap_or("").into(),
                ty: e.attr("Type").unwrap_or("").into(),
                target: e.attr("Target").unwrap_or("").into(),
                external: e.attr("TargetMode") == Some("External"),
            })
            .collect())
    }
    pub fn all_xml(&self) -> Result<BTreeMap<String, El>, Fail> {
        let mut m = BTreeMap::new();
        for n in &self.names {
            if is_xml(n) {
                m.insert(n.clone(), self.xml(n)?);
            }
        }
        Ok(m)
    }
}

/// header3.xml -> header#.xml
pub fn generic(n: &str) -> String {
    let mut o = String::new();
    for c in n.chars() {
        if c.is_ascii_digit() {
            if !o.ends_with('#') {
                o.push('#');
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// Parts the library always writes and relates only when something uses them.
const SPARE: &[&str] = &["word/comments.xml", "word/commentsExtended.xml", "word/numbering.xml", "word/footnotes.xml"];

const OFF: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/";

/// Package-level integrity: names, content types, relationships, references.
pub fn integrity(p: &Pkg) -> Result<(), Fail> {
    let f = |sig: &str, msg: String| -> Result<(), Fail> { Err(Fail { sig: sig.to_string(), msg }) };
    let mut lower = BTreeSet::new();
    for n in &p.names {
        if n.starts_with('/') || n.contains("//") || n.contains('\\') || n.contains("/../") {
            return f("opc:bad-name", format!("entry name {n}"));
        }
        if !lower.insert(n.to_ascii_lowercase()) {
            return f("opc:duplicate-name", format!("entry {n} occurs twice"));
        }
    }
    let xmls = p.all_xml()?;
    let ct = match xmls.get("[Content_Types].xml") {
        Some(x) => x,
        None => return f("opc:no-content-types", "no [Content_Types].xml".into()),
    };
    let mut defaults = BTreeMap::new();
    let mut overrides = BTreeMap::new();
    let mut types: BTreeMap<String, String> = BTreeMap::new();
    for e in ct.els() {
        match e.name.as_str() {
            "ct:Default" => {
                if defaults.insert(e.attr("Extension").unwrap_or("").to_ascii_lowercase(), e.attr("ContentType").unwrap_or("").to_string()).is_some() {
                    return f("opc:duplicate-default", format!("{e:?}"));
                }
            }
            "ct:Override" => {
                let n = e.attr("PartName").unwrap_or("");
                let n = match n.strip_prefix('/') {
                    Some(n) => n.to_string(),
                    None => return f("opc:override-not-absolute", format!("{e:?}")),
                };
                if overrides.insert(n.to_ascii_lowercase(), e.attr("ContentType").unwrap_or("").to_string()).is_some() {
                    return f("opc:duplicate-override", format!("override for {n} twice"));
                }
                if !p.has(&n) {
                    return f(&format!("opc:override-without-part:{}", generic(&n)), format!("content type override for absent part /{n}"));
                }
            }
            _ => return f("opc:content-types-element", format!("{}", e.name)),
        }
    }
    for n in &p.names {
        if n == "[Content_Types].xml" {
            continue;
        }
        let ext = n.rsplit('.').next().unwrap_or("").to_ascii_lowercase();
        let ty = overrides.get(&n.to_ascii_lowercase()).or_else(|| defaults.get(&ext));
        let ty = match ty {
            Some(t) => t.clone(),
            None => return f(&format!("opc:no-content-type:{}", generic(n)), format!("part {n} has no content type")),
        };
        if n.ends_with(".rels") && ty != "application/vnd.openxmlformats-package.relationships+xml" {
            return f("opc:rels-content-type", format!("{n}: {ty}"));
        }
        types.insert(n.clone(), ty);
    }
    // relationships
    for n in &p.names {
        if !n.ends_with(".rels") {
            continue;
        }
        let src = match rels_source(n) {
            Some(s) => s,
            None => return f("opc:stray-rels", n.clone()),
        };
        if !src.is_empty() && !p.has(&src) {
            return f(&format!("opc:rels-without-source:{}", generic(n)), format!("{n} belongs to absent part {src}"));
        }
        let rels = {
            let x = &xmls[n];
            if x.name != "rel:Relationships" {
                return f("opc:rels-root", format!("{n}: {}", x.name));
            }
            p.rels(&src)?
        };
        let mut ids = BTreeSet::new();
        for r in &rels {
            if r.id.is_empty() || !ids.insert(r.id.clone()) {
                return f(&format!("opc:duplicate-rel-id:{}", generic(n)), format!("{n}: relationship id {:?} is not unique", r.id));
            }
            if !r.external {
                let t = resolve(&src, &r.target);
                if !p.has(&t) {
                    return f(
                        &format!("opc:dangling-rel:{}:{}", generic(n), r.ty.rsplit('/').next().unwrap_or("")),
                        format!("{n}: {} ({}) targets absent part {t}", r.id, r.ty),
                    );
                }
                if let Some(w) = rel_type_of(&t) {
                    if !r.ty.ends_with(w) {
                        return f(&format!("opc:rel-type:{}", generic(&t)), format!("{n}: {} targets {t} with type {}", r.id, r.ty));
                    }
                }
            }
        }
    }
    // what a consumer can get to
    let mut todo = vec![String::new()];
    let mut reach: BTreeSet<String> = BTreeSet::new();
    while let Some(src) = todo.pop() {
        for r in p.rels(&src)? {
            let t = resolve(&src, &r.target);
            if !r.external && reach.insert(t.clone()) {
                todo.push(t);
            }
        }
    }
    let main = p.rels("word/document.xml")?;
    for n in &p.names {
        if n.ends_with(".rels") || n == "[Content_Types].xml" {
            continue;
        }
        if !reach.contains(n) && !SPARE.contains(&n.as_str()) {
            return f(&format!("opc:unreachable-part:{}", generic(n)), format!("no chain of relationships leads to part {n}"));
        }
        if reach.contains(n) {
            if let Some(w) = expected_type(n) {
                if !w.contains(&types[n].as_str()) {
                    return f(&format!("opc:content-type:{}", generic(n)), format!("{n} has content type {}, expected {w:?}", types[n]));
                }
            }
        }
    }
    // references by number need the part that resolves them
    for (name, part, el_name, rel) in [
        ("w:commentReference", "word/comments.xml", "w:comment", "comments"),
        ("w:footnoteReference", "word/footnotes.xml", "w:footnote", "footnotes"),
        ("w:numId", "word/numbering.xml", "", "numbering"),
    ] {
        let mut used = BTreeSet::new();
        for (n, x) in &xmls {
            if n.starts_with("word/") && !n.ends_with(".rels") && n != part {
                used.extend(x.all(name).iter().map(|e| e.attr("w:id").or(e.attr("w:val")).unwrap_or("").to_string()));
            }
        }
        if used.is_empty() {
            continue;
        }
        if !main.iter().any(|r| r.ty == format!("{OFF}{rel}") && resolve("word/document.xml", &r.target) == part) {
            return f(&format!("opc:unrelated:{rel}"), format!("<{name}> is used but {part} is not related to the document"));
        }
        if el_name.is_empty() {
            continue;
        }
        let mut def = BTreeSet::new();
        for e in xmls[part].children(el_name) {
            if !def.insert(e.attr("w:id").unwrap_or("").to_string()) {
                return f(&format!("opc:duplicate-id:{rel}"), format!("two <{el_name}> of id {:?}", e.attr("w:id")));
            }
        }
        if let Some(u) = used.iter().find(|u| !def.contains(*u)) {
            return f(&format!("opc:undefined:{rel}"), format!("<{name}> refers to {u:?}, which {part} does not define"));
        }
    }
    // references from markup
    for (n, x) in &xmls {
        if n.ends_with(".rels") {
            continue;
        }
        let rels = p.rels(n)?;
        let mut bad: Option<(String, String)> = None;
        x.walk(&mut |e| {
            for (k, v) in &e.attrs {
                if k != "r:id" && k != "r:embed" && k != "r:link" {
                    continue;
                }
                let want = match e.name.as_str() {
                    "w:hyperlink" => "hyperlink",
                    "a:blip" | "v:imagedata" => "image",
                    "w:headerReference" => "header",
                    "w:footerReference" => "footer",
                    _ => "",
                };
                let r = rels.iter().find(|r| r.id == *v);
                let ok = match r {
                    None => false,
                    Some(r) => want.is_empty() || r.ty == format!("{OFF}{want}"),
                };
                if !ok && bad.is_none() {
                    bad = Some((
                        format!("opc:dangling-ref:{}:{}", generic(n), e.name),
                        format!("{n}: <{}> refers to {v:?} which {}", e.name, if r.is_some() { "has another type" } else { "is not a relationship of the part" }),
                    ));
                }
            }
        });
        if let Some((s, m)) = bad {
            return f(&s, m);
        }
    }
    // the package must have a main document
    let root = p.rels("")?;
    if !root.iter().any(|r| r.ty == format!("{OFF}officeDocument") && r.target.trim_start_matches('/') == "word/document.xml") {
        return f("opc:no-main-document", "no officeDocument relationship to word/document.xml".into());
    }
    Ok(())
}

fn rel_type_of(n: &str) -> Option<&'static str> {
    let g = generic(n);
    Some(match g.as_str() {
        "word/document.xml" => "/officeDocument",
        "word/styles.xml" => "/styles",
        "word/settings.xml" => "/settings",
        "word/fontTable.xml" => "/fontTable",
        "word/numbering.xml" => "/numbering",
        "word/comments.xml" => "/comments",
        "word/commentsExtended.xml" => "/commentsExtended",
        "word/footnotes.xml" => "/footnotes",
        "word/header#.xml" => "/header",
        "word/footer#.xml" => "/footer",
        "docProps/app.xml" => "/extended-properties",
        "docProps/core.xml" => "/core-properties",
        "docProps/custom.xml" => "/custom-properties",
        "customXml/item#.xml" => "/customXml",
        "customXml/itemProps#.xml" => "/customXmlProps",
        "word/webextensions/taskpanes.xml" => "/webextensiontaskpanes",
        "word/webextensions/webextension#.xml" => "/webextension",
        _ if n.starts_with("word/media/") => "/image",
        _ => return None,
    })
}

fn expected_type(n: &str) -> Option<&'static [&'static str]> {
    let g = generic(n);
    Some(match g.as_str() {
        "word/document.xml" => &["application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml"],
        "word/styles.xml" => &["application/vnd.openxmlformats-officedocument.wordprocessingml.styles+xml"],
        "word/settings.xml" => &["application/vnd.openxmlformats-officedocument.wordprocessingml.settings+xml"],
        "word/fontTable.xml" => &["application/vnd.openxmlformats-officedocument.wordprocessingml.fontTable+xml"],
        "word/numbering.xml" => &["application/vnd.openxmlformats-officedocument.wordprocessingml.numbering+xml"],
        "word/comments.xml" => &["application/vnd.openxmlformats-officedocument.wordprocessingml.comments+xml"],
        "word/commentsExtended.xml" => &["application/vnd.openxmlformats-officedocument.wordprocessingml.commentsExtended+xml"],
        "word/footnotes.xml" => &["application/vnd.openxmlformats-officedocument.wordprocessingml.footnotes+xml"],
        "word/header#.xml" => &["application/vnd.openxmlformats-officedocument.wordprocessingml.header+xml"],
        "word/footer#.xml" => &["application/vnd.openxmlformats-officedocument.wordprocessingml.footer+xml"],
        "docProps/core.xml" => &["application/vnd.openxmlformats-package.core-properties+xml"],
        "docProps/app.xml" => &["application/vnd.openxmlformats-officedocument.extended-properties+xml"],
        "docProps/custom.xml" => &["application/vnd.openxmlformats-officedocument.custom-properties+xml"],
        "customXml/itemProps#.xml" => &["application/vnd.openxmlformats-officedocument.customXmlProperties+xml"],
        "word/webextensions/taskpanes.xml" => &["application/vnd.ms-office.webextensiontaskpanes+xml"],
        "word/webextensions/webextension#.xml" => &["application/vnd.ms-office.webextension+xml"],
        _ if n.starts_with("word/media/") => &["image/png", "image/jpeg", "image/gif", "image/bmp", "image/x-emf", "image/tiff"],
        _ => return None,
    })
}
