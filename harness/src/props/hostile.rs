//! Reading hostile input.
use crate::doc::*;
use crate::full::{self, Ops};
use crate::fuzz::*;
use crate::gen::G;
use crate::opc;
use crate::runner::{guard, Case, Fail, Out, Prop, DEF};
use crate::xml::{el, parse, ser_with, El, Nd, NS};
use docx_rs::*;
use std::io::{Cursor, Write};

pub type Parts = Vec<(String, Vec<u8>)>;

/// Serialize a part whose names carry canonical prefixes the way producers write it.
pub fn ser_part(e: &El) -> String {
    fn strip(e: &mut El, p: &str) {
        if let Some(n) = e.name.strip_prefix(p) {
            e.name = n.to_string();
        }
        for k in e.kids.iter_mut() {
            if let Nd::E(c) = k {
                strip(c, p);
            }
        }
    }
    let mut ns: String = NS.iter().map(|(p, u)| format!(" xmlns:{p}=\"{u}\"")).collect();
    let mut e = e.clone();
    for p in ["rel", "ct", "cust", "ext"] {
        let plain = matches!((p, e.name.as_str()), ("rel", "Relationships") | ("ct", "Types") | ("cust", "Properties"));
        if plain || e.name.starts_with(&format!("{p}:")) {
            strip(&mut e, &format!("{p}:"));
            let u = NS.iter().find(|x| x.0 == p).unwrap().1;
            ns = format!(" xmlns=\"{u}\" xmlns:vt=\"{}\"", NS.iter().find(|x| x.0 == "vt").unwrap().1);
        }
    }
    ser_with(&e, &ns)
}

const REL: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/";
pub fn rel_type(t: &str) -> String {
    match t {
        "commentsExtended" => "http://schemas.microsoft.com/office/2011/relationships/commentsExtended".into(),
        t => format!("{REL}{t}"),
    }
}

pub fn rels_xml(rs: &[(&str, &str, &str, bool)]) -> El {
    let mut r = el("Relationships");
    for (id, ty, target, ext) in rs {
        let mut e = el("Relationship").a("Id", id).a("Type", rel_type(ty)).a("Target", target);
        if *ext {
            e = e.a("TargetMode", "External");
        }
        r = r.k(e);
    }
    r
}

/// Parts around a main document: (name below word/, relationship, root element).
pub const AROUND: &[(&str, &str, &str)] = &[
    ("styles.xml", "styles", "w:styles"),
    ("numbering.xml", "numbering", "w:numbering"),
    ("settings.xml", "settings", "w:settings"),
    ("comments.xml", "comments", "w:comments"),
    ("commentsExtended.xml", "commentsExtended", "w15:commentsEx"),
    ("webSettings.xml", "webSettings", "w:webSettings"),
    ("theme/theme1.xml", "theme", "a:theme"),
    ("header1.xml", "header", "w:hdr"),
    ("footer1.xml", "footer", "w:ftr"),
];

/// A package around given parts below word/.
pub fn skeleton(doc: &El, around: &[(usize, El)], media: Option<Vec<u8>>) -> Parts {
    let mut v: Parts = vec![];
    let ct = el("Types")
        .k(el("Default").a("Extension", "rels").a("ContentType", "application/vnd.openxmlformats-package.relationships+xml"))
        .k(el("Default").a("Extension", "xml").a("ContentType", "application/xml"))
        .k(el("Override").a("PartName", "/word/document.xml").a("ContentType", "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml"));
    v.push(("[Content_Types].xml".into(), ser_part(&ct).into_bytes()));
    v.push(("_rels/.rels".into(), ser_part(&rels_xml(&[("rId1", "officeDocument", "word/document.xml", false), ("rId2", "custom-properties", "docProps/custom.xml", false)])).into_bytes()));
    let mut rs: Vec<(&str, &str, &str, bool)> = vec![("rIdH", "hyperlink", "https://example.com/?a=1&b=2", true), ("rIdI", "image", "media/image1.png", false)];
    let ids: Vec<String> = around.iter().map(|(i, _)| format!("rId{}", i + 1)).collect();
    for (k, (i, _)) in around.iter().enumerate() {
        rs.push((&ids[k], AROUND[*i].1, AROUND[*i].0, false));
    }
    v.push(("word/_rels/document.xml.rels".into(), ser_part(&rels_xml(&rs)).into_bytes()));
    v.push(("word/document.xml".into(), ser_part(doc).into_bytes()));
    for (i, e) in around {
        v.push((format!("word/{}", AROUND[*i].0), ser_part(e).into_bytes()));
    }
    if let Some(m) = media {
        v.push(("word/media/image1.png".into(), m));
    }
    v
}

/// Elements from `root` down to `name` following the grammar.
fn path_to(root: &str, name: &str) -> Option<Vec<&'static str>> {
    let mut seen: Vec<(&'static str, usize)> = vec![];
    let r = GRAMMAR.iter().find(|x| x.0 == root)?;
    seen.push((r.0, usize::MAX));
    let mut i = 0;
    while i < seen.len() {
        let n = seen[i].0;
        if n == name {
            let mut p = vec![n];
            let mut at = i;
            while seen[at].1 != usize::MAX {
                at = seen[at].1;
                p.push(seen[at].0);
            }
            p.reverse();
            return Some(p);
        }
        if let Some((_, ks)) = GRAMMAR.iter().find(|x| x.0 == n) {
            for k in ks.iter() {
                if !seen.iter().any(|s| s.0 == *k) {
                    seen.push((k, i));
                }
            }
        }
        i += 1;
    }
    None
}

const ROOTS: &[&str] = &["w:document", "w:styles", "w:numbering", "w:settings", "w:comments", "w15:commentsEx", "w:webSettings", "a:theme", "w:hdr", "w:ftr"];

/// One container of the grammar, reached from a part's root, filled from the grammar.
pub fn focus(g: &mut G) -> (String, El) {
    loop {
        let n = g.pick(GRAMMAR).0;
        let off = g.n(ROOTS.len());
        for k in 0..ROOTS.len() {
            let root = ROOTS[(k + off) % ROOTS.len()];
            if let Some(p) = path_to(root, n) {
                let mut e = soup(g, n, 1);
                for up in p[..p.len() - 1].iter().rev() {
                    let mut o = el(up);
                    some_attrs(g, &mut o);
                    o.kids.push(Nd::E(e));
                    e = o;
                }
                return (root.to_string(), e);
            }
        }
        // package level parts are reached by the other ways of building input
        return ("w:document".into(), el("w:document"));
    }
}

fn images(g: &mut G) -> Vec<u8> {
    let mut b = match g.n(6) {
        0 => png(3),
        1 => b"BM\x3a\0\0\0\0\0\0\0\x36\0\0\0\x28\0\0\0\x01\0\0\0\x01\0\0\0\x01\0\x18\0\0\0\0\0\x04\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\xff\0".to_vec(),
        2 => b"GIF89a\x01\0\x01\0\x80\0\0\0\0\0\xff\xff\xff!\xf9\x04\x01\0\0\0\0,\0\0\0\0\x01\0\x01\0\0\x02\x02D\x01\0;".to_vec(),
        3 => b"\xff\xd8\xff\xe0\0\x10JFIF\0\x01\x01\0\0\x01\0\x01\0\0\xff\xd9".to_vec(),
        4 => b"II*\0\x08\0\0\0\x01\0\0\x01\x03\0\x01\0\0\0\x01\0\0\0\0\0\0\0".to_vec(),
        _ => b"\x01\0\0\0\x6c\0\0\0\0\0\0\0 EMF".to_vec(),
    };
    for _ in 0..g.len(0, 3) {
        mangle(g, &mut b);
    }
    b
}

pub fn zip_of(g: &mut G, parts: &Parts) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(Cursor::new(vec![]));
    let m = if g.coin() { zip::CompressionMethod::Deflated } else { zip::CompressionMethod::Stored };
    let opt = zip::write::SimpleFileOptions::default().compression_method(m);
    for (n, b) in parts {
        if z.start_file(n.as_str(), opt).is_ok() {
            z.write_all(b).unwrap();
        }
    }
    z.finish().unwrap().into_inner()
}

/// An archive whose directory claims a length of its own for one part.
fn claiming_zip(parts: &Parts, which: usize, size: u64) -> Vec<u8> {
    let (mut out, mut dir) = (vec![], vec![]);
    for (i, (n, b)) in parts.iter().enumerate() {
        let off = out.len() as u32;
        let crc = crc32(b);
        let mut ex = vec![];
        let mut us = b.len() as u32;
        if i == which {
            us = 0xffff_ffff;
            ex.extend([1, 0, 8, 0]);
            ex.extend(size.to_le_bytes());
        }
        let mut common = vec![];
        common.extend([45, 0, 0, 0, 0, 0, 0, 0, 0x21, 0]);
        for x in [crc, b.len() as u32, us] {
            common.extend(x.to_le_bytes());
        }
        common.extend((n.len() as u16).to_le_bytes());
        common.extend((ex.len() as u16).to_le_bytes());
        out.extend([0x50, 0x4b, 3, 4]);
        out.extend(&common);
        out.extend(n.as_bytes());
        out.extend(&ex);
        out.extend(b);
        dir.extend([0x50, 0x4b, 1, 2, 45, 0]);
        dir.extend(&common);
        dir.extend([0; 10]);
        dir.extend(off.to_le_bytes());
        dir.extend(n.as_bytes());
        dir.extend(&ex);
    }
    let (o, d, n) = (out.len() as u32, dir.len() as u32, parts.len() as u16);
    out.extend(dir);
    out.extend([0x50, 0x4b, 5, 6, 0, 0, 0, 0]);
    out.extend(n.to_le_bytes());
    out.extend(n.to_le_bytes());
    out.extend(d.to_le_bytes());
    out.extend(o.to_le_bytes());
    out.extend([0, 0]);
    out
}

pub fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    s
}

/// The same parts as one flat XML package.
pub fn flat(parts: &Parts) -> String {
    let mut s = String::from("<?xml version=\"1.0\" standalone=\"yes\"?><?mso-application progid=\"Word.Document\"?><pkg:package xmlns:pkg=\"http://schemas.microsoft.com/office/2006/xmlPackage\">");
    for (n, b) in parts {
        if n == "[Content_Types].xml" {
            continue;
        }
        let xml = opc::is_xml(n);
        let ct = if xml { "application/xml" } else { "image/png" };
        s.push_str(&format!("<pkg:part pkg:name=\"/{n}\" pkg:contentType=\"{ct}\">"));
        if xml {
            let t = String::from_utf8_lossy(b);
            let t = match t.find("?>") {
                Some(i) if t.starts_with("<?xml") => t[i + 2..].to_string(),
                _ => t.to_string(),
            };
            s.push_str(&format!("<pkg:xmlData>{t}</pkg:xmlData>"));
        } else {
            s.push_str(&format!("<pkg:binaryData>{}</pkg:binaryData>", b64(b)));
        }
        s.push_str("</pkg:part>");
    }
    s.push_str("</pkg:package>");
    s
}

fn base(c: &mut Case) -> Parts {
    match c.g.n(5) {
        0 | 1 => {
            c.class("markup at one place");
            let (root, e) = focus(&mut c.g);
            let mut around = vec![];
            let mut doc = el("w:document").k(el("w:body").k(el("w:p")));
            if root == "w:document" {
                doc = e;
            } else {
                let i = AROUND.iter().position(|a| a.2 == root).unwrap();
                around.push((i, e));
                if i >= 7 {
                    let r = if i == 7 { "w:headerReference" } else { "w:footerReference" };
                    doc = el("w:document").k(el("w:body").k(el("w:sectPr").k(el(r).a("w:type", "default").a("r:id", format!("rId{}", i + 1)))));
                }
            }
            let m = if c.g.coin() { Some(images(&mut c.g)) } else { None };
            skeleton(&doc, &around, m)
        }
        2 => {
            c.class("markup from a grammar");
            let doc = soup(&mut c.g, "w:document", 9);
            let mut around = vec![];
            for (i, a) in AROUND.iter().enumerate() {
                if c.g.chance(1, 4) {
                    around.push((i, soup(&mut c.g, a.2, 5)));
                }
            }
            let m = if c.g.coin() { Some(images(&mut c.g)) } else { None };
            let mut v = skeleton(&doc, &around, m);
            if c.g.chance(1, 6) {
                v.push(("docProps/custom.xml".into(), ser_part(&soup(&mut c.g, "Properties", 3)).into_bytes()));
            }
            v
        }
        _ => {
            c.class("written package");
            let mut cx = Ctx::new(&mut c.g, Cfg { fmt: 2, depth: 1, ..Cfg::write_all() });
            let f = full::full(&mut cx, &Ops { calls: 4, ..Ops::all() });
            let b = match pack(f.d) {
                Ok(b) => b,
                Err(_) => return vec![],
            };
            match opc::open(&b) {
                Ok(p) => p.names.iter().map(|n| (n.clone(), p.parts[n].clone())).collect(),
                Err(_) => vec![],
            }
        }
    }
}

fn hit(c: &mut Case, parts: &mut Parts) {
    if parts.is_empty() {
        return;
    }
    let i = if c.g.coin() { c.g.n(parts.len()) } else { parts.iter().position(|p| p.0 == "word/document.xml").unwrap_or(0) };
    match c.g.n(12) {
        0 => {
            parts.remove(i);
            c.class("part missing");
        }
        1 => {
            let j = c.g.n(parts.len());
            parts[i].1 = parts[j].1.clone();
            c.class("part with another's content");
        }
        2 => {
            let n = value(&mut c.g);
            parts[i].0 = n;
            c.class("part renamed");
        }
        3 => {
            parts[i].1 = match c.g.n(3) {
                0 => vec![],
                1 => recode(&mut c.g, &parts[i].1),
                _ => {
                    let n = c.g.len(1, 30);
                    c.g.bytes(n)
                }
            };
            c.class("part replaced by other bytes");
        }
        4 | 5 => {
            for _ in 0..c.g.len(1, 4) {
                mangle(&mut c.g, &mut parts[i].1);
            }
            c.class("bytes of a part damaged");
        }
        _ => {
            if let Ok(mut e) = parse(&parts[i].1) {
                let j = c.g.n(parts.len());
                let mut donor = parse(&parts[j].1).unwrap_or_else(|_| e.clone());
                for _ in 0..c.g.len(1, 5) {
                    let w = mutate(&mut c.g, &mut e, &mut donor);
                    c.class(&format!("tree: {w}"));
                }
                parts[i].1 = ser_part(&e).into_bytes();
            }
        }
    }
}

fn read_all(c: &mut Case, what: &str, r: Result<Docx, ReaderError>) -> Out {
    match r {
        Ok(d) => {
            c.class(&format!("{what}: document"));
            c.nontrivial = true;
            guard("json", || d.json())?;
        }
        Err(e) => {
            c.class(&format!("{what}: error"));
            guard("error", || format!("{e} {e:?}"))?;
        }
    }
    Ok(())
}

fn c17(c: &mut Case) -> Out {
    let mut parts = base(c);
    let clean = c.g.chance(1, 8);
    if !clean {
        for _ in 0..c.g.len(1, 4) {
            hit(c, &mut parts);
        }
    }
    if c.g.chance(1, 4) {
        let mut s = flat(&parts);
        if !clean && c.g.chance(1, 2) {
            let mut b = s.into_bytes();
            for _ in 0..c.g.len(1, 3) {
                mangle(&mut c.g, &mut b);
            }
            s = String::from_utf8_lossy(&b).to_string();
        }
        c.content(s.as_bytes());
        c.sample = s.clone();
        let r = guard("read_xml", || read_xml(&s))?;
        return read_all(c, "flat", r);
    }
    let mut b = zip_of(&mut c.g, &parts);
    if !clean && c.g.chance(1, 8) {
        c.class("damaged archive");
        for _ in 0..c.g.len(1, 4) {
            mangle(&mut c.g, &mut b);
        }
    } else if !clean && c.g.chance(1, 10) {
        // the length a header claims is not the length of the data
        c.class("wrong lengths in the archive");
        let at: Vec<usize> = (0..b.len().saturating_sub(46)).filter(|i| b[*i..].starts_with(&[0x50, 0x4b, 1, 2]) || b[*i..].starts_with(&[0x50, 0x4b, 3, 4])).collect();
        if c.g.coin() && !parts.is_empty() {
            let w = c.g.n(parts.len());
            let s = *c.g.pick(&[0u64, 1, 1 << 20, 1 << 33, 1 << 48, 1 << 62, u64::MAX]);
            b = claiming_zip(&parts, w, s);
        } else if !at.is_empty() {
            let p = *c.g.pick(&at);
            let f = if b[p + 2] == 1 { 20 } else { 18 } + 4 * c.g.n(2);
            let v = *c.g.pick(&[0u32, 1, 0x7fff_ffff, 0xffff_fffe, 0xffff_ffff]);
            b[p + f..p + f + 4].copy_from_slice(&v.to_le_bytes());
        }
    }
    c.content(&b);
    c.sample = parts.iter().map(|(n, b)| format!("{n}: {}\n", String::from_utf8_lossy(b))).collect();
    let previews = c.g.coin();
    let r = guard("read_docx", || if previews { read_docx(&b) } else { read_docx_with_options(&b, ReadDocxOptions::default().with_image_previews(false)) })?;
    read_all(c, "package", r)
}

pub const C17: Prop = Prop {
    id: "C17",
    rule: "damaged, truncated, misplaced, extreme or foreign input yields a document or an error: no panic, crash or hang",
    quick: 150000,
    thorough: 1500000,
    run: c17,
    hang_is_violation: true,
    assumptions: &["elements nest at most 60 deep"],
    ..DEF
};

#[allow(dead_code)]
fn unused(_: Fail) {}
