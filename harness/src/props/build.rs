//! Writing: the two ways of it, its repeatability, and destinations that fail.
use super::package::model;
use super::roundtrip::json_of;
use crate::doc::*;
use crate::full::Ops;
use crate::norm::{jdiff, jnorm, shape};
use crate::opc;
use crate::runner::{fail, guard, Case, Fail, Out, Prop, DEF};
use crate::xml::{diff, parse, El, Nd};
use docx_rs::*;
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

/// Every entry of an archive in order, directories included.
pub fn entries(bytes: &[u8]) -> Result<Vec<(String, Vec<u8>)>, Fail> {
    opc::open(bytes)?;
    let bad = |m: String| Fail { sig: "package:unreadable-archive".into(), msg: m };
    let mut z = zip::ZipArchive::new(Cursor::new(bytes)).map_err(|e| bad(e.to_string()))?;
    let mut v = vec![];
    for i in 0..z.len() {
        let mut f = z.by_index(i).map_err(|e| bad(e.to_string()))?;
        let mut b = vec![];
        f.read_to_end(&mut b).map_err(|e| bad(e.to_string()))?;
        v.push((f.name().to_string(), b));
    }
    Ok(v)
}

/// Names given while writing, numbered by their first appearance in the package.
#[derive(Default)]
pub struct Names {
    /// also ids objects got when they were made
    pub objects: bool,
    rids: BTreeMap<String, usize>,
    images: BTreeMap<String, usize>,
    notes: BTreeMap<String, usize>,
    keys: BTreeMap<String, usize>,
    pub marks: BTreeMap<String, usize>,
    paras: BTreeMap<String, usize>,
}

const REVISIONS: [&str; 8] = ["w:ins", "w:del", "w:moveFrom", "w:moveTo", "w:pPrChange", "w:rPrChange", "w:moveFromRangeStart", "w:moveToRangeStart"];

impl Names {
    pub fn objects() -> Self {
        Names { objects: true, ..Self::default() }
    }
    fn key(&mut self, s: &str) -> String {
        match s.find("_Toc") {
            Some(i) if s.len() >= i + 12 && s.as_bytes()[i + 4..i + 12].iter().all(|b| b.is_ascii_digit()) => {
                let n = self.keys.len();
                let n = *self.keys.entry(s[i..i + 12].to_string()).or_insert(n);
                format!("{}_Toc#{n}{}", &s[..i], &s[i + 12..])
            }
            _ => s.to_string(),
        }
    }
    pub fn canon(&mut self, e: &mut El) {
        // revisions are numbered while they are written
        if REVISIONS.contains(&e.name.as_str()) {
            e.attrs.retain(|a| a.0 != "w:id");
        }
        if e.name == "w:bookmarkStart" && e.attr("w:name").is_some_and(|n| n.starts_with("_Toc")) {
            let n = self.marks.len();
            self.marks.insert(e.attr("w:id").unwrap_or("").to_string(), n);
        }
        if e.name == "w:bookmarkStart" || e.name == "w:bookmarkEnd" {
            for a in e.attrs.iter_mut().filter(|a| a.0 == "w:id") {
                if let Some(n) = self.marks.get(&a.1) {
                    a.1 = format!("#{n}");
                }
            }
        }
        if self.objects {
            for a in e.attrs.iter_mut() {
                if a.1.starts_with("rIdHyperlink") {
                    let n = self.rids.len();
                    a.1 = format!("rIdHyperlink#{}", self.rids.entry(a.1.clone()).or_insert(n));
                }
                if let Some(i) = a.1.find("rIdImage") {
                    let (before, id) = a.1.split_at(i);
                    let (id, after) = id.split_at(id.find('.').unwrap_or(id.len()));
                    let n = self.images.len();
                    a.1 = format!("{before}rIdImage#{}{after}", self.images.entry(id.to_string()).or_insert(n));
                }
                if a.0 == "w:id" && (e.name == "w:footnote" || e.name == "w:footnoteReference") {
                    let n = self.notes.len();
                    a.1 = format!("#{}", self.notes.entry(a.1.clone()).or_insert(n));
                }
            }
        }
        for a in e.attrs.iter_mut() {
            if a.0 == "w:name" || a.0 == "w:anchor" {
                a.1 = self.key(&a.1);
            }
            if a.0.ends_with(":paraId") || a.0.ends_with(":paraIdParent") {
                let n = self.paras.len();
                a.1 = format!("#{}", self.paras.entry(a.1.clone()).or_insert(n));
            }
        }
        for k in e.kids.iter_mut() {
            match k {
                Nd::E(c) => self.canon(c),
                Nd::T(t) if e.name == "w:instrText" => *t = self.key(t),
                _ => {}
            }
        }
    }
}

fn unnumbered(name: &str) -> String {
    match name.find("rIdImage") {
        Some(i) => name[..i + 8].to_string() + name[i + 8..].trim_start_matches(|c: char| c.is_ascii_digit()),
        None => name.to_string(),
    }
}

/// Two archives with the same entries in the same order, up to numbers given while writing.
fn same(what: &str, a: &[u8], b: &[u8]) -> Out {
    same_up_to(what, a, b, Names::default, |_, _| {})
}

/// Likewise of documents made separately, custom properties in any order.
pub fn same_objects(what: &str, a: &[u8], b: &[u8]) -> Out {
    same_up_to(what, a, b, Names::objects, |name, x| {
        if name == "docProps/custom.xml" {
            super::texts::unordered(x);
        }
    })
}

fn same_up_to(what: &str, a: &[u8], b: &[u8], names: fn() -> Names, prepare: fn(&str, &mut El)) -> Out {
    let (ea, eb) = (entries(a)?, entries(b)?);
    let objects = names().objects;
    // media are named after the pictures they come from
    let n = |v: &[(String, Vec<u8>)]| v.iter().map(|e| if objects { unnumbered(&e.0) } else { e.0.clone() }).collect::<Vec<_>>();
    if n(&ea) != n(&eb) {
        return fail(format!("{what}:entries"), format!("entries {:?} and {:?}", n(&ea), n(&eb)));
    }
    let (mut na, mut nb) = (names(), names());
    for ((name, x), (_, y)) in ea.iter().zip(&eb) {
        if !opc::is_xml(name) {
            if x != y {
                return fail(format!("{what}:{}", opc::generic(name)), format!("{name} differs: {} and {} bytes", x.len(), y.len()));
            }
            continue;
        }
        let p = |b: &[u8]| parse(b).map_err(|e| Fail { sig: format!("{what}:malformed"), msg: format!("{name}: {e}") });
        let (mut px, mut py) = (p(x)?, p(y)?);
        // ids of bookmarks lead to their end in the same part
        na.marks.clear();
        nb.marks.clear();
        na.canon(&mut px);
        nb.canon(&mut py);
        prepare(name, &mut px);
        prepare(name, &mut py);
        if let Some((at, d)) = diff(&px, &py, "") {
            return fail(format!("{what}:{}:{}", opc::generic(name), shape(&at)), format!("{name}: {d}"));
        }
    }
    Ok(())
}

/// A document of every kind of part, with or without a table of contents, or a read one.
pub fn any_doc(c: &mut Case) -> Result<Docx, Fail> {
    let m = model(c, Cfg { fmt: 1, depth: 2, bias: &[K_LINK, K_COMMENT], rbias: &[R_PIC], ..Cfg::write_all() }, &Ops::all(), &[]);
    let mut d = m.f.d;
    if c.g.chance(1, 3) {
        let mut cx = Ctx::new(&mut c.g, Cfg { fmt: 0, depth: 1, images: false, ..Cfg::plain() });
        d = d.add_style(Style::new("H1", StyleType::Paragraph).name("heading 1"));
        for _ in 0..cx.g.len(1, 3) {
            let t = cx.txt();
            d = d.add_paragraph(Paragraph::new().add_run(Run::new().add_text(t)).style("H1"));
        }
        let mut n = 0;
        while n == 0 || cx.g.chance(1, 4) {
            let (v, _) = super::toc::toc(&mut cx, &[]);
            d = d.add_table_of_contents(v);
            n += 1;
        }
        c.class("table of contents");
    }
    if c.g.chance(1, 5) {
        c.class("document that was read");
        let b = pack(d)?;
        d = super::roundtrip::read(&b)?;
    }
    Ok(d)
}

fn buffered(d: Docx) -> Result<(XMLDocx, Vec<u8>), Fail> {
    let again = d.clone();
    let x = guard("build", || d.build())?;
    let mut w = Cursor::new(vec![]);
    match guard("pack", || again.build().pack(&mut w))? {
        Ok(()) => Ok((x, w.into_inner())),
        Err(e) => fail("pack:error", format!("packing rendered parts failed: {e}")),
    }
}

// ---------------------------------------------------------------- C16

fn c16(c: &mut Case) -> Out {
    let d = any_doc(c)?;
    let s = pack(d.clone())?;
    let (x, b) = buffered(d)?;
    same("ways", &s, &b)?;
    // the parts in memory are the entries of the archive
    let mut parts: Vec<(String, Vec<u8>)> = vec![];
    let mut put = |n: &str, b: &[u8]| parts.push((n.to_string(), b.to_vec()));
    put("[Content_Types].xml", &x.content_type);
    put("_rels/.rels", &x.rels);
    put("docProps/app.xml", &x.doc_props.app);
    put("docProps/core.xml", &x.doc_props.core);
    put("docProps/custom.xml", &x.doc_props.custom);
    put("word/_rels/document.xml.rels", &x.document_rels);
    put("word/document.xml", &x.document);
    put("word/styles.xml", &x.styles);
    put("word/settings.xml", &x.settings);
    put("word/fontTable.xml", &x.font_table);
    put("word/comments.xml", &x.comments);
    put("word/numbering.xml", &x.numberings);
    put("word/commentsExtended.xml", &x.comments_extended);
    put("word/footnotes.xml", &x.footnotes);
    for (k, parts, rels) in [("header", &x.headers, &x.header_rels), ("footer", &x.footers, &x.footer_rels)] {
        for (i, h) in parts.iter().enumerate() {
            put(&format!("word/{k}{}.xml", i + 1), h);
            if let Some(r) = rels.get(i).filter(|r| !r.is_empty()) {
                put(&format!("word/_rels/{k}{}.xml.rels", i + 1), r);
            }
        }
    }
    for (n, b) in &x.media {
        put(&format!("word/media/{n}.png"), b);
    }
    if let Some(t) = &x.taskpanes {
        put("word/webextensions/taskpanes.xml", t);
        put("word/webextensions/_rels/taskpanes.xml.rels", &x.taskpanes_rels);
        for (i, e) in x.web_extensions.iter().enumerate() {
            put(&format!("word/webextensions/webextension{}.xml", i + 1), e);
        }
    }
    for (i, e) in x.custom_items.iter().enumerate() {
        put(&format!("customXml/item{}.xml", i + 1), e);
        put(&format!("customXml/_rels/item{}.xml.rels", i + 1), x.custom_item_rels.get(i).map_or(&[], |v| v));
        put(&format!("customXml/itemProps{}.xml", i + 1), x.custom_item_props.get(i).map_or(&[], |v| v));
    }
    let mut e = entries(&s)?;
    e.retain(|e| !e.0.ends_with('/'));
    e.sort_by(|a, b| a.0.cmp(&b.0));
    parts.sort_by(|a, b| a.0.cmp(&b.0));
    same("parts", &opc::make_zip(&parts), &opc::make_zip(&e))
}
pub const C16: Prop = Prop { id: "C16", rule: "writing directly and through rendered parts", quick: 15000, run: c16, ..DEF };

// ---------------------------------------------------------------- C19

fn c19(c: &mut Case) -> Out {
    let d = any_doc(c)?;
    let first = pack(d.clone())?;
    let json = guard("json", || d.json())?;
    // anything may be looked at in between
    let mut e = d.clone();
    let (mut updated, mut comments): (Option<String>, Option<String>) = (None, None);
    for _ in 0..c.g.len(1, 5) {
        match c.g.n(6) {
            0 => {
                c.class("json");
                let j = guard("json", || d.json())?;
                if j != json {
                    return fail("json:changes", "the JSON of an unchanged document changed");
                }
            }
            1 => {
                c.class("json with comments");
                let j = guard("json", || e.json_with_update_comments())?;
                if updated.get_or_insert_with(|| j.clone()) != &j {
                    return fail("json-with-comments:changes", "the JSON with comments of an unchanged document changed");
                }
            }
            2 => {
                c.class("json of comments");
                let j = guard("json", || e.comments_json())?;
                if comments.get_or_insert_with(|| j.clone()) != &j {
                    return fail("comments-json:changes", "the JSON of the comments of an unchanged document changed");
                }
            }
            3 => {
                c.class("written in between");
                let k = d.clone();
                same("again", &first, &pack(k)?)?;
            }
            4 => {
                c.class("built in between");
                let k = d.clone();
                guard("build", || k.build())?;
            }
            _ => {
                c.class("another document in between");
                let o = any_doc(c)?;
                pack(o)?;
            }
        }
    }
    // what is added afterwards joins what was there
    let mut f = e.clone();
    same("again", &first, &pack(e)?)?;
    if c.g.coin() {
        c.class("added to after looking");
        let mut p = Paragraph::new();
        if c.g.chance(2, 3) {
            let id = 90000 + c.g.n(10);
            let k = Comment::new(id).author("a").add_paragraph(Paragraph::new().add_run(Run::new().add_text(c.g.text())));
            p = p.add_comment_start(k).add_run(Run::new().add_text("x")).add_comment_end(id);
        }
        if c.g.coin() {
            p = p.add_hyperlink(Hyperlink::new("http://added.example/", HyperlinkType::External).add_run(Run::new().add_text("y")));
        }
        if c.g.coin() {
            p = p.add_run(Run::new().add_footnote_reference(Footnote::new().add_content(Paragraph::new().add_run(Run::new().add_text("z")))));
        }
        let mut fresh = d.clone().add_paragraph(p.clone());
        f = f.add_paragraph(p);
        if guard("json", || fresh.comments_json())? != guard("json", || f.comments_json())? {
            return fail("comments-json:added", "the comments of a document looked at before something was added are not those of one that was not");
        }
        same("added", &pack(d.add_paragraph(match f.document.children.last() {
            Some(DocumentChild::Paragraph(p)) => *p.clone(),
            _ => return fail("added:lost", "the paragraph added is not the last one"),
        }))?, &pack(f)?)?;
    }
    if let (Some(u), Some(k)) = (updated, comments) {
        c.class("both JSON forms of comments");
        let (u, k): (serde_json::Value, serde_json::Value) = match (serde_json::from_str(&u), serde_json::from_str(&k)) {
            (Ok(a), Ok(b)) => (a, b),
            _ => return fail("json:malformed", "JSON cannot be parsed"),
        };
        if u["comments"] != k {
            return fail("comments-json:differs", "the comments in the JSON of the document are not those given on their own");
        }
    }
    // reading the same bytes
    if c.g.chance(1, 3) {
        c.class("read twice");
        let (x, y) = (super::roundtrip::read(&first)?, super::roundtrip::read(&first)?);
        if let Some((at, m)) = jdiff(&jnorm(&json_of(&x)?), &jnorm(&json_of(&y)?), "") {
            return fail(format!("read:{}", shape(&at)), format!("{at}: {m}"));
        }
        same("read-again", &pack(x)?, &pack(y)?)?;
    }
    Ok(())
}
pub const C19: Prop = Prop { id: "C19", rule: "documents looked at, written and read repeatedly", quick: 10000, run: c19, ..DEF };

// ---------------------------------------------------------------- C23

/// A destination with a failure or a peculiarity.
struct Sink {
    v: Vec<u8>,
    pos: u64,
    /// bytes it has room for
    room: usize,
    /// how a full destination answers
    zero: bool,
    /// most bytes taken at once
    chunk: usize,
    seeks: usize,
    flushes: usize,
    failed: bool,
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let end = self.v.len().max(self.pos as usize);
        let mut n = b.len().min(self.chunk);
        let free = (end - self.pos as usize) + self.room.saturating_sub(end);
        n = n.min(free);
        if n == 0 && !b.is_empty() {
            self.failed = true;
            if self.zero {
                return Ok(0);
            }
            return Err(std::io::Error::other("no room"));
        }
        let at = self.pos as usize;
        self.v.resize(end.max(at + n), 0);
        self.v[at..at + n].copy_from_slice(&b[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.flushes == 0 {
            self.failed = true;
            return Err(std::io::Error::other("cannot flush"));
        }
        self.flushes -= 1;
        Ok(())
    }
}
impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        if self.seeks == 0 {
            self.failed = true;
            return Err(std::io::Error::other("cannot seek"));
        }
        self.seeks -= 1;
        self.pos = match p {
            SeekFrom::Start(n) => n,
            SeekFrom::Current(n) => (self.pos as i64 + n) as u64,
            SeekFrom::End(n) => (self.v.len() as i64 + n) as u64,
        };
        Ok(self.pos)
    }
}

fn c23(c: &mut Case) -> Out {
    let o = Ops { block: 4, section: 1, hf: 2, item: 1, ext: 1, ..Ops::none() };
    let m = model(c, Cfg { tables: true, images: true, links: true, fmt: 1, depth: 1, ..Cfg::plain() }, &o, &[]);
    let d = m.f.d;
    let whole = pack(d.clone())?;
    let mut s = Sink {
        v: vec![],
        pos: 0,
        room: usize::MAX,
        zero: false,
        chunk: usize::MAX,
        seeks: usize::MAX,
        flushes: usize::MAX,
        failed: false,
    };
    match c.g.n(5) {
        0 | 1 => {
            s.room = c.g.n(whole.len() + 40);
            s.zero = c.g.coin();
            c.class(if s.zero { "takes nothing more" } else { "runs full" });
        }
        2 => {
            s.seeks = c.g.n(60);
            c.class("seek fails");
        }
        3 => {
            s.flushes = c.g.n(3);
            c.class("flush fails");
        }
        _ => {}
    }
    if c.g.coin() {
        s.chunk = 1 + c.g.n(7);
        c.class("takes few bytes at once");
    }
    let direct = c.g.coin();
    c.class(if direct { "written directly" } else { "written from parts" });
    let k = d.clone();
    let (room, seeks, flushes) = (s.room, s.seeks, s.flushes);
    let r = if direct { guard("pack", || k.pack(&mut s))? } else { guard("pack", || k.build().pack(&mut s))? };
    match r {
        Ok(()) => {
            c.class("written");
            if s.failed {
                return fail("sink:success", format!("success although the destination failed (room {room}, seeks {seeks}, flushes {flushes})"));
            }
            same("sink", &whole, &s.v)?;
        }
        Err(e) => {
            c.class("reported");
            if !s.failed {
                return fail("sink:error", format!("an error although the destination took everything: {e}"));
            }
        }
    }
    // a failure leaves nothing behind that later writing would notice
    same("after", &whole, &pack(d)?)
}
pub const C23: Prop = Prop { id: "C23", rule: "destinations that fail or take bytes in pieces", quick: 15000, run: c23, ..DEF };
