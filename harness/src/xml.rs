//! An XML 1.0 + Namespaces parser and serializer that shares no code with the
//! library under test. The parser is strict: anything a conforming processor
//! would reject is an error.

use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Nd {
    E(El),
    T(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Nd>,
}

pub fn el(name: &str) -> El {
    El { name: name.to_string(), attrs: vec![], kids: vec![] }
}

impl El {
    pub fn a(mut self, k: &str, v: impl ToString) -> El {
        self.attrs.push((k.to_string(), v.to_string()));
        self
    }
    pub fn ao<T: ToString>(self, k: &str, v: Option<T>) -> El {
        match v {
            Some(v) => self.a(k, v),
            None => self,
        }
    }
    pub fn k(mut self, c: El) -> El {
        self.kids.push(Nd::E(c));
        self
    }
    pub fn ks(mut self, c: Vec<El>) -> El {
        self.kids.extend(c.into_iter().map(Nd::E));
        self
    }
    pub fn t(mut self, t: impl ToString) -> El {
        let t = t.to_string();
        if !t.is_empty() {
            self.kids.push(Nd::T(t));
        }
        self
    }
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| if let Nd::E(e) = k { Some(e) } else { None })
    }
    pub fn child(&self, name: &str) -> Option<&El> {
        self.els().find(|e| e.name == name)
    }
    pub fn children<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a El> + 'a {
        self.els().filter(move |e| e.name == name)
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Nd::T(t) => s.push_str(t),
                Nd::E(e) => s.push_str(&e.text()),
            }
        }
        s
    }
    /// pre-order walk
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) {
        f(self);
        for e in self.els() {
            e.walk(f);
        }
    }
    pub fn all<'a>(&'a self, name: &str) -> Vec<&'a El> {
        let mut v = vec![];
        self.walk(&mut |e| {
            if e.name == name {
                v.push(e)
            }
        });
        v
    }
}

pub const NS: [(&str, &str); 36] = [
    ("w", "http://schemas.openxmlformats.org/wordprocessingml/2006/main"),
    ("r", "http://schemas.openxmlformats.org/officeDocument/2006/relationships"),
    ("w14", "http://schemas.microsoft.com/office/word/2010/wordml"),
    ("w15", "http://schemas.microsoft.com/office/word/2012/wordml"),
    ("wp", "http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing"),
    ("a", "http://schemas.openxmlformats.org/drawingml/2006/main"),
    ("pic", "http://schemas.openxmlformats.org/drawingml/2006/picture"),
    ("mc", "http://schemas.openxmlformats.org/markup-compatibility/2006"),
    ("v", "urn:schemas-microsoft-com:vml"),
    ("o", "urn:schemas-microsoft-com:office:office"),
    ("wps", "http://schemas.microsoft.com/office/word/2010/wordprocessingShape"),
    ("wpg", "http://schemas.microsoft.com/office/word/2010/wordprocessingGroup"),
    ("wp14", "http://schemas.microsoft.com/office/word/2010/wordprocessingDrawing"),
    ("m", "http://schemas.openxmlformats.org/officeDocument/2006/math"),
    ("w10", "urn:schemas-microsoft-com:office:word"),
    ("wne", "http://schemas.microsoft.com/office/word/2006/wordml"),
    ("wpc", "http://schemas.microsoft.com/office/word/2010/wordprocessingCanvas"),
    ("wpi", "http://schemas.microsoft.com/office/word/2010/wordprocessingInk"),
    ("w16se", "http://schemas.microsoft.com/office/word/2015/wordml/symex"),
    ("w16cid", "http://schemas.microsoft.com/office/word/2016/wordml/cid"),
    ("w16", "http://schemas.microsoft.com/office/word/2018/wordml"),
    ("w16cex", "http://schemas.microsoft.com/office/word/2018/wordml/cex"),
    ("ct", "http://schemas.openxmlformats.org/package/2006/content-types"),
    ("rel", "http://schemas.openxmlformats.org/package/2006/relationships"),
    ("cp", "http://schemas.openxmlformats.org/package/2006/metadata/core-properties"),
    ("dc", "http://purl.org/dc/elements/1.1/"),
    ("dcterms", "http://purl.org/dc/terms/"),
    ("cust", "http://schemas.openxmlformats.org/officeDocument/2006/custom-properties"),
    ("ext", "http://schemas.openxmlformats.org/officeDocument/2006/extended-properties"),
    ("vt", "http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes"),
    ("ds", "http://schemas.openxmlformats.org/officeDocument/2006/customXml"),
    ("we", "http://schemas.microsoft.com/office/webextensions/webextension/2010/11"),
    ("wetp", "http://schemas.microsoft.com/office/webextensions/taskpanes/2010/11"),
    ("xsi", "http://www.w3.org/2001/XMLSchema-instance"),
    ("c", "http://schemas.openxmlformats.org/drawingml/2006/chart"),
    ("dgm", "http://schemas.openxmlformats.org/drawingml/2006/diagram"),
];

struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
}

pub fn legal_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
fn name_start(c: char) -> bool {
    c == '_' || c == ':' || c.is_alphabetic()
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_numeric() || c == '-' || c == '.' || c == '\u{b7}'
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        let mut lo = self.i.saturating_sub(60);
        while !self.s.is_char_boundary(lo) {
            lo -= 1;
        }
        let mut hi = (self.i + 40).min(self.s.len());
        while !self.s.is_char_boundary(hi) {
            hi -= 1;
        }
        Err(format!("not well-formed at byte {}: {} near …{}…", self.i, m, &self.s[lo..hi]))
    }
    fn looking(&self, p: &str) -> bool {
        self.b[self.i..].starts_with(p.as_bytes())
    }
    fn ws(&mut self) -> bool {
        let st = self.i;
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
        self.i > st
    }
    fn name(&mut self) -> R<String> {
        let rest = &self.s[self.i..];
        let mut it = rest.char_indices();
        match it.next() {
            Some((_, c)) if name_start(c) => {}
            _ => return self.err("name expected"),
        }
        let mut end = rest.len();
        for (j, c) in it {
            if !name_char(c) {
                end = j;
                break;
            }
        }
        let n = rest[..end].to_string();
        self.i += end;
        Ok(n)
    }
    fn until(&mut self, p: &str) -> R<&'a str> {
        match self.s[self.i..].find(p) {
            Some(k) => {
                let t = &self.s[self.i..self.i + k];
                self.i += k + p.len();
                Ok(t)
            }
            None => self.err(&format!("missing {p}")),
        }
    }
    fn entity(&mut self) -> R<char> {
        // at '&'
        self.i += 1;
        let e = {
            let rest = &self.s[self.i..];
            match rest.find(';') {
                Some(k) if k <= 12 => &rest[..k],
                _ => return self.err("bad entity reference"),
            }
        };
        let c = match e {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = e.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = e.strip_prefix('#') {
                    d.parse::<u32>().ok()
                } else {
                    None
                };
                match n.and_then(char::from_u32) {
                    Some(c) if legal_char(c) => c,
                    _ => return self.err("bad entity reference"),
                }
            }
        };
        self.i += e.len() + 1;
        Ok(c)
    }
    fn attr_value(&mut self) -> R<String> {
        let q = match self.b.get(self.i) {
            Some(b'"') => '"',
            Some(b'\'') => '\'',
            _ => return self.err("quote expected"),
        };
        self.i += 1;
        let mut v = String::new();
        loop {
            let c = match self.s[self.i..].chars().next() {
                Some(c) => c,
                None => return self.err("unterminated attribute"),
            };
            if c == q {
                self.i += 1;
                return Ok(v);
            }
            match c {
                '<' => return self.err("'<' in attribute value"),
                '&' => v.push(self.entity()?),
                '\t' | '\n' | '\r' => {
                    v.push(' ');
                    self.i += 1
                }
                c if legal_char(c) => {
                    v.push(c);
                    self.i += c.len_utf8()
                }
                _ => return self.err("illegal character"),
            }
        }
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.looking("<!--") {
                self.comment()?;
            } else if self.looking("<?") {
                self.pi()?;
            } else {
                return Ok(());
            }
        }
    }
    fn comment(&mut self) -> R<()> {
        self.i += 4;
        let t = self.until("-->")?;
        if t.contains("--") || t.ends_with('-') {
            return self.err("'--' in comment");
        }
        Ok(())
    }
    fn pi(&mut self) -> R<()> {
        self.i += 2;
        let n = self.name()?;
        if n.eq_ignore_ascii_case("xml") {
            return self.err("misplaced xml declaration");
        }
        self.until("?>")?;
        Ok(())
    }
}

fn split(n: &str) -> R<(&str, &str)> {
    let mut it = n.split(':');
    let a = it.next().unwrap();
    match (it.next(), it.next()) {
        (None, _) => Ok(("", a)),
        (Some(b), None) if !a.is_empty() && !b.is_empty() => Ok((a, b)),
        _ => Err(format!("bad qualified name {n}")),
    }
}

fn canon(uri: &str, local: &str) -> String {
    if uri.is_empty() {
        return local.to_string();
    }
    if uri == "http://www.w3.org/XML/1998/namespace" {
        return format!("xml:{local}");
    }
    for (p, u) in NS {
        if u == uri {
            return format!("{p}:{local}");
        }
    }
    format!("{{{uri}}}{local}")
}

/// Parse a complete document. Element and attribute names come back with the
/// canonical prefix of their namespace URI (see `NS`), so prefix choice is irrelevant.
pub fn parse(bytes: &[u8]) -> R<El> {
    let s = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {e}"))?;
    let s = s.strip_prefix('\u{feff}').unwrap_or(s);
    let mut p = P { s, b: s.as_bytes(), i: 0 };
    if p.looking("<?xml") && p.b.get(5).map_or(false, |c| c.is_ascii_whitespace()) {
        p.i = 5;
        let d = p.until("?>")?;
        if !d.contains("version=") {
            return Err("xml declaration lacks version".into());
        }
    }
    p.misc()?;
    if p.looking("<!DOCTYPE") {
        return p.err("doctype");
    }
    let mut scope: Vec<HashMap<String, String>> =
        vec![HashMap::from([("xml".to_string(), "http://www.w3.org/XML/1998/namespace".to_string())])];
    let root = element(&mut p, &mut scope, 0)?;
    p.misc()?;
    if p.i != p.b.len() {
        return p.err("content after root element");
    }
    Ok(root)
}

fn lookup(scope: &[HashMap<String, String>], p: &str) -> Option<String> {
    scope.iter().rev().find_map(|m| m.get(p)).cloned()
}

fn element(p: &mut P, scope: &mut Vec<HashMap<String, String>>, depth: usize) -> R<El> {
    if depth > 2000 {
        return p.err("too deep");
    }
    if !p.looking("<") {
        return p.err("element expected");
    }
    p.i += 1;
    let qn = p.name()?;
    let mut raw: Vec<(String, String)> = vec![];
    let empty;
    loop {
        let sp = p.ws();
        if p.looking("/>") {
            p.i += 2;
            empty = true;
            break;
        }
        if p.looking(">") {
            p.i += 1;
            empty = false;
            break;
        }
        if !sp {
            return p.err("space expected in tag");
        }
        let an = p.name()?;
        p.ws();
        if !p.looking("=") {
            return p.err("'=' expected");
        }
        p.i += 1;
        p.ws();
        let v = p.attr_value()?;
        if raw.iter().any(|(n, _)| *n == an) {
            return p.err(&format!("duplicate attribute {an}"));
        }
        raw.push((an, v));
    }
    let mut map = HashMap::new();
    for (n, v) in &raw {
        if n == "xmlns" {
            map.insert(String::new(), v.clone());
        } else if let Some(pr) = n.strip_prefix("xmlns:") {
            if v.is_empty() {
                return p.err("empty namespace for prefix");
            }
            map.insert(pr.to_string(), v.clone());
        }
    }
    scope.push(map);
    let (pr, local) = split(&qn)?;
    let uri = match lookup(scope, pr) {
        Some(u) => u,
        None if pr.is_empty() => String::new(),
        None => return p.err(&format!("undeclared prefix {pr}")),
    };
    let mut e = El { name: canon(&uri, local), attrs: vec![], kids: vec![] };
    for (n, v) in raw {
        if n == "xmlns" || n.starts_with("xmlns:") {
            continue;
        }
        let (apr, al) = split(&n)?;
        let an = if apr.is_empty() {
            al.to_string()
        } else {
            match lookup(scope, apr) {
                Some(u) => canon(&u, al),
                None => return p.err(&format!("undeclared prefix {apr}")),
            }
        };
        if e.attrs.iter().any(|(x, _)| *x == an) {
            return p.err(&format!("duplicate attribute {an}"));
        }
        e.attrs.push((an, v));
    }
    if !empty {
        let mut txt = String::new();
        loop {
            if p.i >= p.b.len() {
                return p.err(&format!("missing </{qn}>"));
            }
            if p.looking("</") {
                p.i += 2;
                let en = p.name()?;
                if en != qn {
                    return p.err(&format!("</{en}> closes <{qn}>"));
                }
                p.ws();
                if !p.looking(">") {
                    return p.err("'>' expected");
                }
                p.i += 1;
                break;
            } else if p.looking("<!--") {
                p.comment()?;
            } else if p.looking("<![CDATA[") {
                p.i += 9;
                let t = p.until("]]>")?;
                if !t.chars().all(legal_char) {
                    return p.err("illegal character");
                }
                txt.push_str(t);
            } else if p.looking("<?") {
                p.pi()?;
            } else if p.looking("<") {
                if !txt.is_empty() {
                    e.kids.push(Nd::T(std::mem::take(&mut txt)));
                }
                let c = element(p, scope, depth + 1)?;
                e.kids.push(Nd::E(c));
            } else if p.looking("&") {
                txt.push(p.entity()?);
            } else {
                if p.looking("]]>") {
                    return p.err("']]>' in text");
                }
                let c = p.s[p.i..].chars().next().unwrap();
                if !legal_char(c) {
                    return p.err("illegal character");
                }
                p.i += c.len_utf8();
                if c == '\r' {
                    if p.looking("\n") {
                        p.i += 1;
                    }
                    txt.push('\n');
                } else {
                    txt.push(c);
                }
            }
        }
        if !txt.is_empty() {
            e.kids.push(Nd::T(txt));
        }
    }
    scope.pop();
    Ok(e)
}

/// Serialization ----------------------------------------------------------------

pub fn esc_text(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}
pub fn esc_attr(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '"' => o.push_str("&quot;"),
            '\n' => o.push_str("&#10;"),
            '\t' => o.push_str("&#9;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}

pub const DECL: &str = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n";

fn write_plain(e: &El, o: &mut String, xmlns: &str) {
    o.push('<');
    o.push_str(&e.name);
    o.push_str(xmlns);
    for (k, v) in &e.attrs {
        o.push_str(&format!(" {k}=\"{}\"", esc_attr(v)));
    }
    if e.kids.is_empty() {
        o.push_str("/>");
        return;
    }
    o.push('>');
    for k in &e.kids {
        match k {
            Nd::T(t) => o.push_str(&esc_text(t)),
            Nd::E(c) => write_plain(c, o, ""),
        }
    }
    o.push_str(&format!("</{}>", e.name));
}

/// All namespace declarations used by WordprocessingML parts.
pub fn word_ns() -> String {
    NS[..22].iter().map(|(p, u)| format!(" xmlns:{p}=\"{u}\"")).collect()
}

/// Canonical serialization of a Word part (all `NS` prefixes of Word declared at the root).
pub fn ser_word(e: &El) -> String {
    let mut o = String::from(DECL);
    write_plain(e, &mut o, &word_ns());
    o
}
pub fn ser_with(e: &El, xmlns: &str) -> String {
    let mut o = String::from(DECL);
    write_plain(e, &mut o, xmlns);
    o
}
pub fn frag(e: &El) -> String {
    let mut o = String::new();
    write_plain(e, &mut o, "");
    o
}

/// Comparison ----------------------------------------------------------------

pub fn sorted_attrs(e: &El) -> BTreeMap<String, String> {
    e.attrs.iter().cloned().collect()
}

/// First structural difference (attributes as sets, children in order).
/// First difference: (place for signatures, message).
pub fn diff(exp: &El, got: &El, path: &str) -> Option<(String, String)> {
    let here = format!("{path}/{}", exp.name);
    if exp.name != got.name {
        return Some((format!("{path}/-{}+{}", exp.name, got.name), format!("{path}: expected {} got {}", frag(exp), frag(got))));
    }
    let (a, b) = (sorted_attrs(exp), sorted_attrs(got));
    if a != b {
        let mut k: Vec<&str> = vec![];
        for (n, v) in &a {
            if !b.iter().any(|(m, w)| m == n && w == v) {
                k.push(n);
            }
        }
        for (n, _) in &b {
            if !a.iter().any(|(m, _)| m == n) {
                k.push(n);
            }
        }
        return Some((format!("{here}/@{}", k.first().unwrap_or(&"")), format!("{here}: attributes expected {a:?} got {b:?}")));
    }
    let sh = |n: Option<&Nd>| match n {
        None => "nothing".to_string(),
        Some(Nd::T(t)) => format!("text {t:?}"),
        Some(Nd::E(e)) => frag(e),
    };
    for i in 0..exp.kids.len().max(got.kids.len()) {
        match (exp.kids.get(i), got.kids.get(i)) {
            (Some(Nd::E(x)), Some(Nd::E(y))) if x.name == y.name => {
                if let Some(d) = diff(x, y, &format!("{here}[{i}]")) {
                    return Some(d);
                }
            }
            (Some(Nd::T(x)), Some(Nd::T(y))) if x == y => {}
            (x, y) => {
                let m = format!("{here}[{i}]: expected {} got {}", sh(x), sh(y));
                let place = match (x, y) {
                    (Some(Nd::T(_)), Some(Nd::T(_))) => "text".to_string(),
                    (Some(Nd::E(x)), _) if !got.els().any(|g| g.name == x.name) => format!("-{}", x.name),
                    (_, Some(Nd::E(y))) => format!("+{}", y.name),
                    (Some(Nd::E(x)), _) => format!("-{}", x.name),
                    (_, Some(Nd::T(_))) => "+text".to_string(),
                    _ => "-text".to_string(),
                };
                return Some((format!("{here}/{place}"), m));
            }
        }
    }
    None
}
