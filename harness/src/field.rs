//! Field instructions.
use crate::doc::Ctx;
use docx_rs::*;

/// The switches of a table of contents field.
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Sw {
    pub o: Option<(usize, usize)>,
    pub l: Option<(usize, usize)>,
    pub n: Option<(usize, usize)>,
    pub b: Option<String>,
    pub t: Vec<(String, usize)>,
    pub p: Option<String>,
    pub d: Option<String>,
    pub a: Option<String>,
    pub c: Option<String>,
    pub s: Option<String>,
    pub f: Option<Option<String>>,
    pub h: bool,
    pub w: bool,
    pub x: bool,
    pub u: bool,
    pub z: bool,
}

/// An instruction as sorted switches: their order says nothing.
pub fn switches(s: &str) -> String {
    let mut toks = vec![];
    let mut cs = s.trim().chars().peekable();
    while let Some(c) = cs.next() {
        if c == ' ' {
            continue;
        }
        let mut t = String::new();
        if c == '"' {
            t.push('"');
            for c in cs.by_ref() {
                if c == '"' {
                    break;
                }
                t.push(c);
            }
        } else {
            t.push(c);
            while let Some(c) = cs.peek() {
                if *c == ' ' || *c == '"' {
                    break;
                }
                t.push(*c);
                cs.next();
            }
        }
        toks.push(t);
    }
    let mut out: Vec<String> = vec![];
    for t in toks {
        match t.strip_prefix('"') {
            Some(q) if !out.is_empty() => {
                let l = out.last_mut().unwrap();
                l.push_str(&format!(" [{q}]"));
            }
            _ if t.starts_with('\\') || out.is_empty() => out.push(t),
            _ => {
                let l = out.last_mut().unwrap();
                l.push_str(&format!(" [{t}]"));
            }
        }
    }
    if out.len() > 1 {
        out[1..].sort();
    }
    out.join(" ")
}

impl Sw {
    pub fn gen(cx: &mut Ctx, wild: bool) -> Sw {
        let mut s = Sw::default();
        fn range(cx: &mut Ctx) -> (usize, usize) {
            let a = 1 + cx.g.n(9);
            (a, a + cx.g.n(10 - a))
        }
        let label = |cx: &mut Ctx| -> String {
            if wild {
                label(cx)
            } else {
                cx.g.ident()
            }
        };
        for _ in 0..cx.g.len(0, 5) {
            match cx.g.n(15) {
                0 => s.o = Some(range(cx)),
                1 => s.l = Some(range(cx)),
                2 => s.n = Some(range(cx)),
                3 => s.b = Some(cx.g.ident()),
                4 => s.p = Some(label(cx)),
                5 => s.d = Some(label(cx)),
                6 => s.a = Some(label(cx)),
                7 => s.c = Some(label(cx)),
                8 => s.s = Some(cx.g.ident()),
                9 => s.f = Some(if cx.g.coin() { None } else { Some(label(cx)) }),
                10 => s.h = true,
                11 => s.w = true,
                12 => s.x = true,
                13 => s.u = true,
                _ => s.z = true,
            }
        }
        s
    }
    pub fn lib(&self) -> InstrToC {
        let mut i = InstrToC::new();
        if let Some(v) = self.o {
            i = i.heading_styles_range(v.0, v.1);
        }
        if let Some(v) = self.l {
            i = i.tc_field_level_range(v.0, v.1);
        }
        if let Some(v) = self.n {
            i = i.omit_page_numbers_level_range(v.0, v.1);
        }
        if let Some(v) = &self.b {
            i = i.entry_bookmark_name(v);
        }
        for (n, l) in &self.t {
            i = i.add_style_with_level(StyleWithLevel::new(n, *l));
        }
        if let Some(v) = &self.p {
            i = i.entry_and_page_number_separator(v);
        }
        if let Some(v) = &self.d {
            i = i.sequence_and_page_numbers_separator(v);
        }
        if let Some(v) = &self.a {
            i = i.caption_label(v);
        }
        if let Some(v) = &self.c {
            i = i.caption_label_including_numbers(v);
        }
        if let Some(v) = &self.s {
            i = i.seq_field_identifier_for_prefix(v);
        }
        if let Some(v) = &self.f {
            i = i.tc_field_identifier(v.clone());
        }
        if self.h {
            i = i.hyperlink();
        }
        if self.w {
            i = i.preserve_tab();
        }
        if self.x {
            i = i.preserve_new_line();
        }
        if self.u {
            i = i.use_applied_paragraph_line_level();
        }
        if self.z {
            i = i.hide_tab_and_page_numbers_in_webview();
        }
        i
    }
    /// One token per switch, with its argument.
    pub fn tokens(&self) -> Vec<(String, Option<String>)> {
        let mut v = vec![];
        let r = |x: (usize, usize)| Some(format!("{}-{}", x.0, x.1));
        let mut put = |s: &str, a: Option<String>| v.push((format!("\\{s}"), a));
        if let Some(x) = self.o {
            put("o", r(x));
        }
        if let Some(x) = self.l {
            put("l", r(x));
        }
        if let Some(x) = self.n {
            put("n", r(x));
        }
        if !self.t.is_empty() {
            put("t", Some(self.t.iter().map(|(n, l)| format!("{n},{l}")).collect::<Vec<_>>().join(",")));
        }
        for (k, x) in [("b", &self.b), ("p", &self.p), ("d", &self.d), ("a", &self.a), ("c", &self.c), ("s", &self.s)] {
            if let Some(x) = x {
                put(k, Some(x.clone()));
            }
        }
        if let Some(x) = &self.f {
            put("f", x.clone());
        }
        for (k, x) in [("h", self.h), ("w", self.w), ("x", self.x), ("u", self.u), ("z", self.z)] {
            if x {
                put(k, None);
            }
        }
        v
    }
    pub fn text(&self) -> String {
        let mut s = "TOC".to_string();
        for (k, a) in self.tokens() {
            s.push_str(&format!(" {k}"));
            if let Some(a) = a {
                s.push_str(&format!(" \"{a}\""));
            }
        }
        s
    }
}

/// A label: words, or characters markup needs escaped (quotes would end it).
pub fn label(cx: &mut Ctx) -> String {
    match cx.g.n(4) {
        0 => cx.g.ident(),
        1 => format!("{} {}", cx.g.ident(), cx.g.ident()),
        2 => format!("{}&{}", cx.g.ident(), cx.g.ident()),
        _ => format!("<{}>", cx.g.ident()),
    }
}


/// An instruction and the text it must become.
pub fn instr(cx: &mut Ctx) -> (InstrText, String) {
    match cx.g.n(7) {
        0 if !cx.cfg.f.read => {
            let s = Sw::gen(cx, true);
            cx.cls("contents field");
            (InstrText::TOC(s.lib()), s.text())
        }
        1 => {
            let t = label(cx);
            let (mut v, mut s) = (InstrTC::new(t.clone()), format!("TC \"{t}\""));
            if cx.g.coin() {
                let f = if cx.g.coin() { cx.g.ident() } else { format!("{}&{}", cx.g.ident(), cx.g.ident()) };
                v = v.item_type_identifier(f.clone());
                s.push_str(&format!(" \\f {f}"));
            }
            if cx.g.coin() {
                let l = cx.g.n(10);
                v = v.level(l);
                s.push_str(&format!(" \\l {l}"));
            }
            if cx.g.coin() {
                v = v.omits_page_number();
                s.push_str(" \\n");
            }
            cx.cls("contents entry field");
            (InstrText::TC(v), s)
        }
        2 => {
            let t = cx.g.ident();
            let (mut v, mut s) = (InstrPAGEREF::new(t.clone()), format!("PAGEREF {t}"));
            let (p, h) = (cx.g.coin(), cx.g.coin());
            if h {
                v = v.hyperlink();
            }
            if p {
                v = v.relative_position();
                s.push_str(" \\p");
            }
            if h {
                s.push_str(" \\h");
            }
            cx.cls("page reference field");
            (InstrText::PAGEREF(v), s)
        }
        3 => {
            let t = if cx.g.coin() { format!("http://x/?a={}&b={}", cx.g.ident(), cx.g.ident()) } else { cx.g.ident() };
            let mut v = InstrHyperlink::new(t.clone());
            let a = cx.g.coin();
            v.anchor = a;
            cx.cls("hyperlink field");
            (InstrText::HYPERLINK(v), if a { format!("HYPERLINK \\l \"{t}\"") } else { format!("HYPERLINK \"{t}\"") })
        }
        4 => (InstrText::PAGE(InstrPAGE::new()), "PAGE".into()),
        5 => (InstrText::NUMPAGES(InstrNUMPAGES::new()), "NUMPAGES".into()),
        _ => {
            let t = format!("{} {}", cx.g.ident(), label(cx));
            cx.cls("other field");
            (InstrText::Unsupported(t.clone()), t)
        }
    }
}
