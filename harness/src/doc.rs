//! Paired generation of document content: every generated element carries the
//! library value, the markup a consumer must see and the JSON a reader must yield.

use crate::fmt::*;
use crate::gen::{hash_bytes, G};
use crate::xml::{el, El, Nd};
use docx_rs::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone)]
pub struct M<T> {
    pub v: T,
    pub x: Vec<El>,
    pub j: Vec<Value>,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub f: FmtCfg,
    /// text may contain markup characters, entity look-alikes, edge whitespace
    pub any_text: bool,
    /// no text that looks like a character or entity reference
    pub no_refs: bool,
    pub tracked: bool,
    pub links: bool,
    pub comments: bool,
    pub images: bool,
    pub fields: bool,
    pub sdt: bool,
    pub tables: bool,
    pub numbering: bool,
    pub bookmarks: bool,
    pub footnotes: bool,
    /// pictures may have ids of their own
    pub pic_ids: bool,
    /// text boxes and shapes, which are only read
    pub boxes: bool,
    /// drawings the library does not represent
    pub charts: bool,
    /// maximal number of formatting settings per element
    pub fmt: usize,
    /// maximal nesting of tables
    pub depth: usize,
    /// kinds of paragraph and run content to prefer
    pub bias: &'static [usize],
    pub rbias: &'static [usize],
}

/// Kinds of paragraph content, for `Cfg::bias`.
pub const K_LINK: usize = 8;
pub const K_INS: usize = 9;
pub const K_DEL: usize = 10;
pub const K_MOVE: usize = 11;
pub const K_BOOKMARK: usize = 12;
pub const K_COMMENT: usize = 13;
pub const K_SDT: usize = 14;
pub const K_FIELD: usize = 15;
/// Kinds of run content, for `Cfg::rbias`.
pub const R_PIC: usize = 14;
pub const R_NOTE: usize = 15;

impl Cfg {
    pub fn write_all() -> Cfg {
        Cfg {
            f: FmtCfg { read: false, wild: true },
            any_text: true,
            no_refs: false,
            tracked: true,
            links: true,
            comments: true,
            images: true,
            fields: true,
            sdt: true,
            tables: true,
            numbering: true,
            bookmarks: true,
            footnotes: true,
            pic_ids: false,
            boxes: false,
            charts: false,
            fmt: 3,
            depth: 3,
            bias: &[],
            rbias: &[],
        }
    }
    pub fn plain() -> Cfg {
        Cfg {
            f: FmtCfg { read: true, wild: false },
            any_text: false,
            no_refs: false,
            tracked: false,
            links: false,
            comments: false,
            images: false,
            fields: false,
            sdt: false,
            tables: false,
            numbering: false,
            bookmarks: false,
            footnotes: false,
            pic_ids: false,
            boxes: false,
            charts: false,
            fmt: 0,
            depth: 0,
            bias: &[],
            rbias: &[],
        }
    }
    pub fn read_all() -> Cfg {
        Cfg { f: FmtCfg { read: true, wild: false }, footnotes: false, ..Cfg::write_all() }
    }
}

#[derive(Clone, Debug)]
pub struct CommentX {
    pub id: usize,
    pub author: String,
    pub date: String,
    pub parent: Option<usize>,
    pub x: Vec<El>,
    pub j: Vec<Value>,
}
impl CommentX {
    pub fn j(&self) -> Value {
        json!({"id": self.id, "author": self.author, "date": self.date, "children": self.j, "parentCommentId": self.parent})
    }
}

pub struct Ctx<'a> {
    pub g: &'a mut G,
    pub cfg: Cfg,
    pub next_id: usize,
    pub comments: Vec<CommentX>,
    pub footnotes: Vec<(usize, Vec<El>)>,
    /// images by placeholder
    pub images: BTreeMap<String, Vec<u8>>,
    pub links: Vec<String>,
    pub classes: BTreeSet<&'static str>,
    pub in_comment: bool,
    pub num_used: bool,
    pub paragraphs: usize,
    /// ids of paragraphs, when they are to be told apart by a style of their own
    pub ids: Option<Vec<String>>,
}

impl<'a> Ctx<'a> {
    pub fn new(g: &'a mut G, cfg: Cfg) -> Ctx<'a> {
        Ctx {
            g,
            cfg,
            next_id: usize::MAX,
            comments: vec![],
            footnotes: vec![],
            images: BTreeMap::new(),
            links: vec![],
            classes: BTreeSet::new(),
            in_comment: false,
            num_used: false,
            paragraphs: 0,
            ids: None,
        }
    }
    pub fn cls(&mut self, c: &'static str) {
        self.classes.insert(c);
    }
    pub fn id(&mut self) -> usize {
        // any increasing sequence of ids will do, most often 1, 2, 3
        self.next_id = match self.next_id {
            usize::MAX => *self.g.pick(&[1, 1, 0, 7]),
            n if self.g.chance(1, 12) => n + *self.g.pick(&[2, 100, 1 << 20]),
            n => n + 1,
        };
        self.next_id
    }
    /// A text which may be empty.
    pub fn val(&mut self) -> String {
        if self.g.chance(1, 10) {
            String::new()
        } else {
            self.txt()
        }
    }
    pub fn txt(&mut self) -> String {
        if self.cfg.any_text {
            let t = self.g.text();
            if self.cfg.no_refs {
                no_ref(t)
            } else {
                t
            }
        } else {
            self.g.plain_text()
        }
    }
    pub fn author(&mut self) -> String {
        if self.g.coin() {
            self.val()
        } else {
            "bokuweb".into()
        }
    }
}

pub fn t_el(name: &str, t: &str) -> El {
    el(name).a("xml:space", "preserve").t(t)
}

/// The text `add_text` is documented to keep: line feeds are dropped by it, and
/// carriage returns never reach the markup.
pub fn kept(t: &str) -> String {
    t.chars().filter(|c| *c != '\n' && *c != '\r').collect()
}

pub const PNG: &[u8] = &[
    0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a, 0, 0, 0, 0x0d, 0x49, 0x48, 0x44, 0x52, 0, 0, 0, 1, 0, 0, 0, 1, 8, 6, 0, 0, 0, 0x1f,
    0x15, 0xc4, 0x89, 0, 0, 0, 0x0d, 0x49, 0x44, 0x41, 0x54, 0x78, 0x9c, 0x63, 0xf8, 0xcf, 0xc0, 0xf0, 0x1f, 0, 5, 0, 1, 0xff, 0x56,
    0xc7, 0x2f, 0x0d, 0, 0, 0, 0, 0x49, 0x45, 0x4e, 0x44, 0xae, 0x42, 0x60, 0x82,
];

/// a distinct, decodable PNG per number (text chunk with the number)
pub fn png(n: u64) -> Vec<u8> {
    let mut v = PNG[..PNG.len() - 12].to_vec();
    let data = format!("n\0{n}");
    let mut chunk = b"tEXt".to_vec();
    chunk.extend_from_slice(data.as_bytes());
    v.extend_from_slice(&(data.len() as u32).to_be_bytes());
    let crc = crc32(&chunk);
    v.extend_from_slice(&chunk);
    v.extend_from_slice(&crc.to_be_bytes());
    v.extend_from_slice(&PNG[PNG.len() - 12..]);
    v
}
/// One of a few images; the last two differ but have the same length and checksum.
pub fn some_image(n: usize) -> Vec<u8> {
    if n < 4 {
        return png(n as u64);
    }
    let mut v = png(9);
    let at = v.len() * 8;
    v.extend_from_slice(&[0; 8]);
    if n > 4 {
        // a multiple of the generator polynomial added to the message
        for i in 0..33 {
            if 0x1_04c1_1db7u64 >> (32 - i) & 1 == 1 {
                v[(at + i) / 8] ^= 1 << ((at + i) % 8);
            }
        }
    }
    v
}
pub fn crc32(b: &[u8]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}
pub fn img_ph(b: &[u8]) -> String {
    format!("IMG:{:016x}", hash_bytes(b))
}

/// What kind of run content is allowed.
#[derive(Clone, Copy, PartialEq)]
pub enum RK {
    Normal,
    Deleted,
}

pub fn run(cx: &mut Ctx, k: RK) -> M<Run> {
    let c = cx.cfg.f;
    let (sets, mut st) = rs_history(cx.g, RTarget::Run, c, cx.cfg.fmt);
    if sets.len() >= 2 {
        cx.cls("run formatting history >= 2");
    }
    let split = cx.g.n(sets.len() + 1);
    let mut r = Run::new();
    let mut x = vec![];
    let mut j = vec![];
    // formatting may also arrive as a prepared property
    if cx.g.chance(2, 3) {
        for s in &sets[..split] {
            r = rs_run(r, s);
        }
    } else {
        let (ps, pst) = rs_history(cx.g, RTarget::Prop, c, cx.cfg.fmt);
        let mut p = RunProperty::new();
        for s in &ps {
            p = rs_prop(p, s);
        }
        r.run_property = p;
        let mut st2 = pst;
        for s in &sets[..split] {
            r = rs_run(r, s);
        }
        for s in &sets {
            st2.apply(s);
        }
        st = st2;
        cx.cls("prepared run property");
    }
    let n = cx.g.len(1, 4);
    for _ in 0..n {
        let bias = cx.cfg.rbias;
        let kind = if k == RK::Deleted && cx.g.chance(2, 3) {
            0
        } else if !bias.is_empty() && cx.g.coin() {
            *cx.g.pick(bias)
        } else {
            cx.g.n(if cx.cfg.boxes { 19 } else { 17 })
        };
        match kind {
            16 if cx.cfg.fields && !(cx.cfg.charts && k == RK::Normal && cx.g.coin()) && !(k == RK::Deleted && cx.cfg.f.read) => {
                let (i, t) = crate::field::instr(cx);
                if k == RK::Deleted {
                    let d = match i {
                        InstrText::TOC(x) => DeleteInstrText::TOC(x),
                        InstrText::TC(x) => DeleteInstrText::TC(x),
                        InstrText::PAGEREF(x) => DeleteInstrText::PAGEREF(x),
                        InstrText::HYPERLINK(x) => DeleteInstrText::HYPERLINK(x),
                        _ => DeleteInstrText::Unsupported(t.clone()),
                    };
                    r = r.add_delete_instr_text(d);
                    x.push(el("w:delInstrText").t(&t));
                } else {
                    let fc = |k: &str| (el("w:fldChar").a("w:fldCharType", k).a("w:dirty", false), json!({"type": "fieldChar", "data": {"fieldCharType": k, "dirty": false}}));
                    let whole = match i {
                        // a table of contents entry is also added as a whole field
                        InstrText::TC(i) if cx.g.coin() => {
                            r = r.add_tc(i);
                            true
                        }
                        i => {
                            r = r.add_instr_text(i);
                            false
                        }
                    };
                    if whole {
                        x.push(fc("begin").0);
                        j.push(fc("begin").1);
                    }
                    x.push(el("w:instrText").t(&t));
                    j.push(json!({"type": "instrTextString", "data": t}));
                    if whole {
                        x.push(fc("end").0);
                        j.push(fc("end").1);
                        cx.cls("contents entry field");
                    }
                }
                cx.cls("field instruction");
            }
            0..=7 => {
                let t = cx.txt();
                if k == RK::Deleted {
                    r = r.add_delete_text(t.clone());
                    x.push(t_el("w:delText", &kept(&t)));
                    j.push(json!({"type": "deleteText", "data": {"preserveSpace": true, "text": kept(&t)}}));
                } else {
                    r = r.add_text(t.clone());
                    x.push(t_el("w:t", &kept(&t)));
                    j.push(json!({"type": "text", "data": {"preserveSpace": true, "text": kept(&t)}}));
                }
            }
            8 => {
                r = r.add_tab();
                x.push(el("w:tab"));
                j.push(json!({"type": "tab"}));
            }
            9 => {
                let (a, b, l) = (cx.g.n(3), cx.g.n(2), cx.g.n(LEADERS.len()));
                r = r.add_ptab(PositionalTab::new(PTALIGNS[a].0, PTREL[b].0, LEADERS[l].0));
                x.push(el("w:ptab").a("w:alignment", PTALIGNS[a].1).a("w:relativeTo", PTREL[b].1).a("w:leader", LEADERS[l].1));
                j.push(json!({"type": "ptab", "data": {"alignment": PTALIGNS[a].1, "relativeTo": PTREL[b].1, "leader": LEADERS[l].1}}));
                cx.cls("positional tab");
            }
            10 => {
                let b = cx.g.n(3);
                r = r.add_break(BREAKS[b].0);
                x.push(el("w:br").a("w:type", BREAKS[b].1));
                j.push(json!({"type": "break", "data": {"breakType": BREAKS[b].1}}));
            }
            11 => {
                r = r.add_carriage_return();
                x.push(el("w:cr"));
                j.push(json!({"type": "carriageReturn"}));
            }
            12 => {
                let (f, c) = (name_str(cx.g, c.wild), format!("F{:03X}", cx.g.below(0x1000)));
                r = r.add_sym(Sym::new(f.clone(), c.clone()));
                x.push(el("w:sym").a("w:font", &f).a("w:char", &c));
                j.push(json!({"type": "sym", "data": {"font": f, "char": c}}));
            }
            13 if cx.cfg.fields => {
                let i = cx.g.n(3);
                let d = cx.g.coin();
                r = r.add_field_char(FLDCHARS[i].0, d);
                x.push(el("w:fldChar").a("w:fldCharType", FLDCHARS[i].1).a("w:dirty", d));
                j.push(json!({"type": "fieldChar", "data": {"fieldCharType": FLDCHARS[i].1, "dirty": d}}));
                cx.cls("field character");
            }
            14 if cx.cfg.images => {
                let (pic, px, pj) = pic(cx);
                r = r.add_image(pic);
                x.push(px);
                j.push(pj);
                cx.cls("image");
            }
            15 if cx.cfg.footnotes && !cx.in_comment => {
                // the library turns the run into a footnote reference run
                let (f, id) = footnote(cx);
                r = r.add_footnote_reference(f);
                st = RState { style: Some("FootnoteReference".into()), ..Default::default() };
                for s in &sets[split..] {
                    st.apply(s);
                }
                x.push(el("w:footnoteReference").a("w:id", id));
                j.push(json!({"type": "footnoteReference", "data": {"id": id}}));
                cx.cls("footnote");
            }
            17 if k == RK::Normal && cx.cfg.boxes => {
                let (bx, bj) = text_box(cx);
                x.push(bx);
                j.push(bj);
            }
            16 if cx.cfg.charts => {
                let c = el("c:chart").a("xmlns:c", "http://schemas.openxmlformats.org/drawingml/2006/chart").a("r:id", "rIdI");
                let g = el("a:graphic").k(el("a:graphicData").a("uri", "http://schemas.openxmlformats.org/drawingml/2006/chart").k(c));
                x.push(el("w:drawing").k(el("wp:inline").a("distT", 0).a("distB", 0).a("distL", 0).a("distR", 0).k(el("wp:extent").a("cx", 9525).a("cy", 9525)).k(el("wp:docPr").a("id", 2).a("name", "Chart")).k(g)));
                cx.cls("chart");
            }
            18 if cx.cfg.boxes => {
                let (bx, bj) = shape(cx);
                x.push(bx);
                j.push(bj);
            }
            _ if k == RK::Deleted => {
                let t = cx.g.word();
                r = r.add_delete_text(t.clone());
                x.push(t_el("w:delText", &t));
                j.push(json!({"type": "deleteText", "data": {"preserveSpace": true, "text": t}}));
            }
            _ => {
                let t = cx.g.word();
                r = r.add_text(t.clone());
                x.push(t_el("w:t", &t));
                j.push(json!({"type": "text", "data": {"preserveSpace": true, "text": t}}));
            }
        }
    }
    for s in &sets[split..] {
        r = rs_run(r, s);
    }
    let mut e = el("w:r").k(st.x());
    e = e.ks(x);
    M { v: r, x: vec![e], j: vec![json!({"type": "run", "data": {"runProperty": st.j(), "children": j}})] }
}

/// A text box: placed like a picture, holding blocks.
fn text_box(cx: &mut Ctx) -> (El, Value) {
    let old = cx.cfg.clone();
    cx.cfg = Cfg { boxes: false, comments: false, depth: 1, fmt: 1, ..old.clone() };
    let (_, x, j) = pic(cx);
    let mut x = x.a("box", 1);
    let mut v = vec![];
    for _ in 0..cx.g.len(1, 3) {
        if cx.g.chance(1, 4) {
            let t = table(cx, 1);
            x = x.ks(t.x);
            v.extend(t.j);
        } else {
            let p = para(cx);
            x = x.ks(p.x);
            v.extend(p.j);
        }
    }
    cx.cfg = old;
    let mut d = j["data"].clone();
    d["type"] = json!("textBox");
    d["children"] = Value::Array(v);
    for k in ["id", "size", "rot"] {
        d.as_object_mut().unwrap().remove(k);
    }
    cx.cls("text box");
    let x = if cx.g.coin() {
        el("mc:AlternateContent").k(el("mc:Choice").a("Requires", "wps").k(x)).k(el("mc:Fallback").k(shape(cx).0))
    } else {
        x
    };
    (x, json!({"type": "drawing", "data": d}))
}

/// A shape in the older drawing language.
fn shape(cx: &mut Ctx) -> (El, Value) {
    let mut e = el("v:shape").a("id", "_x0000_i1025").a("type", "#_x0000_t75");
    let mut d = json!({});
    if cx.g.chance(3, 4) {
        let s = format!("width:{}pt;height:{}pt", cx.g.num(1, 999), cx.g.num(1, 999));
        e = e.a("style", &s);
        d["style"] = json!(s);
    }
    if cx.g.chance(1, 4) {
        // words that are part of the shape
        e = e.k(el("v:textbox").k(el("w:txbxContent").k(el("w:p").k(el("w:r").k(t_el("w:t", "in the shape"))))));
    }
    if cx.g.coin() {
        e = e.k(el("v:imagedata").a("r:id", "rIdI").a("o:title", ""));
        d["imageData"] = json!({"id": "rIdI"});
    }
    cx.cls("shape");
    let mut p = el("w:pict");
    if cx.g.coin() {
        p = p.k(el("v:shapetype").a("id", "_x0000_t75").a("coordsize", "21600,21600").k(el("v:stroke").a("joinstyle", "miter")).k(el("v:path")));
    }
    (p.k(e), json!({"type": "shape", "data": d}))
}

pub fn footnote(cx: &mut Ctx) -> (Footnote, usize) {
    let mut f = Footnote::new();
    let id = f.id;
    let n = cx.g.len(0, 2);
    let mut xs = vec![];
    for _ in 0..n {
        let t = cx.txt();
        let p = mark(cx, Paragraph::new().add_run(Run::new().add_text(t.clone())));
        f.add_content(p);
        xs.push(el("w:p").k(el("w:r").k(t_el("w:t", &kept(&t)))));
    }
    if n == 0 {
        xs.push(el("w:p"));
    }
    cx.footnotes.push((id, xs));
    (f, id)
}

pub fn pic(cx: &mut Ctx) -> (Pic, El, Value) {
    let b = some_image(cx.g.n(6));
    let ph = img_ph(&b);
    cx.images.insert(ph.clone(), b.clone());
    let (pw, ph_) = (cx.g.num(0, 460_000) as u32, cx.g.num(0, 1000) as u32);
    let px = |v: u32| (v as u64 * 9525).min(u32::MAX as u64) as u32;
    let (mut w, mut h) = (px(pw), px(ph_));
    let mut p = Pic::new_with_dimensions(b, pw, ph_);
    if cx.g.chance(3, 4) {
        (w, h) = (cx.g.num(1, 1_000_000) as u32, cx.g.num(1, 1_000_000) as u32);
        p = p.size(w, h);
    }
    if cx.cfg.pic_ids && cx.g.chance(1, 3) {
        p = p.id(*cx.g.pick(&["a", "a_2", "a_3", "b", "rIdImage1", "rIdImage2", "headerrIdImage1", "rId1", "rId5", "rIdHeader1", "rId10"]));
        cx.cls("picture with an id");
    }
    let mut s = PicX::default();
    for _ in 0..cx.g.len(0, 6) {
        let emu = |g: &mut G| g.num(-10_000_000, 10_000_000) as i32;
        let dist = |g: &mut G| g.num(0, 1_000_000) as i32;
        match cx.g.n(16) {
            0 | 1 | 2 => {
                p = p.floating();
                s.float = true;
            }
            3 => {
                p = p.overlapping();
                s.overlap = true;
            }
            4 => {
                let v = emu(cx.g);
                p = p.offset_x(v);
                s.h = format!("offset {v}");
            }
            5 => {
                let v = emu(cx.g);
                p = p.offset_y(v);
                s.v = format!("offset {v}");
            }
            6 => {
                let (a, t) = *cx.g.pick(&[(PicAlign::Left, "left"), (PicAlign::Right, "right"), (PicAlign::Center, "center")]);
                p = p.position_h(DrawingPosition::Align(a));
                s.h = format!("align {t}");
            }
            7 => {
                let (a, t) = *cx.g.pick(&[(PicAlign::Top, "top"), (PicAlign::Bottom, "bottom"), (PicAlign::Center, "center")]);
                p = p.position_v(DrawingPosition::Align(a));
                s.v = format!("align {t}");
            }
            8 => {
                use RelativeFromHType::*;
                let (a, t) = *cx.g.pick(&[
                    (Character, "character"),
                    (Column, "column"),
                    (InsideMargin, "insideMargin"),
                    (LeftMargin, "leftMargin"),
                    (Margin, "margin"),
                    (OutsizeMargin, "outsideMargin"),
                    (Page, "page"),
                    (RightMargin, "rightMargin"),
                ]);
                p = p.relative_from_h(a);
                s.from_h = t;
            }
            9 => {
                use RelativeFromVType::*;
                let (a, t) = *cx.g.pick(&[
                    (BottomMargin, "bottomMargin"),
                    (InsideMargin, "insideMargin"),
                    (Line, "line"),
                    (Margin, "margin"),
                    (OutsizeMargin, "outsideMargin"),
                    (Page, "page"),
                    (Paragraph, "paragraph"),
                    (TopMargin, "topMargin"),
                ]);
                p = p.relative_from_v(a);
                s.from_v = t;
            }
            10 | 11 => {
                let (i, v) = (cx.g.n(4), dist(cx.g));
                p = match i {
                    0 => p.dist_t(v),
                    1 => p.dist_b(v),
                    2 => p.dist_l(v),
                    _ => p.dist_r(v),
                };
                s.dist[i] = v;
            }
            12 => {
                let v = cx.g.coin();
                p = p.simple_pos(v);
                s.simple = v;
                if v {
                    (s.x, s.y) = (emu(cx.g), emu(cx.g));
                    (p.simple_pos_x, p.simple_pos_y) = (s.x, s.y);
                }
            }
            13 => {
                s.z = cx.g.num(0, u32::MAX as i64) as u32;
                p = p.relative_height(s.z);
            }
            14 => {
                s.rot = cx.g.num(0, 359) as u16;
                p = p.rotate(s.rot);
            }
            _ => {
                p.layout_in_cell = cx.g.coin();
                s.cell = p.layout_in_cell;
            }
        }
    }
    if s.float {
        cx.cls("floating image");
    }
    (p, s.drawing(&ph, w, h), json!({"type": "drawing", "data": s.j(&ph, w, h)}))
}

/// Where and how a picture stands.
#[derive(Clone)]
pub struct PicX {
    pub float: bool,
    pub overlap: bool,
    pub h: String,
    pub v: String,
    pub from_h: &'static str,
    pub from_v: &'static str,
    /// top bottom left right
    pub dist: [i32; 4],
    pub simple: bool,
    pub x: i32,
    pub y: i32,
    pub z: u32,
    pub rot: u16,
    pub cell: bool,
}
impl Default for PicX {
    fn default() -> PicX {
        PicX {
            float: false,
            overlap: false,
            h: "offset 0".into(),
            v: "offset 0".into(),
            from_h: "margin",
            from_v: "margin",
            dist: [0; 4],
            simple: false,
            x: 0,
            y: 0,
            z: 190500,
            rot: 0,
            cell: false,
        }
    }
}
impl PicX {
    /// Canonical reduced form of a drawing: what `norm` reduces drawings to.
    pub fn drawing(&self, ph: &str, w: u32, h: u32) -> El {
        let x = el("w:drawing").a("kind", if self.float { "anchor" } else { "inline" });
        let x = x.a("embed", ph).a("cx", w).a("cy", h).a("xcx", w).a("xcy", h);
        let x = x.a("rot", self.rot as u32 * 60000).a("dist", format!("{:?}", self.dist));
        if !self.float {
            return x;
        }
        let n = |b: bool| b as u8;
        x.a("simple", format!("{} {} {}", n(self.simple), self.x, self.y))
            .a("h", format!("{} {}", self.from_h, self.h))
            .a("v", format!("{} {}", self.from_v, self.v))
            .a("overlap", n(self.overlap))
            .a("cell", n(self.cell))
            .a("z", self.z)
            .a("wrap", if self.overlap { "none" } else { "square" })
    }
    pub fn j(&self, ph: &str, w: u32, h: u32) -> Value {
        let mut v = json!({"type": "pic", "id": ph, "size": [w, h], "rot": self.rot, "dist": self.dist, "float": self.float});
        if self.float {
            v["simple"] = json!([self.simple, self.x, self.y]);
            v["h"] = json!([self.from_h, self.h]);
            v["v"] = json!([self.from_v, self.v]);
            v["overlap"] = json!(self.overlap);
            v["cell"] = json!(self.cell);
            v["z"] = json!(self.z);
        }
        v
    }
}

pub fn comment(cx: &mut Ctx) -> (Comment, usize) {
    let id = cx.id();
    let author = no_ref(cx.author());
    let date = cx.g.date();
    let mut c = Comment::new(id).author(author.clone()).date(date.clone());
    let (mut x, mut j) = (vec![], vec![]);
    cx.in_comment = true;
    // one paragraph: what every comment a user writes starts with
    let p = para_simple(cx);
    c = c.add_paragraph(p.v);
    x.extend(p.x);
    j.extend(p.j);
    for _ in 0..cx.g.len(0, 2) {
        if cx.g.chance(2, 3) {
            continue;
        }
        if cx.cfg.tables && cx.g.coin() && cx.g.spend(4) {
            let keep = std::mem::replace(&mut cx.cfg, Cfg { depth: 0, ..Cfg::plain() });
            let t = table(cx, 1);
            cx.cfg = keep;
            c = c.add_table(t.v);
            x.extend(t.x);
            j.extend(t.j);
            cx.cls("comment with a table");
        }
        // the last one may carry anything a paragraph can
        let p = if cx.g.coin() {
            para_simple(cx)
        } else {
            let keep = cx.cfg.clone();
            cx.cfg = Cfg { fmt: 1, ..Cfg::plain() };
            let p = para(cx);
            cx.cfg = keep;
            p
        };
        c = c.add_paragraph(p.v);
        x.extend(p.x);
        j.extend(p.j);
        cx.cls("comment with several paragraphs");
    }
    cx.in_comment = false;
    let parent = if !cx.comments.is_empty() && cx.g.chance(1, 3) {
        let i = cx.g.n(cx.comments.len());
        cx.cls("comment reply");
        Some(cx.comments[i].id)
    } else {
        None
    };
    if let Some(p) = parent {
        c = c.parent_comment_id(p);
    }
    cx.comments.push(CommentX { id, author, date, parent, x, j });
    cx.cls("comment");
    (c, id)
}

fn comment_start_j(cx: &Ctx, id: usize) -> Value {
    let c = cx.comments.iter().find(|c| c.id == id).unwrap();
    json!({"type": "commentRangeStart", "data": {"id": id, "comment": c.j()}})
}
fn comment_end_j(id: usize) -> Value {
    json!({"type": "commentRangeEnd", "data": {"id": id}})
}
fn comment_pair_j(cx: &Ctx, id: usize) -> Vec<Value> {
    vec![comment_start_j(cx, id), comment_end_j(id), json!({"type": "run", "data": {"runProperty": {}, "children": []}})]
}
pub fn comment_start_x(id: usize) -> El {
    el("w:commentRangeStart").a("w:id", id)
}
pub fn comment_end_x(id: usize) -> Vec<El> {
    vec![el("w:commentRangeEnd").a("w:id", id), el("w:r").k(el("w:commentReference").a("w:id", id))]
}

/// Give a paragraph some id, and a style to find it by.
fn mark(cx: &mut Ctx, mut p: Paragraph) -> Paragraph {
    if cx.ids.is_none() {
        return p;
    }
    match cx.g.n(6) {
        0 => p = p.id(format!("{:08x}", 1 + cx.g.n(30))),
        1 => p = p.id(format!("{:08X}", cx.g.num(1, 0x7fff_ffff))),
        2 => p = p.id(format!("{:08x}", 0x7fff_fffe - cx.g.n(3))),
        3 if cx.g.chance(1, 3) => p = p.id(""),
        4 if cx.g.chance(1, 3) => {
            cx.cls("paragraph made in another thread");
            p.id = std::thread::spawn(|| Paragraph::new().id).join().unwrap();
        }
        5 if cx.g.chance(1, 3) => reset_para_id(),
        _ => {}
    }
    if let Some(v) = &mut cx.ids {
        v.push(p.id.clone());
        let n = v.len() - 1;
        p = p.style(&format!("mark{n}"));
    }
    p
}

/// A paragraph with text runs only.
pub fn para_simple(cx: &mut Ctx) -> M<Paragraph> {
    let n = cx.g.len(1, 2);
    let mut p = Paragraph::new();
    let (mut x, mut j) = (el("w:p"), vec![]);
    for _ in 0..n {
        let t = cx.txt();
        p = p.add_run(Run::new().add_text(t.clone()));
        x = x.k(el("w:r").k(t_el("w:t", &kept(&t))));
        j.push(json!({"type": "run", "data": {"runProperty": {}, "children": [{"type": "text", "data": {"preserveSpace": true, "text": kept(&t)}}]}}));
    }
    cx.paragraphs += 1;
    let p = mark(cx, p);
    M { v: p, x: vec![x], j: vec![json!({"type": "paragraph", "data": {"property": {"runProperty": {}, "tabs": []}, "children": j}})] }
}

pub fn insert(cx: &mut Ctx) -> M<Insert> {
    let (a, d) = (cx.author(), cx.g.date());
    let mut v = Insert::new_with_empty().author(a.clone()).date(d.clone());
    let mut x = el("w:ins").a("w:id", 0).a("w:author", &a).a("w:date", &d);
    let mut j = vec![];
    for i in 0..cx.g.len(1, 3) {
        match cx.g.n(6) {
            4 => {
                let m = delete(cx);
                v = match cx.g.n(3) {
                    0 if i == 0 => Insert::new_with_del(m.v).author(a.clone()).date(d.clone()),
                    1 => v.add_child(InsertChild::Delete(m.v)),
                    _ => v.add_delete(m.v),
                };
                x = x.ks(m.x);
                j.extend(m.j);
                cx.cls("deletion inside insertion");
            }
            5 if cx.cfg.comments && !cx.in_comment => {
                let (c, id) = comment(cx);
                v = v.add_comment_start(c).add_comment_end(id);
                x = x.k(comment_start_x(id)).ks(comment_end_x(id));
                j.push(comment_start_j(cx, id));
                j.push(comment_end_j(id));
                j.push(json!({"type": "run", "data": {"runProperty": {}, "children": []}}));
                cx.cls("comment in tracked change");
            }
            _ => {
                let m = run(cx, RK::Normal);
                if i == 0 && cx.g.coin() {
                    v = Insert::new(m.v).author(a.clone()).date(d.clone());
                } else {
                    v = v.add_run(m.v);
                }
                x = x.ks(m.x);
                j.extend(m.j);
            }
        }
    }
    cx.cls("insertion");
    M { v, x: vec![x], j: vec![json!({"type": "insert", "data": {"author": a, "date": d, "children": j}})] }
}

pub fn delete(cx: &mut Ctx) -> M<Delete> {
    let (a, d) = (cx.author(), cx.g.date());
    let mut v = Delete::new().author(a.clone()).date(d.clone());
    let mut x = el("w:del").a("w:id", 0).a("w:author", &a).a("w:date", &d);
    let mut j = vec![];
    for _ in 0..cx.g.len(1, 3) {
        match cx.g.n(6) {
            5 if cx.cfg.comments && !cx.in_comment => {
                let (c, id) = comment(cx);
                v = v.add_comment_start(c).add_comment_end(id);
                x = x.k(comment_start_x(id)).ks(comment_end_x(id));
                j.push(comment_start_j(cx, id));
                j.push(comment_end_j(id));
                j.push(json!({"type": "run", "data": {"runProperty": {}, "children": []}}));
                cx.cls("comment in tracked change");
            }
            _ => {
                let m = run(cx, RK::Deleted);
                v = v.add_run(m.v);
                x = x.ks(m.x);
                j.extend(m.j);
            }
        }
    }
    cx.cls("deletion");
    M { v, x: vec![x], j: vec![json!({"type": "delete", "data": {"author": a, "date": d, "children": j}})] }
}

pub fn move_from(cx: &mut Ctx) -> M<MoveFrom> {
    let (a, d) = (cx.author(), cx.g.date());
    let mut v = MoveFrom::new().author(a.clone()).date(d.clone());
    let mut x = el("w:moveFrom").a("w:id", 0).a("w:author", &a).a("w:date", &d);
    let mut j = vec![];
    for _ in 0..cx.g.len(1, 2) {
        if cx.cfg.comments && !cx.in_comment && cx.g.chance(1, 6) {
            let (c, id) = comment(cx);
            v = v.add_comment_start(c).add_comment_end(id);
            x = x.k(comment_start_x(id)).ks(comment_end_x(id));
            j.extend(comment_pair_j(cx, id));
            cx.cls("comment in tracked change");
        } else {
            let m = run(cx, RK::Normal);
            v = v.add_run(m.v);
            x = x.ks(m.x);
            j.extend(m.j);
        }
    }
    cx.cls("move");
    M { v, x: vec![x], j: vec![json!({"type": "moveFrom", "data": {"author": a, "date": d, "children": j}})] }
}
pub fn move_to(cx: &mut Ctx) -> M<MoveTo> {
    let (a, d) = (cx.author(), cx.g.date());
    let mut v = MoveTo::new_with_empty().author(a.clone()).date(d.clone());
    let mut x = el("w:moveTo").a("w:id", 0).a("w:author", &a).a("w:date", &d);
    let mut j = vec![];
    for i in 0..cx.g.len(1, 2) {
        match cx.g.n(8) {
            5 if cx.cfg.comments && !cx.in_comment => {
                let (c, id) = comment(cx);
                v = v.add_comment_start(c).add_comment_end(id);
                x = x.k(comment_start_x(id)).ks(comment_end_x(id));
                j.extend(comment_pair_j(cx, id));
                cx.cls("comment in tracked change");
            }
            6 | 7 => {
                let m = delete(cx);
                v = v.add_delete(m.v);
                x = x.ks(m.x);
                j.extend(m.j);
            }
            _ => {
                let m = run(cx, RK::Normal);
                if i == 0 && cx.g.coin() {
                    v = MoveTo::new(m.v).author(a.clone()).date(d.clone());
                } else {
                    v = v.add_run(m.v);
                }
                x = x.ks(m.x);
                j.extend(m.j);
            }
        }
    }
    cx.cls("move");
    M { v, x: vec![x], j: vec![json!({"type": "moveTo", "data": {"author": a, "date": d, "children": j}})] }
}

pub fn url(cx: &mut Ctx) -> String {
    let h = cx.g.ident();
    let q = cx.g.pick(&["", "/a?b=1&c=2", "/p#frag", "/?q=%20x", "/\"q\"", "/日本", "/a'b", "?<x>"]).to_string();
    let q = if cx.cfg.any_text { q } else { String::new() };
    format!("{}://{h}.example{q}", cx.g.pick(&["https", "http", "ftp"]))
}

pub fn hyperlink(cx: &mut Ctx) -> M<Hyperlink> {
    let ext = cx.g.coin();
    let (mut v, mut x, mut data);
    if ext {
        let u = url(cx);
        v = Hyperlink::new(u.clone(), HyperlinkType::External);
        x = el("w:hyperlink").a("r:id", format!("LINK:{u}")).a("w:history", 1);
        data = json!({"type": "external", "rid": format!("LINK:{u}"), "history": 1});
        cx.links.push(u);
        cx.cls("external hyperlink");
    } else {
        let a = name_str(cx.g, cx.cfg.f.wild);
        v = Hyperlink::new(a.clone(), HyperlinkType::Anchor);
        x = el("w:hyperlink").a("w:anchor", &a).a("w:history", 1);
        data = json!({"type": "anchor", "anchor": a, "history": 1});
        cx.cls("anchor hyperlink");
    }
    let mut j = vec![];
    for _ in 0..cx.g.len(1, 3) {
        match cx.g.n(10) {
            3 if cx.cfg.comments && !cx.in_comment => {
                let (c, id) = comment(cx);
                v = v.add_comment_start(c).add_comment_end(id);
                x = x.k(comment_start_x(id)).ks(comment_end_x(id));
                j.extend(comment_pair_j(cx, id));
                cx.cls("comment in hyperlink");
            }
            4 if cx.cfg.sdt && !cx.cfg.f.read => {
                let m = sdt(cx, true, 0);
                v = v.add_structured_data_tag(m.v);
                x = x.ks(m.x);
                j.extend(m.j);
                cx.cls("content control in hyperlink");
            }
            5 if cx.cfg.tracked => {
                let m = insert(cx);
                v = v.add_insert(m.v);
                x = x.ks(m.x);
                j.extend(m.j);
                cx.cls("tracked change in hyperlink");
            }
            6 if cx.cfg.tracked => {
                let m = delete(cx);
                v = v.add_delete(m.v);
                x = x.ks(m.x);
                j.extend(m.j);
                cx.cls("tracked change in hyperlink");
            }
            7 if cx.cfg.bookmarks => {
                let (id, n) = (cx.id(), name_str(cx.g, cx.cfg.f.wild));
                v = v.add_bookmark_start(id, n.clone()).add_bookmark_end(id);
                x = x.ks(bookmark_x(id, &n));
                j.extend(bookmark_j(id, &n));
            }
            _ => {
                let m = run(cx, RK::Normal);
                v = v.add_run(m.v);
                x = x.ks(m.x);
                j.extend(m.j);
            }
        }
    }
    data["children"] = Value::Array(j);
    M { v, x: vec![x], j: vec![json!({"type": "hyperlink", "data": data})] }
}

fn bookmark_x(id: usize, n: &str) -> Vec<El> {
    vec![el("w:bookmarkStart").a("w:id", id).a("w:name", n), el("w:bookmarkEnd").a("w:id", id)]
}
fn bookmark_j(id: usize, n: &str) -> Vec<Value> {
    vec![
        json!({"type": "bookmarkStart", "data": {"id": id, "name": n}}),
        json!({"type": "bookmarkEnd", "data": {"id": id}}),
    ]
}

/// Formatting of a paragraph: returns the formatted (empty) paragraph and its state.
pub fn para_fmt(cx: &mut Ctx) -> (Paragraph, PState) {
    let c = cx.cfg.f;
    let num = cx.cfg.numbering;
    let mut p = Paragraph::new();
    let mut st = PState::default();
    if cx.cfg.fmt > 0 && cx.g.chance(1, 3) {
        // a prepared property
        let (hs, s0) = ps_history(cx.g, PTarget::Prop, c, cx.cfg.fmt, num);
        let mut pr = ParagraphProperty::new();
        for s in &hs {
            pr = ps_prop(pr, s);
        }
        p.property = pr;
        p.has_numbering = s0.num.is_some();
        st = s0;
        cx.cls("prepared paragraph property");
    }
    let (hs, _) = ps_history(cx.g, PTarget::Par, c, cx.cfg.fmt, num);
    if hs.len() >= 2 {
        cx.cls("paragraph formatting history >= 2");
    }
    for s in &hs {
        p = ps_par(p, s);
        st.apply(s);
    }
    if cx.cfg.fmt > 0 && cx.g.chance(1, 6) {
        let (rs, rst) = rs_history(cx.g, RTarget::Prop, c, cx.cfg.fmt);
        let mut rp = RunProperty::new();
        for s in &rs {
            rp = rs_prop(rp, s);
        }
        p = p.run_property(rp);
        st.r = rst;
    }
    if cx.cfg.tracked && cx.g.chance(1, 8) {
        let kinds = cx.g.n(3);
        if kinds != 1 {
            let (a, d) = (cx.author(), cx.g.date());
            p = p.insert(a.clone(), d.clone());
            st.r.ins = Some((a, d));
        }
        if kinds != 0 {
            let (a, d) = (cx.author(), cx.g.date());
            p = p.delete(a.clone(), d.clone());
            st.r.del = Some((a, d));
        }
        cx.cls("paragraph mark revision");
    }
    if cx.cfg.tracked && cx.g.chance(1, 8) {
        let (a, d) = (cx.author(), cx.g.date());
        let (hs, old) = ps_history(cx.g, PTarget::Prop, c, cx.cfg.fmt, num);
        let mut pr = ParagraphProperty::new();
        for s in &hs {
            pr = ps_prop(pr, s);
        }
        p = p.paragraph_property_change(ParagraphPropertyChange::new().author(a.clone()).date(d.clone()).property(pr));
        st.change = Some((a, d, Box::new(old)));
        cx.cls("paragraph property change");
    }
    if st.num.is_some() {
        cx.num_used = true;
        cx.cls("numbered paragraph");
    }
    (p, st)
}

/// Ends the range of a comment or bookmark.
fn close_range(p: Paragraph, comment: bool, id: usize, x: &mut El, j: &mut Vec<Value>) -> Paragraph {
    if comment {
        x.kids.extend(comment_end_x(id).into_iter().map(Nd::E));
        j.push(comment_end_j(id));
        p.add_comment_end(id)
    } else {
        x.kids.push(Nd::E(el("w:bookmarkEnd").a("w:id", id)));
        j.push(json!({"type": "bookmarkEnd", "data": {"id": id}}));
        p.add_bookmark_end(id)
    }
}

pub fn para(cx: &mut Ctx) -> M<Paragraph> {
    cx.paragraphs += 1;
    let (mut p, st) = para_fmt(cx);
    let mut x = el("w:p").k(st.x());
    let mut j = vec![];
    let n = cx.g.len(0, 4);
    let mut open: Vec<(bool, usize)> = vec![];
    for _ in 0..n {
        if !cx.g.spend(1) {
            break;
        }
        let bias = cx.cfg.bias;
        let kind = if !bias.is_empty() && cx.g.coin() { *cx.g.pick(bias) } else { cx.g.n(16) };
        match kind {
            8 if cx.cfg.links => {
                let m = hyperlink(cx);
                p = p.add_hyperlink(m.v);
                x = x.ks(m.x);
                j.extend(m.j);
            }
            9 if cx.cfg.tracked => {
                let m = insert(cx);
                p = p.add_insert(m.v);
                x = x.ks(m.x);
                j.extend(m.j);
            }
            10 if cx.cfg.tracked => {
                let m = delete(cx);
                p = p.add_delete(m.v);
                x = x.ks(m.x);
                j.extend(m.j);
            }
            11 if cx.cfg.tracked => {
                if cx.g.coin() {
                    let m = move_from(cx);
                    p = p.add_move_from(m.v);
                    x = x.ks(m.x);
                    j.extend(m.j);
                } else {
                    let m = move_to(cx);
                    p = p.add_move_to(m.v);
                    x = x.ks(m.x);
                    j.extend(m.j);
                }
            }
            12 if cx.cfg.bookmarks => {
                let (id, n) = (cx.id(), name_str(cx.g, cx.cfg.f.wild));
                p = p.add_bookmark_start(id, n.clone());
                x = x.k(el("w:bookmarkStart").a("w:id", id).a("w:name", &n));
                j.push(json!({"type": "bookmarkStart", "data": {"id": id, "name": n}}));
                open.push((false, id));
                cx.cls("bookmark");
            }
            13 if cx.cfg.comments && !cx.in_comment => {
                let (c, id) = comment(cx);
                p = p.add_comment_start(c);
                x = x.k(comment_start_x(id));
                j.push(comment_start_j(cx, id));
                open.push((true, id));
            }
            14 if cx.cfg.sdt && !cx.cfg.f.read => {
                let m = sdt(cx, true, 0);
                p = p.add_structured_data_tag(m.v);
                x = x.ks(m.x);
                j.extend(m.j);
                cx.cls("inline content control");
            }
            15 if cx.cfg.fields => {
                let (name, field) = if cx.g.coin() {
                    p = p.add_page_num(PageNum::new());
                    ("PAGE", "PAGE")
                } else {
                    p = p.add_num_pages(NumPages::new());
                    ("NUMPAGES", "NUMPAGES")
                };
                let fc = |t: &str| el("w:fldChar").a("w:fldCharType", t).a("w:dirty", false);
                x = x.k(el("w:r").ks(vec![fc("begin"), el("w:instrText").t(name), fc("separate"), t_el("w:t", "1"), fc("end")]));
                let fj = |t: &str| json!({"type": "fieldChar", "data": {"fieldCharType": t, "dirty": false}});
                j.push(json!({"type": "run", "data": {"runProperty": {}, "children": [fj("begin"),
                    {"type": "instrTextString", "data": field}, fj("separate"),
                    {"type": "text", "data": {"preserveSpace": true, "text": "1"}}, fj("end")]}}));
                cx.cls("page field");
            }
            _ => {
                let m = run(cx, RK::Normal);
                p = p.add_run(m.v);
                x = x.ks(m.x);
                j.extend(m.j);
            }
        }
        if !open.is_empty() && cx.g.coin() {
            let i = cx.g.n(open.len());
            let (c, id) = open.remove(i);
            p = close_range(p, c, id, &mut x, &mut j);
        }
    }
    while let Some((c, id)) = open.pop() {
        p = close_range(p, c, id, &mut x, &mut j);
    }
    let p = mark(cx, p);
    M { v: p, x: vec![x], j: vec![json!({"type": "paragraph", "data": {"property": st.j(), "children": j}})] }
}

pub fn sdt(cx: &mut Ctx, inline: bool, depth: usize) -> M<StructuredDataTag> {
    let mut v = StructuredDataTag::new();
    let mut pr = el("w:sdtPr");
    let mut pj = json!({"runProperty": {}});
    if !cx.cfg.f.read {
        if cx.g.chance(1, 2) {
            let a = name_str(cx.g, cx.cfg.f.wild);
            v = v.alias(a.clone());
            pr = pr.k(el("w:alias").a("w:val", &a));
            pj["alias"] = json!(a);
        }
        if cx.g.chance(1, 3) {
            let (a, b, c) = (cx.g.ident(), cx.g.ident(), cx.g.ident());
            v = v.data_binding(DataBinding::new().xpath(a.clone()).prefix_mappings(b.clone()).store_item_id(c.clone()));
            pr = pr.k(el("w:dataBinding").a("w:xpath", &a).a("w:prefixMappings", &b).a("w:storeItemID", &c));
        }
    }
    let mut c = el("w:sdtContent");
    let mut j = vec![];
    for _ in 0..cx.g.len(1, 3) {
        if inline {
            let m = run(cx, RK::Normal);
            v = v.add_run(m.v);
            c = c.ks(m.x);
            j.extend(m.j);
        } else if cx.cfg.tables && depth < cx.cfg.depth && cx.g.chance(1, 5) {
            let m = table(cx, depth + 1);
            v = v.add_table(m.v);
            c = c.ks(m.x);
            j.extend(m.j);
        } else if depth < cx.cfg.depth && cx.g.chance(1, 6) {
            let m = sdt(cx, false, depth + 1);
            v.children.push(StructuredDataTagChild::StructuredDataTag(Box::new(m.v)));
            c = c.ks(m.x);
            j.extend(m.j);
            cx.cls("content control in content control");
        } else {
            let m = para(cx);
            v = v.add_paragraph(m.v);
            c = c.ks(m.x);
            j.extend(m.j);
        }
    }
    cx.cls("content control");
    let x = el("w:sdt").k(pr).k(c);
    M { v, x: vec![x], j: vec![json!({"type": "structuredDataTag", "data": {"property": pj, "children": j}})] }
}

pub fn cell(cx: &mut Ctx, depth: usize) -> M<TableCell> {
    let mut v = TableCell::new();
    let mut st = CState::default();
    let n = cx.g.len(0, cx.cfg.fmt);
    let hs: Vec<CS> = (0..n).map(|_| cs(cx.g)).collect();
    let split = cx.g.n(hs.len() + 1);
    for s in &hs[..split] {
        v = cs_cell(v, s);
        st.apply(s);
    }
    let mut x = el("w:tc");
    let mut j = vec![];
    let mut kids = vec![];
    let n = cx.g.len(0, 3);
    let mut last_table = false;
    for _ in 0..n {
        if cx.cfg.tables && depth < cx.cfg.depth && cx.g.chance(1, 6) && cx.g.spend(3) {
            let m = table(cx, depth + 1);
            v = v.add_table(m.v);
            kids.extend(m.x);
            j.extend(m.j);
            last_table = true;
            cx.cls("nested table");
        } else if cx.cfg.sdt && cx.g.chance(1, 8) && cx.g.spend(1) {
            let m = sdt(cx, false, depth);
            v = v.add_structured_data_tag(m.v);
            kids.extend(m.x);
            j.extend(m.j);
            last_table = false;
            cx.cls("content control in cell");
        } else {
            let m = para(cx);
            v = v.add_paragraph(m.v);
            kids.extend(m.x);
            j.extend(m.j);
            last_table = false;
        }
    }
    // a cell must contain a paragraph after its last table
    if kids.is_empty() || last_table {
        if n == 1 || n == 0 {
            kids.push(el("w:p"));
            j.push(json!({"type": "paragraph", "data": {"property": {"runProperty": {}, "tabs": []}, "children": []}}));
        } else {
            let m = para(cx);
            v = v.add_paragraph(m.v);
            kids.extend(m.x);
            j.extend(m.j);
        }
    }
    for s in &hs[split..] {
        v = cs_cell(v, s);
        st.apply(s);
    }
    x = x.k(st.x()).ks(kids);
    M { v, x: vec![x], j: vec![json!({"type": "tableCell", "data": {"property": st.j(), "children": j}})] }
}

pub fn row(cx: &mut Ctx, depth: usize) -> M<TableRow> {
    let n = cx.g.len(1, 3);
    let cells: Vec<M<TableCell>> = (0..n).map(|_| cell(cx, depth)).collect();
    let mut v = TableRow::new(cells.iter().map(|c| c.v.clone()).collect());
    let mut pr = el("w:trPr");
    let mut pj = json!({});
    if cx.cfg.fmt > 0 && cx.g.chance(1, 3) {
        let h = cx.g.num(0, 31680) as f32;
        let r = if cx.g.coin() { Some(cx.g.n(HRULES.len())) } else { None };
        v = v.row_height(h);
        if let Some(i) = r {
            v = v.height_rule(HRULES[i].0);
        }
        let rt = HRULES[r.unwrap_or(0)].1;
        pr = pr.k(el("w:trHeight").a("w:val", h).a("w:hRule", rt));
        pj["rowHeight"] = json!(h);
        pj["heightRule"] = json!(rt);
    }
    if cx.cfg.fmt > 0 && cx.g.chance(1, 6) {
        v = v.cant_split();
        pr = pr.k(el("w:cantSplit"));
        pj["cantSplit"] = json!("cantSplit");
    }
    if cx.cfg.fmt > 0 && cx.g.chance(1, 6) {
        let n = cx.g.num(0, 10) as u32;
        v = v.grid_after(n);
        pr = pr.k(el("w:gridAfter").a("w:val", n));
        pj["gridAfter"] = json!(n);
    }
    if cx.cfg.fmt > 0 && cx.g.chance(1, 6) {
        let w = cx.g.num(0, 5000) as f32;
        v = v.width_after(w);
        pr = pr.k(el("w:wAfter").a("w:w", w).a("w:type", "dxa"));
        pj["widthAfter"] = json!(w);
    }
    if cx.cfg.fmt > 0 && cx.g.chance(1, 6) {
        let n = cx.g.num(0, 10) as u32;
        v = v.grid_before(n);
        pr = pr.k(el("w:gridBefore").a("w:val", n));
        pj["gridBefore"] = json!(n);
    }
    if cx.cfg.fmt > 0 && cx.g.chance(1, 6) {
        let w = cx.g.num(0, 5000) as f32;
        v = v.width_before(w);
        pr = pr.k(el("w:wBefore").a("w:w", w).a("w:type", "dxa"));
        pj["widthBefore"] = json!(w);
    }
    if cx.cfg.tracked && cx.g.chance(1, 8) {
        let kinds = cx.g.n(3);
        if kinds != 1 {
            let (a, d) = (cx.author(), cx.g.date());
            v = v.insert(Insert::new_with_empty().author(a.clone()).date(d.clone()));
            pr = pr.k(el("w:ins").a("w:id", 0).a("w:author", &a).a("w:date", &d));
            pj["ins"] = json!({"author": a, "date": d, "children": []});
        }
        if kinds != 0 {
            let (a, d) = (cx.author(), cx.g.date());
            v = v.delete(Delete::new().author(a.clone()).date(d.clone()));
            pr = pr.k(el("w:del").a("w:id", 0).a("w:author", &a).a("w:date", &d));
            pj["del"] = json!({"author": a, "date": d, "children": []});
        }
        cx.cls("row revision");
    }
    let mut x = el("w:tr").k(pr);
    let mut j = vec![];
    for c in cells {
        x = x.ks(c.x);
        j.extend(c.j);
    }
    M { v, x: vec![x], j: vec![json!({"type": "tableRow", "data": {"property": pj, "cells": j}})] }
}

pub fn table(cx: &mut Ctx, depth: usize) -> M<Table> {
    let n = cx.g.len(1, 3);
    let rows: Vec<M<TableRow>> = (0..n).map(|_| row(cx, depth)).collect();
    let borders = cx.g.chance(3, 4);
    let rv: Vec<TableRow> = rows.iter().map(|r| r.v.clone()).collect();
    let by_add = cx.g.chance(1, 4);
    let mut v = match (borders, by_add) {
        (true, false) => Table::new(rv),
        (false, false) => Table::without_borders(rv),
        (b, true) => {
            let mut it = rv.into_iter();
            let first = vec![it.next().unwrap()];
            let mut t = if b { Table::new(first) } else { Table::without_borders(first) };
            for r in it {
                t = t.add_row(r);
            }
            t
        }
    };
    let mut st = TState::new(borders);
    for _ in 0..cx.g.len(0, cx.cfg.fmt) {
        let s = ts(cx.g, cx.cfg.f);
        v = ts_table(v, &s);
        st.apply(&s);
    }
    let mut grid = vec![];
    if cx.g.coin() {
        grid = (0..cx.g.len(1, 3)).map(|_| cx.g.num(0, 20000) as usize).collect();
        v = v.set_grid(grid.clone());
    }
    let mut x = el("w:tbl").k(st.x()).k(el("w:tblGrid").ks(grid.iter().map(|w| el("w:gridCol").a("w:w", w).a("w:type", "dxa")).collect()));
    let mut j = vec![];
    for r in rows {
        x = x.ks(r.x);
        j.extend(r.j);
    }
    cx.cls("table");
    M { v, x: vec![x], j: vec![json!({"type": "table", "data": {"property": st.j(), "grid": grid, "rows": j}})] }
}

pub enum Block {
    P(Paragraph),
    T(Table),
    S(StructuredDataTag),
    Bs(usize, String),
    Be(usize),
}

pub fn block(cx: &mut Ctx) -> M<Block> {
    match cx.g.n(10) {
        6 | 7 if cx.cfg.tables && cx.g.spend(4) => {
            let m = table(cx, 0);
            M { v: Block::T(m.v), x: m.x, j: m.j }
        }
        8 if cx.cfg.sdt => {
            let m = sdt(cx, false, 0);
            M { v: Block::S(m.v), x: m.x, j: m.j }
        }
        9 if cx.cfg.bookmarks => {
            let id = cx.id();
            if cx.g.coin() {
                let n = name_str(cx.g, cx.cfg.f.wild);
                M { v: Block::Bs(id, n.clone()), x: vec![bookmark_x(id, &n)[0].clone()], j: vec![bookmark_j(id, &n)[0].clone()] }
            } else {
                M { v: Block::Be(id), x: vec![bookmark_x(id, "")[1].clone()], j: vec![bookmark_j(id, "")[1].clone()] }
            }
        }
        _ => {
            let m = para(cx);
            M { v: Block::P(m.v), x: m.x, j: m.j }
        }
    }
}

pub fn add_block(d: Docx, b: Block) -> Docx {
    match b {
        Block::P(p) => d.add_paragraph(p),
        Block::T(t) => d.add_table(t),
        Block::S(s) => d.add_structured_data_tag(s),
        Block::Bs(i, n) => d.add_bookmark_start(i, n),
        Block::Be(i) => d.add_bookmark_end(i),
    }
}

/// A document body of blocks.
pub fn body(cx: &mut Ctx, max: usize) -> M<Docx> {
    let mut d = Docx::new();
    let (mut x, mut j) = (vec![], vec![]);
    let n = cx.g.len(1, max);
    for _ in 0..n {
        let b = block(cx);
        d = add_block(d, b.v);
        x.extend(b.x);
        j.extend(b.j);
    }
    M { v: d, x, j }
}

pub fn pack(d: Docx) -> Result<Vec<u8>, crate::runner::Fail> {
    let mut b = std::io::Cursor::new(vec![]);
    let r = crate::runner::guard("pack", || d.pack(&mut b))?;
    if let Err(e) = r {
        return crate::runner::fail("pack:error", format!("pack failed: {e}"));
    }
    Ok(b.into_inner())
}
