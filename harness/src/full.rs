//! Whole packages: documents built by arbitrary sequences of package-level calls,
//! with a model of every part they must lead to.

use crate::doc::*;
use crate::fmt::*;
use crate::norm::{norm, resolve_refs};
use crate::opc::Pkg;
use crate::runner::{fail, Fail};
use crate::xml::{el, El, Nd};
use docx_rs::*;
use std::collections::BTreeMap;

/// What a section property must say.
#[derive(Clone)]
pub struct SectX {
    pub w: u32,
    pub h: u32,
    pub orient: Option<&'static str>,
    /// top right bottom left header footer gutter
    pub mar: [i32; 7],
    pub cols: usize,
    pub space: usize,
    pub ty: Option<&'static str>,
    pub grid: Option<(&'static str, Option<usize>, Option<isize>)>,
    pub dir: Option<String>,
    pub num: Option<(Option<u32>, Option<String>)>,
    pub title: bool,
    /// default, first, even
    pub hdr: [Option<Vec<El>>; 3],
    pub ftr: [Option<Vec<El>>; 3],
}

pub const KINDS: [&str; 3] = ["default", "first", "even"];

impl Default for SectX {
    fn default() -> SectX {
        SectX {
            w: 11906,
            h: 16838,
            orient: None,
            mar: [1985, 1701, 1701, 1701, 851, 992, 0],
            cols: 1,
            space: 425,
            ty: None,
            grid: None,
            dir: None,
            num: None,
            title: false,
            hdr: [None, None, None],
            ftr: [None, None, None],
        }
    }
}

impl SectX {
    pub fn x(&self) -> El {
        let mut e = el("w:sectPr");
        e = e.k(el("w:pgSz").a("w:w", self.w).a("w:h", self.h).ao("w:orient", self.orient));
        let m = &self.mar;
        e = e.k(el("w:pgMar")
            .a("w:top", m[0])
            .a("w:right", m[1])
            .a("w:bottom", m[2])
            .a("w:left", m[3])
            .a("w:header", m[4])
            .a("w:footer", m[5])
            .a("w:gutter", m[6]));
        e = e.k(el("w:cols").a("w:space", self.space).a("w:num", self.cols));
        if let Some((t, l, c)) = self.grid {
            e = e.k(el("w:docGrid").a("w:type", t).ao("w:linePitch", l).ao("w:charSpace", c));
        }
        for i in 0..3 {
            if let Some(h) = &self.hdr[i] {
                e = e.k(el("w:headerReference").a("w:type", KINDS[i]).k(el("w:hdr").ks(h.clone())));
            }
            if let Some(h) = &self.ftr[i] {
                e = e.k(el("w:footerReference").a("w:type", KINDS[i]).k(el("w:ftr").ks(h.clone())));
            }
        }
        if let Some((s, c)) = &self.num {
            e = e.k(el("w:pgNumType").ao("w:start", *s).ao("w:chapStyle", c.as_ref()));
        }
        if let Some(d) = &self.dir {
            e = e.k(el("w:textDirection").a("w:val", d));
        }
        if let Some(t) = self.ty {
            e = e.k(el("w:type").a("w:val", t));
        }
        if self.title {
            e = e.k(el("w:titlePg"));
        }
        e
    }
}

#[derive(Clone)]
pub struct Ext {
    pub id: String,
    pub reference: [String; 4],
    pub props: Vec<(String, String)>,
}

pub struct Full {
    pub d: Docx,
    pub body: Vec<El>,
    pub sect: SectX,
    pub even: bool,
    /// nth section child, for statistics
    pub sections: usize,
    pub styles: Vec<El>,
    pub def_r: RState,
    pub def_line: Option<LineS>,
    pub abs: Vec<El>,
    pub nums: Vec<El>,
    pub tab_stop: usize,
    pub doc_id: Option<String>,
    pub doc_vars: Vec<(String, String)>,
    pub adjust: bool,
    pub spacing_control: Option<&'static str>,
    pub created: String,
    pub updated: String,
    pub custom: BTreeMap<String, String>,
    pub items: Vec<(String, El)>,
    pub exts: Vec<Ext>,
    pub calls: usize,
}

/// Weights of the kinds of package-level calls.
#[derive(Clone, Debug)]
pub struct Ops {
    pub block: u64,
    pub section: u64,
    pub hf: u64,
    pub page: u64,
    pub style: u64,
    pub default: u64,
    pub num: u64,
    pub settings: u64,
    pub props: u64,
    pub item: u64,
    pub ext: u64,
    pub comment: u64,
    /// maximal number of calls
    pub calls: usize,
}
impl Ops {
    pub fn all() -> Ops {
        Ops { block: 6, section: 3, hf: 4, page: 2, style: 2, default: 1, num: 2, settings: 1, props: 1, item: 1, ext: 1, comment: 1, calls: 10 }
    }
    pub fn none() -> Ops {
        Ops { block: 0, section: 0, hf: 0, page: 0, style: 0, default: 0, num: 0, settings: 0, props: 0, item: 0, ext: 0, comment: 0, calls: 8 }
    }
}

/// Content of a header or a footer.
pub fn hf_content(cx: &mut Ctx) -> Vec<(Block, Vec<El>)> {
    let keep = cx.cfg.clone();
    // Word does not allow comments and footnotes in headers and footers
    cx.cfg.comments = false;
    cx.cfg.footnotes = false;
    let mut v = vec![];
    for _ in 0..cx.g.len(0, 2) {
        if cx.cfg.tables && cx.g.chance(1, 5) && cx.g.spend(3) {
            let m = table(cx, 1);
            v.push((Block::T(m.v), m.x));
            cx.cls("table in header or footer");
        } else {
            let m = para(cx);
            v.push((Block::P(m.v), m.x));
        }
    }
    cx.cfg = keep;
    v
}
pub fn header(cx: &mut Ctx) -> (Header, Vec<El>) {
    let mut h = Header::new();
    let mut x = vec![];
    for (b, e) in hf_content(cx) {
        h = match b {
            Block::P(p) => h.add_paragraph(p),
            Block::T(t) => h.add_table(t),
            _ => unreachable!(),
        };
        x.extend(e);
    }
    (h, x)
}
pub fn footer(cx: &mut Ctx) -> (Footer, Vec<El>) {
    let mut h = Footer::new();
    let mut x = vec![];
    for (b, e) in hf_content(cx) {
        h = match b {
            Block::P(p) => h.add_paragraph(p),
            Block::T(t) => h.add_table(t),
            _ => unreachable!(),
        };
        x.extend(e);
    }
    (h, x)
}

fn margin(cx: &mut Ctx) -> (PageMargin, [i32; 7]) {
    let mut m = PageMargin::new();
    let mut v = SectX::default().mar;
    for (i, slot) in v.iter_mut().enumerate() {
        if cx.g.coin() {
            let n = cx.g.num(0, 31680) as i32;
            *slot = n;
            m = match i {
                0 => m.top(n),
                1 => m.right(n),
                2 => m.bottom(n),
                3 => m.left(n),
                4 => m.header(n),
                5 => m.footer(n),
                _ => m.gutter(n),
            };
        }
    }
    (m, v)
}
const ORIENTS: [&str; 2] = ["portrait", "landscape"];
fn orient(cx: &mut Ctx) -> (PageOrientationType, &'static str) {
    let i = cx.g.n(2);
    ([PageOrientationType::Portrait, PageOrientationType::Landscape][i], ORIENTS[i])
}
fn grid(cx: &mut Ctx) -> (DocGrid, (&'static str, Option<usize>, Option<isize>)) {
    let (mut d, mut x) = if cx.g.coin() { (DocGrid::new(), ("lines", Some(360), None)) } else { (DocGrid::with_empty(), ("default", None, None)) };
    if cx.g.coin() {
        let i = cx.g.n(GRIDS.len());
        d = d.grid_type(GRIDS[i].0);
        x.0 = GRIDS[i].1;
    }
    if cx.g.coin() {
        let n = cx.g.num(0, 2000) as usize;
        d = d.line_pitch(n);
        x.1 = Some(n);
    }
    if cx.g.coin() {
        let n = cx.g.num(-4000, 4000) as isize;
        d = d.char_space(n);
        x.2 = Some(n);
    }
    (d, x)
}
fn num_type(cx: &mut Ctx) -> (PageNumType, (Option<u32>, Option<String>)) {
    let (mut p, mut x) = (PageNumType::new(), (None, None));
    if cx.g.coin() {
        let n = cx.g.num(0, 1000) as u32;
        p = p.start(n);
        x.0 = Some(n);
    }
    if cx.g.coin() {
        let s = cx.g.num(1, 9).to_string();
        p = p.chap_style(s.clone());
        x.1 = Some(s);
    }
    (p, x)
}
fn dir(cx: &mut Ctx) -> String {
    cx.g.pick(&["tbRl", "btLr", "lrTbV", "tbRlV"]).to_string()
}

const SECT_TYPES: [(SectionType, &str); 5] = [
    (SectionType::NextPage, "nextPage"),
    (SectionType::NextColumn, "nextColumn"),
    (SectionType::Continuous, "continuous"),
    (SectionType::EvenPage, "evenPage"),
    (SectionType::OddPage, "oddPage"),
];

fn page_size(cx: &mut Ctx, x: &mut SectX) -> PageSize {
    let (w, h) = (cx.g.num(1, 31680) as u32, cx.g.num(1, 31680) as u32);
    let mut p = PageSize::new();
    p = match cx.g.n(3) {
        0 => {
            x.w = w;
            x.h = h;
            p.size(w, h)
        }
        1 => {
            x.w = w;
            x.h = 16838;
            p.width(w)
        }
        _ => {
            x.w = 11906;
            x.h = h;
            p.height(h)
        }
    };
    x.orient = None;
    if cx.g.coin() {
        let (o, t) = orient(cx);
        p = p.orient(o);
        x.orient = Some(t);
    }
    p
}

/// A prepared section property; true if it has headers or footers of even pages.
pub fn sect_prop(cx: &mut Ctx) -> (SectionProperty, SectX, bool) {
    let mut s = SectionProperty::new();
    let mut x = SectX::default();
    let mut even = false;
    for _ in 0..cx.g.len(0, 5) {
        match cx.g.n(14) {
            0..=2 => {
                let (h, hx) = header(cx);
                let i = cx.g.n(4);
                let id = cx.g.pick(&["rId1", "rId4", "rIdHeader1", "header"]).to_string();
                s = match i {
                    0 => s.header(h, &id),
                    1 => s.first_header(h, &id),
                    2 => s.even_header(h, &id),
                    _ => s.first_header_without_title_pg(h, &id),
                };
                x.hdr[if i == 3 { 1 } else { i }] = Some(hx);
                x.title |= i == 1;
                even |= i == 2;
            }
            3 | 4 => {
                let (h, hx) = footer(cx);
                let i = cx.g.n(4);
                let id = cx.g.pick(&["rId1", "rId4", "rIdFooter1", "footer"]).to_string();
                s = match i {
                    0 => s.footer(h, &id),
                    1 => s.first_footer(h, &id),
                    2 => s.even_footer(h, &id),
                    _ => s.first_footer_without_title_pg(h, &id),
                };
                x.ftr[if i == 3 { 1 } else { i }] = Some(hx);
                x.title |= i == 1;
                even |= i == 2;
            }
            5 => s = s.page_size(page_size(cx, &mut x)),
            6 => {
                let (m, v) = margin(cx);
                s = s.page_margin(m);
                x.mar = v;
            }
            7 => {
                let (o, t) = orient(cx);
                s = s.page_orient(o);
                x.orient = Some(t);
            }
            8 => {
                let (d, v) = grid(cx);
                s = s.doc_grid(d);
                x.grid = Some(v);
            }
            9 => {
                let d = dir(cx);
                s = s.text_direction(d.clone());
                x.dir = Some(d);
            }
            10 => {
                s = s.title_pg();
                x.title = true;
            }
            11 => {
                let (p, v) = num_type(cx);
                s = s.page_num_type(p);
                x.num = Some(v);
            }
            12 => {
                s.columns = cx.g.num(1, 10) as usize;
                s.space = cx.g.num(0, 2000) as usize;
                x.cols = s.columns;
                x.space = s.space;
            }
            _ => {
                let i = cx.g.n(5);
                s.section_type = Some(SECT_TYPES[i].0);
                x.ty = Some(SECT_TYPES[i].1);
                cx.cls("section type");
            }
        }
    }
    cx.cls("prepared section property");
    (s, x, even)
}

/// A paragraph that ends a section by itself.
fn para_sect(cx: &mut Ctx) -> (Paragraph, Vec<El>, bool) {
    let m = para(cx);
    let (s, x, even) = sect_prop(cx);
    let mut e = m.x;
    let mut sx = Some(x.x());
    if let Some(Nd::E(pp)) = e[0].kids.iter_mut().find(|k| matches!(k, Nd::E(c) if c.name == "w:pPr")) {
        pp.kids.push(Nd::E(sx.take().unwrap()));
    }
    if let Some(sx) = sx {
        e[0].kids.insert(0, Nd::E(el("w:pPr").k(sx)));
    }
    cx.cls("paragraph that ends a section");
    (m.v.section_property(s), e, even)
}

pub fn section(cx: &mut Ctx) -> (Section, Vec<El>, bool, bool) {
    let mut s = Section::new();
    let mut x = SectX::default();
    let mut kids = vec![];
    let (mut even, mut low) = (false, false);
    for _ in 0..cx.g.len(0, 5) {
        match cx.g.n(13) {
            0 if cx.g.chance(1, 4) => {
                let (p, e, ev) = para_sect(cx);
                s = s.add_paragraph(p);
                kids.extend(e);
                low |= ev;
            }
            0..=2 => {
                let m = para(cx);
                s = s.add_paragraph(m.v);
                kids.extend(m.x);
            }
            3 if cx.cfg.tables && cx.g.spend(3) => {
                let m = table(cx, 1);
                s = s.add_table(m.v);
                kids.extend(m.x);
                cx.cls("table in section");
            }
            4 => {
                let (id, n) = (cx.id(), name_str(cx.g, cx.cfg.f.wild));
                s = s.add_bookmark_start(id, n.clone()).add_bookmark_end(id);
                kids.push(el("w:bookmarkStart").a("w:id", id).a("w:name", n));
                kids.push(el("w:bookmarkEnd").a("w:id", id));
            }
            5 if cx.cfg.comments => {
                let (c, id) = comment(cx);
                s = s.add_comment_start(c).add_comment_end(id);
                kids.push(comment_start_x(id));
                kids.extend(comment_end_x(id));
                cx.cls("comment at section level");
            }
            6 | 7 => {
                let i = cx.g.n(3);
                let (h, hx) = header(cx);
                s = match i {
                    0 => s.header(h),
                    1 => s.first_header(h),
                    _ => s.even_header(h),
                };
                if x.hdr[i].is_some() {
                    cx.cls("header of a section set twice");
                }
                x.hdr[i] = Some(hx);
                x.title |= i == 1;
                even |= i == 2;
                cx.cls("section with header");
            }
            8 | 9 => {
                let i = cx.g.n(3);
                let (h, hx) = footer(cx);
                s = match i {
                    0 => s.footer(h),
                    1 => s.first_footer(h),
                    _ => s.even_footer(h),
                };
                x.ftr[i] = Some(hx);
                x.title |= i == 1;
                even |= i == 2;
                cx.cls("section with footer");
            }
            _ => match cx.g.n(7) {
                0 => {
                    let p = page_size(cx, &mut x);
                    s = s.page_size(p);
                }
                1 => {
                    let (m, v) = margin(cx);
                    s = s.page_margin(m);
                    x.mar = v;
                }
                2 => {
                    let (o, t) = orient(cx);
                    s = s.page_orient(o);
                    x.orient = Some(t);
                }
                3 => {
                    let (d, v) = grid(cx);
                    s = s.doc_grid(d);
                    x.grid = Some(v);
                }
                4 => {
                    let d = dir(cx);
                    s = s.text_direction(d.clone());
                    x.dir = Some(d);
                }
                5 => {
                    s = s.title_pg();
                    x.title = true;
                }
                _ => {
                    let (p, v) = num_type(cx);
                    s = s.page_num_type(p);
                    x.num = Some(v);
                }
            },
        }
    }
    kids.push(el("w:p").k(el("w:pPr").k(x.x())));
    (s, kids, even, low)
}

pub const STYLE_TYPES: [(StyleType, &str); 4] = [
    (StyleType::Paragraph, "paragraph"),
    (StyleType::Character, "character"),
    (StyleType::Table, "table"),
    (StyleType::Numbering, "numbering"),
];

pub fn style(cx: &mut Ctx, id: &str) -> (Style, El) {
    let ti = cx.g.n(4);
    let c = cx.cfg.f;
    let (ty, tn) = STYLE_TYPES[ti];
    let mut s = Style::new(id, ty);
    let mut e = el("w:style").a("w:type", tn).a("w:styleId", id);
    let mut name = String::new();
    let mut q = true;
    if cx.g.chance(3, 4) {
        name = name_str(cx.g, c.wild);
        s = s.name(name.clone());
    }
    e = e.k(el("w:name").a("w:val", &name));
    let fmt = cx.cfg.fmt.max(1);
    let (mut rst, mut pst) = (RState::default(), PState::default());
    let mut tst = TState::new(true);
    let mut cst = CState::default();
    if cx.g.chance(1, 4) {
        let (hs, st) = rs_history(cx.g, RTarget::Prop, c, fmt);
        s.run_property = hs.iter().fold(RunProperty::new(), |p, h| rs_prop(p, h));
        rst = st;
    }
    if cx.g.chance(1, 4) {
        let num = cx.cfg.numbering;
        let (hs, st) = ps_history(cx.g, PTarget::Prop, c, fmt, num);
        s.paragraph_property = hs.iter().fold(ParagraphProperty::new(), |p, h| ps_prop(p, h));
        cx.num_used |= st.num.is_some();
        pst = st;
    }
    for _ in 0..cx.g.len(0, 2 * fmt) {
        match cx.g.n(if ti == 2 { 6 } else { 4 }) {
            0 | 1 => {
                let h = rs(cx.g, RTarget::Style, c);
                s = rs_style(s, &h);
                rst.apply(&h);
            }
            2 | 3 => {
                let h = ps(cx.g, PTarget::Style, c);
                s = ps_style(s, &h);
                pst.apply(&h);
            }
            4 => {
                // cell settings arrive as one prepared property
                cst = CState::default();
                let mut p = TableCellProperty::new();
                for _ in 0..cx.g.len(0, 3) {
                    let h = cs(cx.g);
                    cst.apply(&h);
                    p = cs_prop(p, &h);
                }
                s = s.table_cell_property(p);
            }
            5 if cx.g.chance(1, 4) => {
                // and so may table settings
                tst = TState::new(true);
                let mut p = TableProperty::new();
                for _ in 0..cx.g.len(0, 3) {
                    let h = ts(cx.g, c);
                    tst.apply(&h);
                    p = ts_prop(p, &h);
                }
                s = s.table_property(p);
            }
            _ => {
                let h = loop {
                    let h = ts(cx.g, c);
                    if !matches!(h, TS::Pos(..)) {
                        break h;
                    }
                };
                s = ts_style(s, &h);
                tst.apply(&h);
            }
        }
    }
    e = e.k(rst.x()).k(pst.x());
    if ti == 2 {
        e = e.k(cst.x()).k(tst.x());
    }
    let v = |n: &str, t: &str| el(n).a("w:val", t);
    if cx.g.chance(1, 3) {
        let n = name_str(cx.g, c.wild);
        s = s.next(n.clone());
        e = e.k(v("w:next", &n));
    }
    if cx.g.chance(1, 3) {
        let n = name_str(cx.g, c.wild);
        s = s.link(n.clone());
        e = e.k(v("w:link", &n));
    }
    if cx.g.chance(1, 3) {
        let n = name_str(cx.g, c.wild);
        s = s.based_on(n.clone());
        e = e.k(v("w:basedOn", &n));
    }
    if cx.g.chance(1, 3) {
        q = cx.g.coin();
        s = s.q_format(q);
    }
    if q {
        e = e.k(el("w:qFormat"));
    }
    if cx.g.chance(1, 3) {
        let n = cx.g.num(0, 99) as usize;
        s = s.ui_priority(n);
        e = e.k(el("w:uiPriority").a("w:val", n));
    }
    if cx.g.chance(1, 4) {
        s = s.semi_hidden();
        e = e.k(el("w:semiHidden"));
    }
    if cx.g.chance(1, 4) {
        s = s.unhide_when_used();
        e = e.k(el("w:unhideWhenUsed"));
    }
    cx.cls("style");
    (s, e)
}

pub const FORMATS: &[&str] = &["decimal", "upperRoman", "lowerLetter", "bullet", "none", "decimalZero", "aiueo", "chineseCounting"];

pub fn level(cx: &mut Ctx, i: usize) -> (Level, El) {
    let c = cx.cfg.f;
    let (start, fmt) = (cx.g.num(0, 32767) as usize, cx.g.pick(FORMATS).to_string());
    let text = if c.wild && cx.g.chance(1, 4) { no_ref(cx.g.text()) } else { cx.g.pick(&["%1.", "(%2)", "%1.%2.%3", "\u{f0b7}", ""]).to_string() };
    let jc = cx.g.pick(&["left", "center", "right"]).to_string();
    let mut l = Level::new(i, Start::new(start), NumberFormat::new(fmt.clone()), LevelText::new(text.clone()), LevelJc::new(jc.clone()));
    let v = |n: &str, t: &str| el(n).a("w:val", t);
    let mut e = el("w:lvl")
        .a("w:ilvl", i)
        .k(v("w:start", &start.to_string()))
        .k(v("w:numFmt", &fmt))
        .k(v("w:lvlText", &text))
        .k(v("w:lvlJc", &jc));
    let (mut r, mut p) = (RState::default(), PState::default());
    let (mut suff, mut lgl) = (0, false);
    let (mut ps_, mut rs_) = (None, None);
    for _ in 0..cx.g.len(0, cx.cfg.fmt.max(1)) {
        match cx.g.n(8) {
            0 | 1 | 2 => {
                let h = rs(cx.g, RTarget::Level, c);
                l = rs_level(l, &h);
                r.apply(&h);
            }
            3 => {
                let h = loop {
                    let h = ps(cx.g, PTarget::Prop, c);
                    if matches!(h, PS::Indent(..)) {
                        break h;
                    }
                };
                if let PS::Indent(a, sp, b, ch) = &h {
                    l = l.indent(*a, special(sp), *b, *ch);
                }
                p.apply(&h);
            }
            4 => {
                let n = name_str(cx.g, c.wild);
                l = l.paragraph_style(n.clone());
                ps_ = Some(n);
            }
            5 => {
                suff = cx.g.n(SUFFIXES.len());
                l = l.suffix(SUFFIXES[suff].0.clone());
            }
            6 => {
                let n = cx.g.num(0, 9) as u32;
                l = l.level_restart(n);
                rs_ = Some(n);
            }
            _ => {
                l = l.is_lgl();
                lgl = true;
            }
        }
    }
    e = e.k(p.x()).k(r.x());
    if let Some(n) = ps_ {
        e = e.k(v("w:pStyle", &n));
    }
    if let Some(n) = rs_ {
        e = e.k(v("w:lvlRestart", &n.to_string()));
    }
    if lgl {
        e = e.k(el("w:isLgl"));
    }
    if SUFFIXES[suff].1 != "tab" {
        e = e.k(v("w:suff", SUFFIXES[suff].1));
    }
    (l, e)
}

pub fn abstract_num(cx: &mut Ctx, id: usize) -> (AbstractNumbering, El) {
    let mut a = AbstractNumbering::new(id);
    let mut e = el("w:abstractNum").a("w:abstractNumId", id);
    if cx.g.chance(1, 6) {
        let n = name_str(cx.g, cx.cfg.f.wild);
        a = a.style_link(n.clone());
        e = e.k(el("w:styleLink").a("w:val", n));
    }
    if cx.g.chance(1, 6) {
        let n = name_str(cx.g, cx.cfg.f.wild);
        a = a.num_style_link(n.clone());
        e = e.k(el("w:numStyleLink").a("w:val", n));
    }
    for i in 0..cx.g.len(0, 4) {
        let (l, x) = level(cx, i);
        a = a.add_level(l);
        e = e.k(x);
    }
    cx.cls("abstract numbering");
    (a, e)
}

pub fn num(cx: &mut Ctx, id: usize, abs: usize) -> (Numbering, El) {
    let mut n = Numbering::new(id, abs);
    let mut e = el("w:num").a("w:numId", id).k(el("w:abstractNumId").a("w:val", abs));
    let mut ovs = vec![];
    for _ in 0..cx.g.len(0, 2) {
        let i = cx.g.n(9);
        let mut o = LevelOverride::new(i);
        let mut ox = el("w:lvlOverride").a("w:ilvl", i);
        if cx.g.coin() {
            let (l, x) = level(cx, i);
            o = o.level(l);
            ox = ox.k(x);
        }
        if cx.g.coin() {
            let s = cx.g.num(0, 1000) as usize;
            o = o.start(s);
            ox = ox.k(el("w:startOverride").a("w:val", s));
        }
        ovs.push(o);
        e = e.k(ox);
        cx.cls("level override");
    }
    if cx.g.coin() {
        n = n.overrides(ovs);
    } else {
        for o in ovs {
            n = n.add_override(o);
        }
    }
    (n, e)
}

/// An element of a custom XML item: text or child elements.
fn item_el(cx: &mut Ctx, depth: usize, ns: &[(&'static str, &'static str)]) -> (String, El) {
    let mut scope: Vec<(&str, &str)> = ns.to_vec();
    let mut decl = String::new();
    if cx.g.chance(1, 4) {
        let p = *cx.g.pick(&["p", "q"]);
        let u = *cx.g.pick(&["urn:x", "http://example.com/ns"]);
        decl.push_str(&format!(" xmlns:{p}=\"{u}\""));
        scope.retain(|(a, _)| *a != p);
        scope.push((p, u));
    }
    let q = |cx: &mut Ctx, n: String| -> (String, String) {
        if !scope.is_empty() && cx.g.coin() {
            let (p, u) = scope[cx.g.n(scope.len())];
            (format!("{p}:{n}"), format!("{{{u}}}{n}"))
        } else {
            (n.clone(), n)
        }
    };
    let name = cx.g.ident();
    let (tag, full) = q(cx, name);
    let mut e = el(&full);
    let mut s = format!("<{tag}{decl}");
    for i in 0..cx.g.len(0, 2) {
        let (a, af) = q(cx, format!("a{i}"));
        let v = cx.txt().replace(['\r', '\n', '\t'], "");
        s.push_str(&format!(" {a}=\"{}\"", crate::xml::esc_attr(&v)));
        e = e.a(&af, v);
    }
    if depth < 3 && cx.g.coin() {
        s.push('>');
        for _ in 0..cx.g.len(1, 3) {
            let (cs, ce) = item_el(cx, depth + 1, &scope);
            s.push_str(&cs);
            e = e.k(ce);
        }
    } else {
        s.push('>');
        let t = cx.txt().replace('\r', "").trim().to_string();
        s.push_str(&crate::xml::esc_text(&t));
        e = e.t(t);
    }
    s.push_str(&format!("</{tag}>"));
    (s, e)
}

pub fn new_full(d: Docx) -> Full {
    Full {
        d,
        body: vec![],
        sect: SectX::default(),
        even: false,
        sections: 0,
        styles: vec![],
        def_r: RState::default(),
        def_line: None,
        abs: vec![],
        nums: vec![],
        tab_stop: 840,
        doc_id: None,
        doc_vars: vec![],
        adjust: false,
        spacing_control: None,
        created: "1970-01-01T00:00:00Z".into(),
        updated: "1970-01-01T00:00:00Z".into(),
        custom: BTreeMap::new(),
        items: vec![],
        exts: vec![],
        calls: 0,
    }
}

const SPACINGS: [(CharacterSpacingValues, &str); 3] = [
    (CharacterSpacingValues::DoNotCompress, "doNotCompress"),
    (CharacterSpacingValues::CompressPunctuation, "compressPunctuation"),
    (CharacterSpacingValues::CompressPunctuationAndJapaneseKana, "compressPunctuationAndJapaneseKana"),
];

pub fn add_hf(cx: &mut Ctx, f: &mut Full) {
    let d = std::mem::take(&mut f.d);
    let i = cx.g.n(3);
    if cx.g.coin() {
        let (h, x) = header(cx);
        f.d = match i {
            0 => d.header(h),
            1 => d.first_header(h),
            _ => d.even_header(h),
        };
        if f.sect.hdr[i].is_some() {
            cx.cls("document header set twice");
        }
        f.sect.hdr[i] = Some(x);
        cx.cls("document header");
    } else {
        let (h, x) = footer(cx);
        f.d = match i {
            0 => d.footer(h),
            1 => d.first_footer(h),
            _ => d.even_footer(h),
        };
        f.sect.ftr[i] = Some(x);
        cx.cls("document footer");
    }
    f.sect.title |= i == 1;
    f.even |= i == 2;
    if f.sections > 0 {
        cx.cls("document header or footer after a section");
    }
}

pub fn add_page(cx: &mut Ctx, f: &mut Full) {
    let mut d = std::mem::take(&mut f.d);
    match cx.g.n(8) {
        0 => {
            let (w, h) = (cx.g.num(1, 31680) as u32, cx.g.num(1, 31680) as u32);
            d = d.page_size(w, h);
            f.sect.w = w;
            f.sect.h = h;
        }
        1 => {
            let (m, v) = margin(cx);
            d = d.page_margin(m);
            f.sect.mar = v;
        }
        2 => {
            let (o, t) = orient(cx);
            d = d.page_orient(o);
            f.sect.orient = Some(t);
        }
        3 => {
            let (g, v) = grid(cx);
            d.document = d.document.doc_grid(g);
            f.sect.grid = Some(v);
        }
        4 => {
            let v = dir(cx);
            d.document = d.document.text_direction(v.clone());
            f.sect.dir = Some(v);
        }
        5 => {
            d = d.title_pg();
            f.sect.title = true;
        }
        6 => {
            let (p, v) = num_type(cx);
            d = d.page_num_type(p);
            f.sect.num = Some(v);
        }
        _ => {
            let n = cx.g.num(1, 10) as usize;
            d.document = d.document.columns(n);
            f.sect.cols = n;
        }
    }
    cx.cls("page setting");
    f.d = d;
}

/// A package built by an arbitrary sequence of calls.
pub fn full(cx: &mut Ctx, o: &Ops) -> Full {
    let mut f = new_full(Docx::new());
    let mut ids = 0;
    // whether prepared section properties have headers of even pages
    let mut low_even = false;
    // wholesale replacement of parts comes first: it discards what was set before
    if o.style > 0 && cx.g.chance(1, 6) {
        let mut s = Styles::new();
        for _ in 0..cx.g.len(0, 2) {
            ids += 1;
            let (st, x) = style(cx, &format!("S{ids}"));
            s = s.add_style(st);
            f.styles.push(x);
        }
        f.d = f.d.styles(s);
        cx.cls("styles given as a whole");
    }
    let mut nid = 1;
    if o.num > 0 && cx.g.chance(1, 6) {
        let mut n = Numberings::new();
        for _ in 0..cx.g.len(0, 2) {
            nid += 1;
            let (a, x) = abstract_num(cx, nid);
            n = n.add_abstract_numbering(a);
            f.abs.push(x);
            let (m, x) = num(cx, nid, nid);
            n = n.add_numbering(m);
            f.nums.push(x);
        }
        f.d = f.d.numberings(n);
        cx.cls("numberings given as a whole");
    }
    if o.settings > 0 && cx.g.chance(1, 3) {
        let mut s = Settings::new();
        if cx.g.coin() {
            f.adjust = true;
            s = s.adjust_line_height_in_table();
        }
        if cx.g.coin() {
            let i = cx.g.n(3);
            s = s.character_spacing_control(SPACINGS[i].0);
            f.spacing_control = Some(SPACINGS[i].1);
        }
        if cx.g.chance(1, 3) {
            s = s.even_and_odd_headers();
            f.even = true;
        }
        f.d = f.d.settings(s);
        cx.cls("settings given as a whole");
    }
    if cx.g.chance(1, 8) {
        let mut doc = Document::new();
        for _ in 0..cx.g.len(0, 2) {
            let m = para(cx);
            doc = doc.add_paragraph(m.v);
            f.body.extend(m.x);
        }
        if cx.g.coin() && o.section > 0 {
            let (s, x, even) = sect_prop(cx);
            doc = doc.default_section_property(s);
            f.sect = x;
            low_even |= even;
        }
        f.d = f.d.document(doc);
        cx.cls("document given as a whole");
    }
    let weights = [o.block, o.section, o.hf, o.page, o.style, o.default, o.num, o.settings, o.props, o.item, o.ext, o.comment];
    let total: u64 = weights.iter().sum();
    let n = cx.g.len(1, o.calls);
    for _ in 0..n {
        f.calls += 1;
        let mut r = cx.g.below(total);
        let mut k = 0;
        while r >= weights[k] {
            r -= weights[k];
            k += 1;
        }
        match k {
            0 => {
                let b = block(cx);
                f.d = add_block(std::mem::take(&mut f.d), b.v);
                f.body.extend(b.x);
            }
            1 => {
                if cx.g.chance(1, 4) {
                    let (p, x, ev) = para_sect(cx);
                    f.d = std::mem::take(&mut f.d).add_paragraph(p);
                    f.body.extend(x);
                    low_even |= ev;
                } else {
                    let (s, x, ev, low) = section(cx);
                    f.d = std::mem::take(&mut f.d).add_section(s);
                    f.body.extend(x);
                    f.even |= ev;
                    low_even |= low;
                }
                f.sections += 1;
                cx.cls("section");
            }
            2 => add_hf(cx, &mut f),
            3 => add_page(cx, &mut f),
            4 => {
                ids += 1;
                let id = if cx.g.chance(1, 10) && !f.styles.iter().any(|s| s.attr("w:styleId") == Some("Normal")) {
                    cx.cls("preset style replaced");
                    "Normal".to_string()
                } else {
                    format!("S{ids}")
                };
                let (s, x) = style(cx, &id);
                f.d = std::mem::take(&mut f.d).add_style(s);
                f.styles.push(x);
            }
            5 => {
                let d = std::mem::take(&mut f.d);
                f.d = match cx.g.n(4) {
                    0 => {
                        let n = cx.g.num(1, 400) as usize;
                        f.def_r.apply(&RS::Size(n));
                        d.default_size(n)
                    }
                    1 => {
                        let n = cx.g.num(-1000, 1000) as i32;
                        f.def_r.apply(&RS::Spacing(n));
                        d.default_spacing(n)
                    }
                    2 => {
                        let h = loop {
                            let h = rs(cx.g, RTarget::Prop, cx.cfg.f);
                            if let RS::Fonts(x) = h {
                                break x;
                            }
                        };
                        let v = h.lib();
                        f.def_r.apply(&RS::Fonts(h));
                        d.default_fonts(v)
                    }
                    _ => {
                        let h = loop {
                            let h = ps(cx.g, PTarget::Prop, cx.cfg.f);
                            if let PS::Line(x) = h {
                                break x;
                            }
                        };
                        let v = h.lib();
                        f.def_line = Some(h);
                        d.default_line_spacing(v)
                    }
                };
                cx.cls("document default");
            }
            6 => {
                let d = std::mem::take(&mut f.d);
                nid += 1;
                // the preset definition may be replaced
                let use_one = cx.g.chance(1, 5) && !f.abs.iter().any(|a| a.attr("w:abstractNumId") == Some("1"));
                if use_one || f.abs.is_empty() || cx.g.coin() {
                    let id = if use_one { 1 } else { nid };
                    let (a, x) = abstract_num(cx, id);
                    f.abs.push(x);
                    f.d = d.add_abstract_numbering(a);
                    if use_one {
                        cx.cls("preset numbering replaced");
                    }
                } else {
                    let ai = cx.g.n(f.abs.len());
                    let abs = f.abs[ai].attr("w:abstractNumId").unwrap().parse().unwrap();
                    let id = if cx.g.chance(1, 5) && !f.nums.iter().any(|a| a.attr("w:numId") == Some("1")) { 1 } else { nid };
                    let (m, x) = num(cx, id, abs);
                    f.nums.push(x);
                    f.d = d.add_numbering(m);
                }
            }
            7 => {
                let d = std::mem::take(&mut f.d);
                f.d = match cx.g.n(3) {
                    0 => {
                        let s = cx.g.ident();
                        f.doc_id = Some(s.clone());
                        d.doc_id(&s)
                    }
                    1 => {
                        let n = cx.g.num(0, 5000) as usize;
                        f.tab_stop = n;
                        d.default_tab_stop(n)
                    }
                    _ => {
                        let (a, b) = (name_str(cx.g, cx.cfg.f.wild), no_ref(cx.val()));
                        f.doc_vars.push((a.clone(), b.clone()));
                        d.add_doc_var(&a, &b)
                    }
                };
                cx.cls("setting");
            }
            8 => {
                let d = std::mem::take(&mut f.d);
                f.d = match cx.g.n(3) {
                    0 => {
                        let s = cx.g.date();
                        f.created = s.clone();
                        d.created_at(&s)
                    }
                    1 => {
                        let s = cx.g.date();
                        f.updated = s.clone();
                        d.updated_at(&s)
                    }
                    _ => {
                        let (a, b) = (name_str(cx.g, cx.cfg.f.wild), no_ref(cx.val()));
                        f.custom.insert(a.clone(), b.clone());
                        d.custom_property(a, b)
                    }
                };
                cx.cls("document property");
            }
            9 => {
                let id = cx.g.ident();
                let (s, x) = item_el(cx, 0, &[]);
                f.d = std::mem::take(&mut f.d).add_custom_item(&id, &s);
                f.items.push((id, x));
                if f.items.len() > 1 {
                    cx.cls("several custom XML items");
                }
                cx.cls("custom XML item");
            }
            10 => {
                if f.exts.len() < 3 {
                    f.d = std::mem::take(&mut f.d).taskpanes();
                    let w = cx.cfg.f.wild;
                    let x = Ext {
                        id: cx.g.ident(),
                        reference: [name_str(cx.g, w), name_str(cx.g, w), name_str(cx.g, w), name_str(cx.g, w)],
                        props: vec![],
                    };
                    let mut x = x;
                    let mut e = WebExtension::new(&x.id, &x.reference[0], &x.reference[1], &x.reference[2], &x.reference[3]);
                    for _ in 0..cx.g.len(0, 2) {
                        let (a, b) = (name_str(cx.g, w), cx.val());
                        e = e.property(&a, &b);
                        x.props.push((a, b));
                    }
                    f.d = std::mem::take(&mut f.d).web_extension(e);
                    f.exts.push(x);
                    cx.cls("web extension");
                }
            }
            _ => {
                if cx.cfg.comments {
                    let (c, id) = comment(cx);
                    let mut d = std::mem::take(&mut f.d);
                    d.document = d.document.add_comment_start(c);
                    let m = para(cx);
                    d = d.add_paragraph(m.v);
                    d.document = d.document.add_comment_end(id);
                    f.d = d;
                    f.body.push(comment_start_x(id));
                    f.body.extend(m.x);
                    f.body.extend(comment_end_x(id));
                    cx.cls("comment at body level");
                }
            }
        }
    }
    if low_even && !f.even {
        // prepared properties leave the setting to the caller
        let mut d = std::mem::take(&mut f.d);
        d.settings = d.settings.even_and_odd_headers();
        f.d = d;
        f.even = true;
    }
    f
}

/// Body with its section properties, header and footer references replaced by
/// the content they lead to.
pub fn body_with_parts(p: &Pkg) -> Result<El, Fail> {
    let part = "word/document.xml";
    let x = p.xml(part)?;
    let mut b = match x.child("w:body") {
        Some(b) => b.clone(),
        None => return fail("document:no-body", "no w:body"),
    };
    resolve_refs(&mut b, p, part)?;
    embed(&mut b, p)?;
    Ok(norm(&b))
}
fn embed(e: &mut El, p: &Pkg) -> Result<(), Fail> {
    if e.name == "w:headerReference" || e.name == "w:footerReference" {
        let t = e.attr("r:id").unwrap_or("").trim_start_matches("PART:").to_string();
        if !p.has(&t) {
            return fail(format!("ref:missing-part:{}", e.name), format!("<{}> leads to absent part {t}", e.name));
        }
        let mut x = p.xml(&t)?;
        resolve_refs(&mut x, p, &t)?;
        e.attrs.retain(|(k, _)| k != "r:id");
        e.kids.push(Nd::E(El { attrs: vec![], ..x }));
        return Ok(());
    }
    for k in e.kids.iter_mut() {
        if let Nd::E(c) = k {
            embed(c, p)?;
        }
    }
    Ok(())
}

pub fn expected_body(f: &Full) -> El {
    norm(&el("w:body").ks(f.body.clone()).k(f.sect.x()))
}

/// Attribute free copy of a part root.
pub fn root(p: &Pkg, part: &str) -> Result<El, Fail> {
    if !p.has(part) {
        return fail(format!("part:missing:{part}"), format!("part {part} is missing"));
    }
    let mut x = p.xml(part)?;
    resolve_refs(&mut x, p, part)?;
    x.attrs.clear();
    Ok(x)
}
