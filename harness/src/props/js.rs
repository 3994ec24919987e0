//! Documents made through the JavaScript layer. A random program of calls of
//! the JavaScript classes is run twice: by the repository's TypeScript and its
//! bindings (in other processes), and as the calls of the library it stands for.
use super::build::{any_doc, same_objects};
use super::foreign::foreign_package;
use crate::doc::{body, Cfg, Ctx};
use crate::gen::G;
use crate::norm::{jdiff, jnorm, shape};
use crate::runner::{fail, guard, Case, Fail, Out, Prop, DEF};
use docx_rs::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::str::FromStr;

// ---------------------------------------------------------------- processes

struct Peer {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Peer {
    fn start(mut c: Command) -> Peer {
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap_or_else(|e| panic!("{c:?}: {e}"));
        let (to, from) = (child.stdin.take().expect("stdin"), BufReader::new(child.stdout.take().expect("stdout")));
        Peer { _child: child, to, from }
    }
    fn send(&mut self, v: &Value) -> String {
        let mut s = v.to_string();
        s.push('\n');
        self.to.write_all(s.as_bytes()).expect("the other process listens");
        let mut l = String::new();
        let n = self.from.read_line(&mut l).expect("the other process answers");
        assert!(n > 0, "the other process ended");
        l
    }
}

struct Peers {
    node: Peer,
    bind: Peer,
}

thread_local! {
    static PEERS: RefCell<Option<Peers>> = const { RefCell::new(None) };
}

fn start() -> Peers {
    let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    let bind = std::env::var("VERIF_JSBIND").map(Into::into).unwrap_or_else(|_| std::env::current_exe().expect("a path").with_file_name("jsbind"));
    let d = Command::new(&bind).arg("describe").output().expect("the bindings can be described");
    assert!(d.status.success(), "the bindings can be described");
    let mut node = Command::new("node");
    node.arg(concat!(env!("CARGO_MANIFEST_DIR"), "/../jsbind/driver.js")).arg(repo).arg(String::from_utf8(d.stdout).expect("utf-8").trim());
    Peers { node: Peer::start(node), bind: Peer::start(Command::new(bind)) }
}

enum Got {
    Bytes(Vec<u8>),
    Text(String),
}

/// What the program gives in JavaScript for each of the ends.
fn javascript(program: &Value, ends: &[Value]) -> Result<Vec<Got>, Fail> {
    PEERS.with(|p| {
        let mut p = p.borrow_mut();
        let p = p.get_or_insert_with(start);
        let a: Value = serde_json::from_str(&p.node.send(&json!({"program": program, "ends": ends}))).expect("an answer");
        if let Some(e) = a["error"].as_str() {
            return fail(format!("throws:{}", word(e)), format!("{e}\n{}", a["stack"].as_str().unwrap_or("")));
        }
        let mut out = vec![];
        for r in a["results"].as_array().expect("results") {
            let l = p.bind.send(r);
            let (kind, n) = l.trim().split_once(' ').expect("an answer");
            let mut b = vec![0; n.parse().expect("a length")];
            p.bind.from.read_exact(&mut b).expect("an answer");
            out.push(match kind {
                "bytes" => Got::Bytes(b),
                "text" => Got::Text(String::from_utf8(b).expect("utf-8")),
                k => {
                    let m = String::from_utf8_lossy(&b).to_string();
                    return fail(format!("{k}:{}", word(&m)), format!("{k}: {m}"));
                }
            });
        }
        assert_eq!(out.len(), ends.len());
        Ok(out)
    })
}

fn word(s: &str) -> String {
    s.chars().filter(|c| !c.is_ascii_digit()).take(60).collect()
}

// ---------------------------------------------------------------- programs

type Calls = Vec<Value>;

macro_rules! js {
    ($k:expr, $m:expr $(, $a:expr)*) => { $k.push(json!([$m $(, $a)*])) };
}

fn obj(class: &str, args: Value, calls: Calls) -> Value {
    json!({"new": class, "args": args, "calls": calls})
}

fn of<T: FromStr>(s: &str) -> T {
    T::from_str(s).ok().expect("a value of the type")
}

fn nothing() -> Value {
    json!({"nothing": 1})
}

/// A text, never empty.
fn text(g: &mut G) -> String {
    let t = g.text();
    if t.is_empty() {
        "t".into()
    } else {
        t
    }
}

const BORDERS: &[&str] = &[
    "nil", "none", "single", "thick", "double", "dotted", "dashed", "dotDash", "dotDotDash", "triple", "thinThickSmallGap", "thickThinSmallGap",
    "thinThickThinSmallGap", "thinThickMediumGap", "thickThinMediumGap", "thinThickThinMediumGap", "thinThickLargeGap", "thickThinLargeGap",
    "thinThickThinLargeGap", "wave", "doubleWave", "dashSmallGap", "dashDotStroked", "threeDEmboss", "threeDEngrave", "outset", "inset", "apples",
    "archedScallops", "babyPacifier", "babyRattle",
];
const ALIGN: &[&str] = &["center", "right", "left", "distribute", "both", "start", "end", "justified"];

fn fonts(g: &mut G) -> (Value, RunFonts) {
    let (mut k, mut f) = (vec![], RunFonts::new());
    for _ in 0..g.len(1, 3) {
        let v = text(g);
        macro_rules! m {
            ($j:expr, $r:ident) => {{
                js!(k, $j, v);
                f = f.$r(&v);
            }};
        }
        match g.n(9) {
            0 => m!("ascii", ascii),
            1 => m!("hiAnsi", hi_ansi),
            2 => m!("eastAsia", east_asia),
            3 => m!("cs", cs),
            4 => m!("asciiTheme", ascii_theme),
            5 => m!("hiAnsiTheme", hi_ansi_theme),
            6 => m!("eastAsiaTheme", east_asia_theme),
            7 => m!("csTheme", cs_theme),
            _ => m!("hint", hint),
        }
    }
    (obj("RunFonts", json!([]), k), f)
}

fn shading(g: &mut G) -> (String, String, String, Shading) {
    let t = *g.pick(&["nil", "clear", "solid", "horzStripe", "diagCross", "pct5", "pct62", "thinVertStripe"]);
    let (c, f) = (g.color(), g.color());
    let s = Shading::new().color(&c).fill(&f).shd_type(of(t));
    (t.into(), c, f, s)
}

fn line_spacing(g: &mut G) -> (Value, LineSpacing) {
    let (mut k, mut s) = (vec![], LineSpacing::new());
    for _ in 0..g.len(1, 3) {
        let n = g.num(0, 2000) as u32;
        match g.n(6) {
            0 => {
                js!(k, "before", n);
                s = s.before(n);
            }
            1 => {
                js!(k, "after", n);
                s = s.after(n);
            }
            2 => {
                js!(k, "beforeLines", n);
                s = s.before_lines(n);
            }
            3 => {
                js!(k, "afterLines", n);
                s = s.after_lines(n);
            }
            4 => {
                js!(k, "line", n);
                s = s.line(n as i32);
            }
            _ => {
                let r = *g.pick(&["atLeast", "auto", "exact"]);
                js!(k, "lineRule", r);
                s = s.line_rule(of(r));
            }
        }
    }
    (obj("LineSpacing", json!([]), k), s)
}

/// Which class run properties are set on.
#[derive(Clone, Copy, PartialEq)]
enum On {
    Run,
    Property,
    Style,
    Level,
    Paragraph,
    Mark,
}

/// One property of a run.
fn run_property(g: &mut G, on: On, k: &mut Calls, p: RunProperty) -> RunProperty {
    loop {
        let n = g.n(25);
        let ok = match on {
            On::Run => n < 19,
            On::Property => !matches!(n, 19 | 20),
            On::Style => n < 17,
            On::Level => matches!(n, 0..=8 | 21..=23),
            On::Paragraph => matches!(n, 0..=3 | 5 | 8 | 15 | 16),
            On::Mark => matches!(n, 0..=3 | 5),
        };
        // one kind of strike puts out the other
        let other = matches!(n, 4 | 23) && p.dstrike.is_some() || matches!(n, 10 | 24) && p.strike.is_some();
        if !ok || other {
            continue;
        }
        return match n {
            0 => {
                let s = g.num(1, 400) as usize;
                js!(k, "size", s);
                p.size(s)
            }
            1 => {
                let c = g.color();
                js!(k, "color", c);
                p.color(c)
            }
            2 => {
                js!(k, "bold");
                p.bold()
            }
            3 => {
                js!(k, "italic");
                p.italic()
            }
            4 => {
                js!(k, "strike");
                p.strike()
            }
            5 => {
                let (v, f) = fonts(g);
                js!(k, "fonts", v);
                p.fonts(f)
            }
            6 => {
                let u = *g.pick(&["single", "double", "wave", "dash", "none"]);
                js!(k, "underline", u);
                p.underline(u)
            }
            7 => {
                js!(k, "vanish");
                p.vanish()
            }
            8 => {
                let s = g.num(-300, 300) as i32;
                js!(k, if matches!(on, On::Run | On::Property) { "spacing" } else { "characterSpacing" }, s);
                p.character_spacing(s)
            }
            9 => {
                let c = *g.pick(&["yellow", "red", "darkBlue"]);
                js!(k, "highlight", c);
                p.highlight(c)
            }
            10 => {
                js!(k, "dstrike");
                p.dstrike()
            }
            11 => {
                let v = *g.pick(&["superscript", "subscript", "baseline"]);
                js!(k, "vertAlign", v);
                p.vert_align(of(v))
            }
            12 => {
                let v = g.num(0, 4000) as usize;
                let id = if g.coin() { Some(g.num(0, 90) as u32) } else { None };
                match id {
                    Some(i) => js!(k, "fitText", v, i),
                    None => js!(k, "fitText", v),
                }
                p.fit_text(v, id)
            }
            13 => {
                let t = *g.pick(BORDERS);
                let (s, sp, c) = (g.num(0, 90) as usize, g.num(0, 31) as usize, g.color());
                js!(k, "textBorder", t, s, sp, c);
                p.text_border(TextBorder::new().border_type(of(t)).size(s).space(sp).color(c))
            }
            14 => {
                let s = g.ident();
                js!(k, "style", s);
                p.style(&s)
            }
            15 => {
                let (a, d) = (text(g), g.date());
                js!(k, "delete", a, d);
                p.delete(Delete::new().author(a).date(d))
            }
            16 => {
                let (a, d) = (text(g), g.date());
                js!(k, "insert", a, d);
                p.insert(Insert::new_with_empty().author(a).date(d))
            }
            17 => {
                js!(k, "caps");
                p.caps()
            }
            18 => {
                let (t, c, f, s) = shading(g);
                js!(k, "shading", t, c, f);
                p.shading(s)
            }
            21 => {
                js!(k, "disableBold");
                p.disable_bold()
            }
            22 => {
                js!(k, "disableItalic");
                p.disable_italic()
            }
            23 => {
                js!(k, "disableStrike");
                p.disable_strike()
            }
            _ => {
                js!(k, "disableDstrike");
                p.disable_dstrike()
            }
        };
    }
}

fn whole_run_property(g: &mut G) -> (Value, RunProperty) {
    let (mut k, mut p) = (vec![], RunProperty::new());
    for _ in 0..g.len(0, 4) {
        p = run_property(g, On::Property, &mut k, p);
    }
    (obj("RunProperty", json!([]), k), p)
}

/// Ids handed out so far.
#[derive(Default)]
struct Ids {
    next: usize,
    depth: usize,
    classes: std::collections::BTreeSet<&'static str>,
}

impl Ids {
    fn id(&mut self) -> usize {
        self.next += 1;
        self.next - 1
    }
}

fn run(g: &mut G, c: &mut Ids) -> (Value, Run) {
    let (mut k, mut r) = (vec![], Run::new());
    for _ in 0..g.len(0, 3) {
        match g.n(10) {
            0..=2 => {
                let t = g.text();
                js!(k, "addText", t);
                r = r.add_text(t);
            }
            3 => {
                let t = g.text();
                js!(k, "addDeleteText", t);
                r = r.add_delete_text(t);
            }
            4 => {
                js!(k, "addTab");
                r = r.add_tab();
            }
            5 => {
                let (n, t) = *g.pick(&[("page", BreakType::Page), ("column", BreakType::Column), ("textWrapping", BreakType::TextWrapping)]);
                js!(k, "addBreak", n);
                r = r.add_break(t);
            }
            6 => {
                js!(k, "addCarriageReturn");
                r = r.add_carriage_return();
            }
            7 => {
                c.classes.insert("positional tab");
                let mut p = PositionalTab::new(PositionalTabAlignmentType::Left, PositionalTabRelativeTo::Margin, TabLeaderType::None);
                let mut pk = vec![];
                if g.coin() {
                    let a = *g.pick(&["left", "center", "right"]);
                    js!(pk, "alignment", a);
                    p = p.alignment(of(a));
                }
                if g.coin() {
                    let a = *g.pick(&["margin", "indent"]);
                    js!(pk, "relativeTo", a);
                    p = p.relative_to(of(a));
                }
                if g.coin() {
                    let a = *g.pick(&["dot", "heavy", "hyphen", "middleDot", "none", "underscore"]);
                    js!(pk, "leader", a);
                    p = p.leader(of(a));
                }
                js!(k, "addPositionalTab", obj("PositionalTab", json!([]), pk));
                r = r.add_ptab(p);
            }
            8 => {
                c.classes.insert("entry of contents");
                let t = text(g);
                let (mut tk, mut e) = (vec![], InstrTC::new(&t));
                if g.coin() {
                    let l = g.num(0, 9) as usize;
                    js!(tk, "level", l);
                    e = e.level(l);
                }
                if g.coin() {
                    js!(tk, "omitPageNumber");
                    e = e.omits_page_number();
                }
                if g.coin() {
                    let i = g.ident();
                    js!(tk, "identifier", i);
                    e = e.item_type_identifier(i);
                }
                js!(k, "addTc", obj("Tc", json!([t]), tk));
                r = r.add_tc(e);
            }
            _ => {
                c.classes.insert("image");
                let b = crate::doc::png(g.n(4) as u64);
                let (mut pk, mut p) = (vec![], Pic::new(&b));
                if g.coin() {
                    let (w, h) = (g.num(1, 9000000) as u32, g.num(1, 9000000) as u32);
                    js!(pk, "size", w, h);
                    p = p.size(w, h);
                }
                if g.coin() {
                    js!(pk, "floating");
                    p = p.floating();
                }
                if g.coin() {
                    let x = g.num(-900000, 900000) as i32;
                    js!(pk, "offsetX", x);
                    p = p.offset_x(x);
                }
                if g.coin() {
                    let x = g.num(-900000, 900000) as i32;
                    js!(pk, "offsetY", x);
                    p = p.offset_y(x);
                }
                if g.coin() {
                    let x = g.num(0, 359) as u16;
                    js!(pk, "rotate", x);
                    p = p.rotate(x);
                }
                js!(k, "addImage", obj("Image", json!([{"bytes": b}]), pk));
                r = r.add_image(p);
            }
        }
    }
    for _ in 0..g.len(0, 3) {
        r.run_property = run_property(g, On::Run, &mut k, r.run_property);
    }
    (obj("Run", json!([]), k), r)
}

fn insert(g: &mut G, c: &mut Ids) -> (Value, Insert) {
    let (v, r) = run(g, c);
    let (mut k, mut i) = (vec![], Insert::new(r));
    if g.coin() {
        let a = text(g);
        js!(k, "author", a);
        i = i.author(a);
    }
    if g.coin() {
        let a = g.date();
        js!(k, "date", a);
        i = i.date(a);
    }
    (obj("Insert", json!([v]), k), i)
}

fn delete(g: &mut G, c: &mut Ids) -> (Value, Delete) {
    let (v, r) = run(g, c);
    let (mut k, mut i) = (vec![], Delete::new().add_run(r));
    if g.coin() {
        let a = text(g);
        js!(k, "author", a);
        i = i.author(a);
    }
    if g.coin() {
        let a = g.date();
        js!(k, "date", a);
        i = i.date(a);
    }
    (obj("Delete", json!([v]), k), i)
}

fn comment(g: &mut G, c: &mut Ids) -> (usize, Value, Comment) {
    c.classes.insert("comment");
    let id = c.id();
    let (mut k, mut m) = (vec![], Comment::new(id));
    if g.coin() {
        let a = text(g);
        js!(k, "author", a);
        m = m.author(a);
    }
    if g.coin() {
        let a = g.date();
        js!(k, "date", a);
        m = m.date(a);
    }
    if id > 0 && g.chance(1, 3) {
        c.classes.insert("reply");
        let p = g.n(id);
        js!(k, "parentCommentId", p);
        m = m.parent_comment_id(p);
    }
    for _ in 0..g.len(0, 2) {
        let (v, p) = paragraph(g, c, false);
        js!(k, "addParagraph", v);
        m = m.add_paragraph(p);
    }
    (id, obj("Comment", json!([id]), k), m)
}

fn hyperlink(g: &mut G, c: &mut Ids) -> (Value, Hyperlink) {
    c.classes.insert("link");
    let t = text(g);
    let (n, ty) = g.pick(&[("anchor", HyperlinkType::Anchor), ("external", HyperlinkType::External)]).clone();
    let (mut k, mut h) = (vec![], Hyperlink::new(&t, ty));
    for _ in 0..g.len(0, 3) {
        match g.n(6) {
            0 | 1 => {
                let (v, r) = run(g, c);
                js!(k, "addRun", v);
                h = h.add_run(r);
            }
            2 => {
                let (v, r) = insert(g, c);
                js!(k, "addInsert", v);
                h = h.add_insert(r);
            }
            3 => {
                let (v, r) = delete(g, c);
                js!(k, "addDelete", v);
                h = h.add_delete(r);
            }
            4 => {
                let (i, n) = (c.id(), g.ident());
                js!(k, "addBookmarkStart", i, n);
                js!(k, "addBookmarkEnd", i);
                h = h.add_bookmark_start(i, n).add_bookmark_end(i);
            }
            _ => {
                let (i, v, m) = comment(g, c);
                js!(k, "addCommentStart", v);
                js!(k, "addCommentEnd", obj("CommentEnd", json!([i]), vec![]));
                h = h.add_comment_start(m).add_comment_end(i);
            }
        }
    }
    (obj("Hyperlink", json!([t, n]), k), h)
}

fn indent(g: &mut G) -> (i32, Value, Option<SpecialIndentType>, Vec<Value>) {
    let left = g.num(-2000, 4000) as i32;
    if !g.coin() {
        return (left, nothing(), None, vec![json!(left)]);
    }
    let n = g.num(0, 2000) as i32;
    let (name, s) = if g.coin() { ("firstLine", SpecialIndentType::FirstLine(n)) } else { ("hanging", SpecialIndentType::Hanging(n)) };
    (left, json!(name), Some(s), vec![json!(left), json!(name), json!(n)])
}

fn tabs(g: &mut G) -> (Value, Vec<Tab>) {
    let (mut v, mut t) = (vec![], vec![]);
    for _ in 0..g.len(1, 3) {
        let val = *g.pick(&["bar", "center", "clear", "decimal", "end", "right", "num", "start", "left", ""]);
        let leader = *g.pick(&["dot", "heavy", "hyphen", "middleDot", "none", "underscore", ""]);
        let pos = if g.chance(3, 4) { Some(g.num(0, 9000) as usize) } else { None };
        let o = |s: &str| if s.is_empty() { Value::Null } else { json!(s) };
        v.push(json!({"val": o(val), "leader": o(leader), "pos": pos}));
        t.push(Tab { val: (!val.is_empty()).then(|| of(val)), leader: (!leader.is_empty()).then(|| of(leader)), pos });
    }
    (json!(v), t)
}

fn paragraph(g: &mut G, c: &mut Ids, rich: bool) -> (Value, Paragraph) {
    let (mut k, mut p) = (vec![], Paragraph::new());
    for _ in 0..g.len(0, 3) {
        match if rich { g.n(12) } else { g.n(4) } {
            0..=2 => {
                let (v, r) = run(g, c);
                js!(k, "addRun", v);
                p = p.add_run(r);
            }
            3 => {
                let (v, r) = insert(g, c);
                js!(k, "addInsert", v);
                p = p.add_insert(r);
            }
            4 => {
                let (v, r) = delete(g, c);
                js!(k, "addDelete", v);
                p = p.add_delete(r);
            }
            5 | 6 => {
                let (v, r) = hyperlink(g, c);
                js!(k, "addHyperlink", v);
                p = p.add_hyperlink(r);
            }
            7 => {
                let (i, n) = (c.id(), g.ident());
                js!(k, "addBookmarkStart", i, n);
                js!(k, "addBookmarkEnd", i);
                p = p.add_bookmark_start(i, n).add_bookmark_end(i);
            }
            8 => {
                js!(k, "addPageNum");
                p = p.add_page_num(PageNum::new());
            }
            9 => {
                js!(k, "addNumPages");
                p = p.add_num_pages(NumPages::new());
            }
            _ => {
                let (i, v, m) = comment(g, c);
                js!(k, "addCommentStart", v);
                let (rv, r) = run(g, c);
                js!(k, "addRun", rv);
                js!(k, "addCommentEnd", obj("CommentEnd", json!([i]), vec![]));
                p = p.add_comment_start(m).add_run(r).add_comment_end(i);
            }
        }
    }
    let mut tabbed = false;
    for _ in 0..g.len(0, 4) {
        match g.n(18) {
            0..=2 => {
                // the mark's own properties
                let mut own = vec![];
                let rp = run_property(g, On::Paragraph, &mut own, p.property.run_property.clone());
                p.property.run_property = rp;
                k.append(&mut own);
            }
            3 if !tabbed => {
                tabbed = true;
                let (v, t) = tabs(g);
                js!(k, "tabs", v);
                for t in t {
                    p = p.add_tab(t);
                }
            }
            4 => {
                let a = *g.pick(ALIGN);
                js!(k, "align", a);
                p = p.align(of(a));
            }
            5 => {
                let a = *g.pick(&["auto", "baseline", "bottom", "center", "top"]);
                js!(k, "textAlignment", a);
                p.property = p.property.text_alignment(of(a));
            }
            6 => {
                let n = g.num(-5, 5) as isize;
                js!(k, "adjustRightInd", n);
                p.property = p.property.adjust_right_ind(n);
            }
            7 => {
                let s = g.ident();
                js!(k, "style", s);
                p = p.style(&s);
            }
            8 => {
                let (left, kind, special, mut args) = indent(g);
                let right = if g.coin() { Some(g.num(-2000, 2000) as i32) } else { None };
                if let Some(r) = right {
                    if special.is_none() {
                        args.push(kind);
                        args.push(nothing());
                    }
                    args.push(json!(r));
                }
                let mut call = vec![json!("indent")];
                call.append(&mut args);
                k.push(Value::Array(call));
                p = p.indent(Some(left), special, right, None);
            }
            9 => {
                c.classes.insert("numbered paragraph");
                let (i, l) = (g.num(0, 9) as usize, g.num(0, 8) as usize);
                js!(k, "numbering", i, l);
                p = p.numbering(NumberingId::new(i), IndentLevel::new(l));
            }
            10 => {
                let (v, s) = line_spacing(g);
                js!(k, "lineSpacing", v);
                p = p.line_spacing(s);
            }
            11 => {
                let v = g.coin();
                js!(k, "snapToGrid", v);
                p = p.snap_to_grid(v);
            }
            12 => {
                let v = g.coin();
                match g.n(4) {
                    0 => {
                        js!(k, "keepNext", v);
                        p = p.keep_next(v);
                    }
                    1 => {
                        js!(k, "keepLines", v);
                        p = p.keep_lines(v);
                    }
                    2 => {
                        js!(k, "pageBreakBefore", v);
                        p = p.page_break_before(v);
                    }
                    _ => {
                        js!(k, "widowControl", v);
                        p = p.widow_control(v);
                    }
                }
            }
            13 => {
                let l = g.num(0, 8) as usize;
                js!(k, "outlineLevel", l);
                p = p.outline_lvl(l);
            }
            14 => {
                c.classes.insert("earlier properties");
                let (a, d) = (text(g), g.date());
                let mut ck = vec![json!(["author", a]), json!(["date", d])];
                let mut old = ParagraphProperty::new();
                for _ in 0..g.len(0, 2) {
                    match g.n(4) {
                        0 => {
                            let (i, l) = (g.num(0, 9) as usize, g.num(0, 8) as usize);
                            js!(ck, "numbering", i, l);
                            old = old.numbering(NumberingId::new(i), IndentLevel::new(l));
                        }
                        1 => {
                            let a = *g.pick(ALIGN);
                            js!(ck, "align", a);
                            old = old.align(of(a));
                        }
                        2 => {
                            let s = g.ident();
                            js!(ck, "style", s);
                            old = old.style(&s);
                        }
                        _ => {
                            let (left, _, special, mut args) = indent(g);
                            let mut call = vec![json!("indent")];
                            call.append(&mut args);
                            ck.push(Value::Array(call));
                            old = old.indent(Some(left), special, None, None);
                        }
                    }
                }
                js!(k, "paragraphPropertyChange", obj("ParagraphPropertyChange", json!([]), ck));
                p = p.paragraph_property_change(ParagraphPropertyChange::new().author(a).date(d).property(old));
            }
            _ => {
                c.classes.insert("frame");
                let (s, n) = (g.pick(&["around", "page", "center", "exact"]).to_string(), g.num(0, 3000));
                macro_rules! f {
                    ($j:expr, $r:ident, $v:expr) => {{
                        js!(k, $j, $v);
                        p = p.$r($v);
                    }};
                }
                match g.n(12) {
                    0 => f!("frameHeight", frame_height, n as u32),
                    1 => f!("frameWidth", frame_width, n as u32),
                    2 => f!("hRule", h_rule, s.clone()),
                    3 => f!("hAnchor", h_anchor, s.clone()),
                    4 => f!("vAnchor", v_anchor, s.clone()),
                    5 => f!("wrap", wrap, s.clone()),
                    6 => f!("xAlign", x_align, s.clone()),
                    7 => f!("yAlign", y_align, s.clone()),
                    8 => f!("hSpace", h_space, n as i32),
                    9 => f!("vSpace", v_space, n as i32),
                    10 => f!("frameX", frame_x, -(n as i32)),
                    _ => f!("frameY", frame_y, -(n as i32)),
                }
            }
        }
    }
    (obj("Paragraph", json!([]), k), p)
}

/// Properties of a paragraph on their own.
fn paragraph_property(g: &mut G) -> (Value, ParagraphProperty) {
    let (mut k, mut p) = (vec![], ParagraphProperty::new());
    let mut tabbed = false;
    for _ in 0..g.len(0, 3) {
        match g.n(13) {
            12 => {
                let (mut v, mut f) = (json!({}), FrameProperty::new());
                for _ in 0..g.len(1, 4) {
                    let (s, n) = (g.pick(&["around", "page", "center", "exact"]).to_string(), g.num(0, 3000));
                    macro_rules! f {
                        ($j:expr, $r:ident, $v:expr) => {{
                            v[$j] = json!($v);
                            f = f.$r($v);
                        }};
                    }
                    match g.n(12) {
                        0 => f!("h", height, n as u32),
                        1 => f!("w", width, n as u32),
                        2 => f!("hRule", h_rule, s.clone()),
                        3 => f!("hAnchor", h_anchor, s.clone()),
                        4 => f!("vAnchor", v_anchor, s.clone()),
                        5 => f!("wrap", wrap, s.clone()),
                        6 => f!("xAlign", x_align, s.clone()),
                        7 => f!("yAlign", y_align, s.clone()),
                        8 => f!("hSpace", h_space, n as i32),
                        9 => f!("vSpace", v_space, n as i32),
                        10 => f!("x", x, -(n as i32)),
                        _ => f!("y", y, -(n as i32)),
                    }
                }
                js!(k, "=frameProperty", v);
                p = p.frame_property(f);
            }
            6 => {
                let mut own = vec![];
                p.run_property = run_property(g, On::Mark, &mut own, p.run_property);
                for mut call in own {
                    call[0] = json!(format!("runProperty.{}", call[0].as_str().unwrap()));
                    k.push(call);
                }
            }
            7 => {
                let (left, kind, special, args) = indent(g);
                let right = if g.coin() { Some(g.num(-500, 900) as i32) } else { None };
                let mut v = json!({"left": left});
                if special.is_some() {
                    v["specialIndentKind"] = kind;
                    v["specialIndentSize"] = args[2].clone();
                }
                if let Some(r) = right {
                    v["right"] = json!(r);
                }
                js!(k, "=indent", v);
                p = p.indent(Some(left), special, right, None);
            }
            8 => {
                let (v, s) = line_spacing(g);
                js!(k, "=lineSpacing", v);
                p = p.line_spacing(s);
            }
            9 => {
                let (i, l) = (g.num(0, 9) as usize, g.num(0, 8) as usize);
                js!(k, "=numbering", json!({"id": i, "level": l}));
                p = p.numbering(NumberingId::new(i), IndentLevel::new(l));
            }
            10 => {
                let l = g.num(0, 8) as usize;
                js!(k, "=outlineLvl", l);
                p = p.outline_lvl(l);
            }
            11 => {
                let v = g.coin();
                match g.n(4) {
                    0 => {
                        js!(k, "=keepNext", v);
                        p = p.keep_next(v);
                    }
                    1 => {
                        js!(k, "=keepLines", v);
                        p = p.keep_lines(v);
                    }
                    2 => {
                        js!(k, "=pageBreakBefore", v);
                        p = p.page_break_before(v);
                    }
                    _ => {
                        js!(k, "=widowControl", v);
                        p = p.widow_control(v);
                    }
                }
            }
            0 => {
                let a = *g.pick(ALIGN);
                js!(k, "align", a);
                p = p.align(of(a));
            }
            1 => {
                let a = *g.pick(&["auto", "baseline", "bottom", "center", "top"]);
                js!(k, "textAlignment", a);
                p = p.text_alignment(of(a));
            }
            2 => {
                let n = g.num(-5, 5) as isize;
                js!(k, "adjustRightInd", n);
                p = p.adjust_right_ind(n);
            }
            3 => {
                let v = g.coin();
                js!(k, "snapToGrid", v);
                p = p.snap_to_grid(v);
            }
            4 => {
                let s = g.ident();
                js!(k, "style", s);
                p = p.style(&s);
            }
            _ if !tabbed => {
                tabbed = true;
                let (v, t) = tabs(g);
                js!(k, "tabs", v);
                for t in t {
                    p = p.add_tab(t);
                }
            }
            _ => {}
        }
    }
    (obj("ParagraphProperty", json!([]), k), p)
}

const WIDTHS: &[(&str, WidthType)] = &[("nil", WidthType::Nil), ("pct", WidthType::Pct), ("dxa", WidthType::Dxa), ("auto", WidthType::Auto)];

fn cell(g: &mut G, c: &mut Ids) -> (Value, TableCell) {
    use TableCellBorderPosition as B;
    const PLACES: &[(&str, TableCellBorderPosition)] = &[
        ("left", B::Left), ("right", B::Right), ("top", B::Top), ("bottom", B::Bottom), ("insideH", B::InsideH), ("insideV", B::InsideV), ("tl2br", B::Tl2br), ("tr2bl", B::Tr2bl),
    ];
    let (mut k, mut t) = (vec![], TableCell::new());
    for b in [B::Top, B::Left, B::Bottom, B::Right, B::InsideH, B::InsideV] {
        t = t.set_border(TableCellBorder::new(b));
    }
    for _ in 0..g.len(0, 2) {
        match g.n(6) {
            0 if c.depth < 2 => {
                let (v, x) = table(g, c);
                js!(k, "addTable", v);
                t = t.add_table(x);
            }
            1 if c.depth < 2 => {
                let (v, x) = contents(g, c);
                js!(k, "addTableOfContents", v);
                t = t.add_table_of_contents(x);
            }
            _ => {
                let (v, x) = paragraph(g, c, true);
                js!(k, "addParagraph", v);
                t = t.add_paragraph(x);
            }
        }
    }
    for _ in 0..g.len(0, 3) {
        match g.n(9) {
            0 => {
                let (n, v) = *g.pick(&[("restart", VMergeType::Restart), ("continue", VMergeType::Continue)]);
                js!(k, "verticalMerge", n);
                t = t.vertical_merge(v);
            }
            1 => {
                let (n, v) = *g.pick(&[("top", VAlignType::Top), ("center", VAlignType::Center), ("bottom", VAlignType::Bottom)]);
                js!(k, "verticalAlign", n);
                t = t.vertical_align(v);
            }
            2 => {
                let n = g.num(0, 9) as usize;
                js!(k, "gridSpan", n);
                t = t.grid_span(n);
            }
            3 => {
                let n = g.num(0, 9000) as usize;
                js!(k, "width", n);
                t = t.width(n, WidthType::Dxa);
            }
            4 => {
                let (ty, co, fi, s) = shading(g);
                js!(k, "shading", ty, co, fi);
                t = t.shading(s);
            }
            5 => {
                let d = *g.pick(&["lr", "lrV", "rl", "rlV", "tb", "tbV", "tbRlV", "tbRl", "btLr", "lrTbV"]);
                js!(k, "textDirection", d);
                t = t.text_direction(of(d));
            }
            6 => {
                let (n, at) = g.pick(PLACES).clone();
                let (mut bk, mut b) = (vec![], TableCellBorder::new(at));
                if g.coin() {
                    let s = g.num(0, 90) as usize;
                    js!(bk, "size", s);
                    b = b.size(s);
                }
                if g.coin() {
                    let s = g.color();
                    js!(bk, "color", s);
                    b = b.color(s);
                }
                if g.coin() {
                    let s = *g.pick(BORDERS);
                    js!(bk, "border_type", s);
                    b = b.border_type(of(s));
                }
                js!(k, *g.pick(&["setBorder", "property.borders.set"]), obj("TableCellBorder", json!([n]), bk));
                t = t.set_border(b);
            }
            7 => {
                let (n, at) = g.pick(PLACES).clone();
                js!(k, *g.pick(&["clearBorder", "property.borders.clear"]), n);
                t = t.set_border(TableCellBorder::new(at).border_type(BorderType::Nil));
                if g.chance(1, 6) {
                    js!(k, "property.borders.clearAll");
                    for (_, at) in PLACES {
                        t = t.set_border(TableCellBorder::new(at.clone()).border_type(BorderType::Nil));
                    }
                }
            }
            _ => {
                let (n, w) = *g.pick(WIDTHS);
                let v = g.num(0, 900) as usize;
                let p = t.property.clone();
                t.property = match g.n(4) {
                    0 => {
                        js!(k, "marginTop", v, n);
                        p.margin_top(v, w)
                    }
                    1 => {
                        js!(k, "marginLeft", v, n);
                        p.margin_left(v, w)
                    }
                    2 => {
                        js!(k, "marginRight", v, n);
                        p.margin_right(v, w)
                    }
                    _ => {
                        js!(k, "marginBottom", v, n);
                        p.margin_bottom(v, w)
                    }
                };
            }
        }
    }
    (obj("TableCell", json!([]), k), t)
}

fn row(g: &mut G, c: &mut Ids) -> (Value, TableRow) {
    let (mut k, mut cells) = (vec![], vec![]);
    for _ in 0..g.len(0, 3) {
        let (v, x) = cell(g, c);
        js!(k, "addCell", v);
        cells.push(x);
    }
    let mut r = TableRow::new(cells);
    if g.chance(1, 3) {
        let n = g.num(1, 4000);
        js!(k, "rowHeight", n);
        r = r.row_height(n as f32);
    }
    if g.chance(1, 3) {
        let (n, h) = *g.pick(&[("auto", HeightRule::Auto), ("atLeast", HeightRule::AtLeast), ("exact", HeightRule::Exact)]);
        js!(k, "heightRule", n);
        r = r.height_rule(h);
    }
    if g.chance(1, 5) {
        let (a, d) = (text(g), g.date());
        js!(k, "delete", a, d);
        r = r.delete(Delete::new().author(a).date(d));
    }
    if g.chance(1, 5) {
        let (a, d) = (text(g), g.date());
        js!(k, "insert", a, d);
        r = r.insert(Insert::new_with_empty().author(a).date(d));
    }
    (obj("TableRow", json!([]), k), r)
}

/// The properties a table has when nothing is said, and one that is set.
fn table_defaults(p: TableProperty) -> TableProperty {
    p.indent(0).set_margins(TableCellMargins::new().margin(0, 55, 0, 55))
}

fn table_property(g: &mut G, style: bool, k: &mut Calls, margins: &mut TableCellMargins, p: TableProperty) -> TableProperty {
    let (wn, w) = *g.pick(WIDTHS);
    let v = g.num(0, 900) as usize;
    match g.n(8) {
        0 => {
            let v = g.num(-900, 900) as i32;
            js!(k, if style { "tableIndent" } else { "indent" }, v);
            p.indent(v)
        }
        1 => {
            let a = *g.pick(&["center", "left", "right"]);
            js!(k, if style { "tableAlign" } else { "align" }, a);
            p.align(of(a))
        }
        2 => {
            let (n, l) = *g.pick(&[("fixed", TableLayoutType::Fixed), ("autofit", TableLayoutType::Autofit)]);
            js!(k, "layout", n);
            p.layout(l)
        }
        3 => {
            js!(k, "width", v);
            p.width(v, WidthType::Dxa)
        }
        4 => {
            let n: Vec<usize> = (0..4).map(|_| g.num(0, 900) as usize).collect();
            js!(k, "cellMargins", n[0], n[1], n[2], n[3]);
            *margins = TableCellMargins::new().margin(n[0], n[1], n[2], n[3]);
            p.set_margins(margins.clone())
        }
        n => {
            *margins = match n {
                5 => {
                    js!(k, "cellMarginTop", v, wn);
                    margins.clone().margin_top(v, w)
                }
                6 => {
                    js!(k, "cellMarginLeft", v, wn);
                    margins.clone().margin_left(v, w)
                }
                _ => {
                    if g.coin() {
                        js!(k, "cellMarginRight", v, wn);
                        margins.clone().margin_right(v, w)
                    } else {
                        js!(k, "cellMarginBottom", v, wn);
                        margins.clone().margin_bottom(v, w)
                    }
                }
            };
            p.set_margins(margins.clone())
        }
    }
}

fn table(g: &mut G, c: &mut Ids) -> (Value, Table) {
    c.classes.insert("table");
    c.depth += 1;
    let (mut k, mut t) = (vec![], Table::new(vec![]));
    for _ in 0..g.len(0, 2) {
        let (v, r) = row(g, c);
        js!(k, "addRow", v);
        t = t.add_row(r);
    }
    t.property = table_defaults(t.property);
    if g.coin() {
        let n: Vec<usize> = (0..g.len(0, 3)).map(|_| g.num(0, 9000) as usize).collect();
        js!(k, "setGrid", n);
        t = t.set_grid(n);
    }
    let mut margins = TableCellMargins::new().margin(0, 55, 0, 55);
    for _ in 0..g.len(0, 3) {
        match g.n(6) {
            0 => {
                let s = g.ident();
                js!(k, "style", s);
                t = t.style(s);
            }
            1 => {
                c.classes.insert("placed table");
                let (mut pk, mut p) = (vec![], TablePositionProperty::new());
                for _ in 0..g.len(0, 3) {
                    let (n, s) = (g.num(-900, 900) as i32, g.pick(&["page", "margin", "center", "inside"]).to_string());
                    macro_rules! m {
                        ($j:expr, $r:ident, $v:expr) => {{
                            js!(pk, $j, $v);
                            p = p.$r($v);
                        }};
                    }
                    match g.n(8) {
                        0 => m!("leftFromText", left_from_text, n),
                        1 => m!("rightFromText", right_from_text, n),
                        2 => m!("verticalAnchor", vertical_anchor, s.clone()),
                        3 => m!("horizontalAnchor", horizontal_anchor, s.clone()),
                        4 => m!("positionXAlignment", position_x_alignment, s.clone()),
                        5 => m!("positionYAlignment", position_y_alignment, s.clone()),
                        6 => m!("positionX", position_x, n),
                        _ => m!("positionY", position_y, n),
                    }
                }
                js!(k, "position", obj("TablePosition", json!([]), pk));
                t = t.position(p);
            }
            _ => t.property = table_property(g, false, &mut k, &mut margins, t.property),
        }
    }
    c.depth -= 1;
    (obj("Table", json!([]), k), t)
}

fn contents(g: &mut G, c: &mut Ids) -> (Value, TableOfContents) {
    c.classes.insert("table of contents");
    c.depth += 1;
    let (mut args, mut k, mut t) = (json!([]), vec![], TableOfContents::new());
    if g.chance(1, 4) {
        let s = *g.pick(&["TOC \\o \"1-3\" \\h \\z \\u", "TOC \\h", "anything"]);
        args = json!([s]);
        t = TableOfContents::with_instr_text(s);
    }
    for _ in 0..g.len(0, 4) {
        match g.n(13) {
            0 => {
                let (a, b) = (g.num(1, 9) as usize, g.num(1, 9) as usize);
                js!(k, "headingStylesRange", [a, b]);
                t = t.heading_styles_range(a, b);
            }
            1 => {
                let f = if g.coin() { Some(g.ident()) } else { None };
                match &f {
                    Some(f) => js!(k, "tcFieldIdentifier", f),
                    None => js!(k, "tcFieldIdentifier"),
                }
                t = t.tc_field_identifier(f);
            }
            2 => {
                let (s, l) = (g.ident(), g.num(1, 9) as usize);
                js!(k, "addStyleWithLevel", s, l);
                t = t.add_style_with_level(StyleWithLevel::new(s, l));
            }
            3 => {
                js!(k, "hyperlink");
                t = t.hyperlink();
            }
            4 => {
                let s = text(g);
                js!(k, "alias", s);
                t = t.alias(s);
            }
            5 => {
                let s = text(g);
                js!(k, "pageRefPlaceholder", s);
                t.page_ref_placeholder = Some(s);
            }
            6 => {
                js!(k, "auto");
                t = t.auto();
            }
            7 => {
                js!(k, "dirty");
                t = t.dirty();
            }
            8 => {
                js!(k, "withoutSdt");
                t = t.without_sdt();
            }
            9 if g.chance(1, 2) => {
                let (a, d) = (text(g), g.date());
                js!(k, "delete", a, d);
                t = t.delete(a, d);
            }
            10 => {
                let (mut ik, mut i) = (vec![], TableOfContentsItem::new());
                let s = text(g);
                js!(ik, "text", s);
                i = i.text(s);
                let key = format!("_Toc0000000{}", g.n(10));
                js!(ik, "tocKey", key);
                i = i.toc_key(key);
                if g.coin() {
                    let l = g.num(1, 9) as usize;
                    js!(ik, "level", l);
                    i = i.level(l);
                }
                if g.coin() {
                    let s = text(g);
                    js!(ik, "pageRef", s);
                    i = i.page_ref(s);
                }
                js!(k, "addItem", obj("TableOfContentsItem", json!([]), ik));
                t = t.add_item(i);
            }
            11 => {
                let (v, p) = paragraph_property(g);
                js!(k, "paragraphProperty", v);
                t = t.paragraph_property(p);
            }
            _ => match g.n(4) {
                0 if c.depth < 3 => {
                    let (v, x) = table(g, c);
                    js!(k, "addBeforeTable", v);
                    t = t.add_before_table(x);
                }
                1 if c.depth < 3 => {
                    let (v, x) = table(g, c);
                    js!(k, "addAfterTable", v);
                    t = t.add_after_table(x);
                }
                2 => {
                    let (v, x) = paragraph(g, c, false);
                    js!(k, "addBeforeParagraph", v);
                    t = t.add_before_paragraph(x);
                }
                _ => {
                    let (v, x) = paragraph(g, c, false);
                    js!(k, "addAfterParagraph", v);
                    t = t.add_after_paragraph(x);
                }
            },
        }
    }
    c.depth -= 1;
    (obj("TableOfContents", args, k), t)
}

fn style(g: &mut G) -> (Value, Style) {
    let (n, ty) = *g.pick(&[("paragraph", StyleType::Paragraph), ("character", StyleType::Character), ("numbering", StyleType::Numbering), ("table", StyleType::Table)]);
    let id = g.ident();
    let (mut k, mut s) = (vec![], Style::new(&id, ty));
    s.table_property = table_defaults(s.table_property);
    let mut margins = TableCellMargins::new().margin(0, 55, 0, 55);
    // a whole set of properties replaces those set one by one
    if g.chance(1, 4) {
        let (v, p) = whole_run_property(g);
        js!(k, "runProperty", v);
        s.run_property = p;
    }
    if g.chance(1, 4) {
        let (v, p) = paragraph_property(g);
        js!(k, "paragraphProperty", v);
        s.paragraph_property = p;
    }
    for _ in 0..g.len(0, 6) {
        match g.n(20) {
            0 => {
                let t = text(g);
                js!(k, "name", t);
                s = s.name(t);
            }
            1 => {
                let t = g.ident();
                js!(k, "basedOn", t);
                s = s.based_on(t);
            }
            2 => {
                let t = g.ident();
                js!(k, "link", t);
                s = s.link(t);
            }
            3 => {
                let v = g.coin();
                js!(k, "qFormat", v);
                s = s.q_format(v);
            }
            4 => {
                let v = g.num(0, 99) as usize;
                js!(k, "uiPriority", v);
                s = s.ui_priority(v);
            }
            5 => {
                js!(k, "semiHidden");
                s = s.semi_hidden();
            }
            6 => {
                js!(k, "unhideWhenUsed");
                s = s.unhide_when_used();
            }
            7..=9 => s.run_property = run_property(g, On::Style, &mut k, s.run_property),
            10 => {
                let a = *g.pick(ALIGN);
                js!(k, "align", a);
                s = s.align(of(a));
            }
            11 => {
                let (left, _, special, mut args) = indent(g);
                let mut call = vec![json!("indent")];
                call.append(&mut args);
                k.push(Value::Array(call));
                s = s.indent(Some(left), special, None, None);
            }
            12 => {
                let (i, l) = (g.num(0, 9) as usize, g.num(0, 8) as usize);
                js!(k, "numbering", i, l);
                s.paragraph_property = s.paragraph_property.numbering(NumberingId::new(i), IndentLevel::new(l));
            }
            13 => {
                let (v, l) = line_spacing(g);
                js!(k, "lineSpacing", v);
                s = s.line_spacing(l);
            }
            14 => {
                let v = g.coin();
                let p = s.paragraph_property.clone();
                s.paragraph_property = match g.n(5) {
                    0 => {
                        js!(k, "keepNext", v);
                        p.keep_next(v)
                    }
                    1 => {
                        js!(k, "keepLines", v);
                        p.keep_lines(v)
                    }
                    2 => {
                        js!(k, "pageBreakBefore", v);
                        p.page_break_before(v)
                    }
                    3 => {
                        js!(k, "widowControl", v);
                        p.widow_control(v)
                    }
                    _ => {
                        js!(k, "snapToGrid", v);
                        p.snap_to_grid(v)
                    }
                };
            }
            15 => {
                let l = g.num(0, 8) as usize;
                js!(k, "outlineLevel", l);
                s = s.outline_lvl(l);
            }
            _ => s.table_property = table_property(g, true, &mut k, &mut margins, s.table_property),
        }
    }
    (obj("Style", json!([id, n]), k), s)
}

fn level(g: &mut G) -> (Value, Level) {
    let (i, st) = (g.num(0, 8) as usize, g.num(0, 99) as usize);
    let (f, t, j) = (*g.pick(&["decimal", "bullet", "upperRoman"]), text(g), *g.pick(&["left", "center", "right"]));
    let (mut k, mut l) = (vec![], Level::new(i, Start::new(st), NumberFormat::new(f), LevelText::new(&t), LevelJc::new(j)));
    l = l.suffix(LevelSuffixType::Tab);
    for _ in 0..g.len(0, 3) {
        match g.n(6) {
            0 => {
                let (left, _, special, mut args) = indent(g);
                let mut call = vec![json!("indent")];
                call.append(&mut args);
                k.push(Value::Array(call));
                l = l.indent(Some(left), special, None, None);
            }
            1 => {
                let (n, s) = g.pick(&[("nothing", LevelSuffixType::Nothing), ("space", LevelSuffixType::Space), ("tab", LevelSuffixType::Tab)]).clone();
                js!(k, "suffix", n);
                l = l.suffix(s);
            }
            2 => {
                let c = *g.pick(&["yellow", "red", "darkBlue"]);
                js!(k, "highlight", c);
                l = l.highlight(c);
            }
            _ => l.run_property = run_property(g, On::Level, &mut k, l.run_property),
        }
    }
    (obj("Level", json!([i, st, f, t, j]), k), l)
}

fn blocks(g: &mut G, c: &mut Ids) -> (Calls, Vec<Result<Paragraph, Table>>) {
    let (mut k, mut out) = (vec![], vec![]);
    for _ in 0..g.len(0, 2) {
        if g.chance(3, 4) {
            let (v, p) = paragraph(g, c, false);
            js!(k, "addParagraph", v);
            out.push(Ok(p));
        } else {
            let (v, t) = table(g, c);
            js!(k, "addTable", v);
            out.push(Err(t));
        }
    }
    (k, out)
}

fn document(g: &mut G, c: &mut Ids) -> (Value, Docx) {
    let (mut k, mut d) = (vec![], Docx::new().default_tab_stop(840).page_size(11906, 16838));
    for _ in 0..g.len(0, 4) {
        match g.n(10) {
            0..=5 => {
                let (v, p) = paragraph(g, c, true);
                js!(k, "addParagraph", v);
                d = d.add_paragraph(p);
            }
            6 | 7 => {
                let (v, t) = table(g, c);
                js!(k, "addTable", v);
                d = d.add_table(t);
            }
            8 => {
                let (v, t) = contents(g, c);
                js!(k, "addTableOfContents", v);
                d = d.add_table_of_contents(t);
            }
            _ => {
                let (i, n) = (c.id(), g.ident());
                js!(k, "addBookmarkStart", i, n);
                js!(k, "addBookmarkEnd", i);
                d = d.add_bookmark_start(i, n).add_bookmark_end(i);
            }
        }
    }
    if g.chance(1, 4) {
        c.classes.insert("list");
        for i in 0..g.len(1, 2) {
            let (mut ak, mut a) = (vec![], AbstractNumbering::new(i));
            for _ in 0..g.len(0, 3) {
                let (v, l) = level(g);
                js!(ak, "addLevel", v);
                a = a.add_level(l);
            }
            js!(k, "addAbstractNumbering", obj("AbstractNumbering", json!([i]), ak));
            d = d.add_abstract_numbering(a);
        }
        for i in 1..1 + g.len(0, 2) {
            let of = g.num(0, 3) as usize;
            let (mut nk, mut n) = (vec![], Numbering::new(i, of));
            for _ in 0..g.len(0, 2) {
                let l = g.num(0, 8) as usize;
                let (mut ok, mut o) = (vec![], LevelOverride::new(l));
                if g.coin() {
                    let s = g.num(0, 9) as usize;
                    js!(ok, "overrideStart", s);
                    o = o.start(s);
                }
                if g.chance(1, 3) {
                    let (s, t) = (g.num(0, 9) as usize, text(g));
                    js!(ok, "overrideLevel", json!({"level": l, "start": s, "format": "decimal", "text": t, "jc": "left"}));
                    o = o.level(Level::new(l, Start::new(s), NumberFormat::new("decimal"), LevelText::new(&t), LevelJc::new("left")));
                }
                js!(nk, "addOverride", obj("LevelOverride", json!([l]), ok));
                n = n.add_override(o);
            }
            js!(k, "addNumbering", obj("Numbering", json!([i, of]), nk));
            d = d.add_numbering(n);
        }
    }
    // headers and footers are numbered in this order
    macro_rules! part {
        ($j:expr, $r:ident, $class:expr, $ty:ident) => {
            if g.chance(1, 10) {
                c.classes.insert("header or footer");
                let (hk, b) = blocks(g, c);
                js!(k, $j, obj($class, json!([]), hk));
                let mut h = $ty::new();
                for b in b {
                    h = match b {
                        Ok(p) => h.add_paragraph(p),
                        Err(t) => h.add_table(t),
                    };
                }
                d = d.$r(h);
            }
        };
    }
    part!("header", header, "Header", Header);
    part!("firstHeader", first_header, "Header", Header);
    part!("evenHeader", even_header, "Header", Header);
    part!("footer", footer, "Footer", Footer);
    part!("firstFooter", first_footer, "Footer", Footer);
    part!("evenFooter", even_footer, "Footer", Footer);
    for _ in 0..g.len(0, 3) {
        match g.n(17) {
            0 => {
                let s = text(g);
                js!(k, "docId", s);
                d = d.doc_id(&s);
            }
            1 => {
                let n = g.num(0, 2000) as usize;
                js!(k, "defaultTabStop", n);
                d = d.default_tab_stop(n);
            }
            2 => {
                let s = g.date();
                js!(k, "createdAt", s);
                d = d.created_at(&s);
            }
            3 => {
                let s = g.date();
                js!(k, "updatedAt", s);
                d = d.updated_at(&s);
            }
            4 => {
                let (n, v) = (format!("n{}", text(g)), text(g));
                js!(k, "customProperty", n, v);
                d = d.custom_property(n, v);
            }
            5 => {
                let (n, v) = (text(g), g.text());
                js!(k, "addDocVar", n, v);
                d = d.add_doc_var(&n, &v);
            }
            6 => {
                js!(k, "titlePg");
                d = d.title_pg();
            }
            7 => {
                let (w, h) = (g.num(1, 30000) as u32, g.num(1, 30000) as u32);
                js!(k, "pageSize", w, h);
                d = d.page_size(w, h);
            }
            8 => {
                let (n, o) = *g.pick(&[("landscape", PageOrientationType::Landscape), ("portrait", PageOrientationType::Portrait)]);
                js!(k, "pageOrientation", n);
                d = d.page_orient(o);
            }
            9 => {
                let mut m = PageMargin::new();
                let mut v = BTreeMap::new();
                for _ in 0..g.len(0, 4) {
                    let n = g.num(-900, 4000) as i32;
                    let (f, name) = match g.n(7) {
                        0 => (&mut m.top, "top"),
                        1 => (&mut m.left, "left"),
                        2 => (&mut m.bottom, "bottom"),
                        3 => (&mut m.right, "right"),
                        4 => (&mut m.header, "header"),
                        5 => (&mut m.footer, "footer"),
                        _ => (&mut m.gutter, "gutter"),
                    };
                    *f = n;
                    v.insert(name, n);
                }
                js!(k, "pageMargin", v);
                d = d.page_margin(m);
            }
            10 => {
                let t = *g.pick(&["default", "lines", "linesAndChars", "snapToChars"]);
                let mut dg = DocGrid::with_empty().grid_type(of(t));
                let mut call = vec![json!("docGrid"), json!(t)];
                if g.coin() {
                    let n = g.num(0, 900) as usize;
                    call.push(json!(n));
                    dg = dg.line_pitch(n);
                } else {
                    call.push(nothing());
                }
                if g.coin() {
                    let n = g.num(-900, 900) as isize;
                    call.push(json!(n));
                    dg = dg.char_space(n);
                }
                k.push(Value::Array(call));
                d.document = d.document.doc_grid(dg);
            }
            11 => {
                js!(k, "adjustLineHeightInTable");
                d.settings = d.settings.adjust_line_height_in_table();
            }
            12 => {
                let v = *g.pick(&["doNotCompress", "compressPunctuation", "compressPunctuationAndJapaneseKana"]);
                js!(k, "characterSpacingControl", v);
                d.settings = d.settings.character_spacing_control(of(v));
            }
            13 => match g.n(4) {
                0 => {
                    let n = g.num(1, 90) as usize;
                    js!(k, "defaultSize", n);
                    d = d.default_size(n);
                }
                1 => {
                    let (v, f) = fonts(g);
                    js!(k, "defaultFonts", v);
                    d = d.default_fonts(f);
                }
                2 => {
                    let n = g.num(1, 90) as i32;
                    js!(k, "defaultCharacterSpacing", n);
                    d = d.default_spacing(n);
                }
                _ => {
                    let (v, s) = line_spacing(g);
                    js!(k, "defaultLineSpacing", v);
                    d = d.default_line_spacing(s);
                }
            },
            14 => {
                c.classes.insert("style");
                let (v, s) = style(g);
                js!(k, "addStyle", v);
                d = d.add_style(s);
            }
            15 => {
                let (i, x) = (format!("{{{}}}", g.ident()), format!("<a>{}</a>", g.ident()));
                js!(k, "addCustomItem", i, x);
                d = d.add_custom_item(&i, &x);
            }
            _ => {
                let (mut pk, mut p) = (None, PageNumType::new());
                if g.coin() {
                    let n = g.num(0, 90) as u32;
                    pk = Some(json!({"start": n}));
                    p = p.start(n);
                } else if g.coin() {
                    let s = g.ident();
                    pk = Some(json!({"chapStyle": s}));
                    p = p.chap_style(s);
                }
                js!(k, "sectionProperty.pageTypeNum", pk.unwrap_or(json!({})));
                d = d.page_num_type(p);
            }
        }
    }
    for _ in 0..if g.chance(1, 3) { g.len(1, 2) } else { 0 } {
        c.classes.insert("style");
        let (v, s) = style(g);
        js!(k, "addStyle", v);
        d = d.add_style(s);
    }
    if g.chance(1, 10) {
        c.classes.insert("web extension");
        js!(k, "taskpanes");
        d = d.taskpanes();
        for _ in 0..g.len(0, 2) {
            let a: Vec<String> = (0..5).map(|_| g.ident()).collect();
            let (mut wk, mut w) = (vec![], WebExtension::new(&a[0], &a[1], &a[2], &a[3], &a[4]));
            for i in 0..g.len(0, 2) {
                let (n, v) = (format!("p{i}"), text(g));
                js!(wk, "property", n, v);
                w = w.property(n, v);
            }
            js!(k, "webextension", obj("WebExtension", json!(a), wk));
            d = d.web_extension(w);
        }
    }
    (obj("Docx", json!([]), k), d)
}

/// The JSON of a document with what is numbered while objects are made numbered by appearance.
fn steady(v: &mut Value, seen: &mut BTreeMap<String, usize>) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| steady(x, seen)),
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                if let (Some(s), "paragraphId" | "parentParagraphId") = (x.as_str(), k.as_str()) {
                    let n = seen.len();
                    *x = json!(format!("#{}", seen.entry(format!("paragraph {s}")).or_insert(n)));
                }
                steady(x, seen);
            }
        }
        Value::String(s) => {
            for mark in ["rIdHyperlink", "rIdImage"] {
                if let Some(i) = s.find(mark) {
                    let e = s[i..].find('.').map_or(s.len(), |e| i + e);
                    let n = seen.len();
                    let n = *seen.entry(s[i..e].to_string()).or_insert(n);
                    *s = format!("{}{mark}#{n}{}", &s[..i], &s[e..]);
                }
            }
        }
        _ => {}
    }
}

fn same_json(what: &str, want: &str, got: &str) -> Out {
    let p = |s: &str| -> Result<Value, Fail> {
        let mut v = serde_json::from_str(s).map_err(|e| Fail { sig: format!("{what}:malformed"), msg: e.to_string() })?;
        steady(&mut v, &mut BTreeMap::new());
        Ok(jnorm(&v))
    };
    match jdiff(&p(want)?, &p(got)?, "") {
        Some((at, m)) => fail(format!("{what}:{}", shape(&at)), format!("{at}: {m}")),
        None => Ok(()),
    }
}

fn c30(c: &mut Case) -> Out {
    let mut ids = Ids::default();
    let (program, mut want) = document(&mut c.g, &mut ids);
    let package = crate::doc::pack(want.clone())?;
    let mut ends = vec![json!(["build"])];
    if c.g.coin() {
        ends.push(match *c.g.pick(&["json", "commentsJson", "build", "readDocx"]) {
            "readDocx" => json!(["readDocx", {"bytes": package}]),
            e => json!([e]),
        });
    }
    if c.g.coin() {
        ends.rotate_left(1);
    }
    c.nontrivial = !program["calls"].as_array().is_some_and(|a| a.is_empty());
    c.note(&ids.classes, program.to_string());
    let got = javascript(&program, &ends)?;
    for (e, got) in ends.iter().zip(got) {
        match (e[0].as_str().unwrap_or(""), got) {
            ("build", Got::Bytes(b)) => same_objects("package", &package, &b)?,
            ("json", Got::Text(t)) => same_json("json", &guard("json", || want.json_with_update_comments())?, &t)?,
            ("commentsJson", Got::Text(t)) => same_json("comments", &guard("json", || want.comments_json())?, &t)?,
            ("readDocx", Got::Text(t)) => {
                let r = |s: &str| -> Value { serde_json::from_str(s).unwrap_or(Value::Null) };
                let want = guard("read", || read_docx(&package).map(|d| d.json()))?.map_err(|e| Fail { sig: "read".into(), msg: e.to_string() })?;
                if let Some((at, m)) = jdiff(&r(&want), &r(&t), "") {
                    return fail(format!("read:{}", shape(&at)), format!("{at}: {m}"));
                }
            }
            _ => return fail("answer", format!("{e} gave something else")),
        }
    }
    Ok(())
}
pub const C30: Prop = Prop { id: "C30", rule: "programs of calls of the JavaScript classes against the calls of the library they stand for", quick: 12000, run: c30, ..DEF };

// ---------------------------------------------------------------- C31

thread_local! {
    static TYPES: RefCell<Option<Peer>> = const { RefCell::new(None) };
}

/// The first place at which the JSON is not of the type declared for it.
fn mistyped(json: &Value) -> Option<(String, String)> {
    TYPES.with(|p| {
        let mut p = p.borrow_mut();
        let p = p.get_or_insert_with(|| {
            let mut node = Command::new("node");
            node.arg(concat!(env!("CARGO_MANIFEST_DIR"), "/../jsbind/types.js")).arg(std::env::var("VERIF_REPO").unwrap_or("/repo".into()));
            Peer::start(node)
        });
        let a: Value = serde_json::from_str(&p.send(json)).expect("an answer");
        Some((a[0].as_str()?.to_string(), a[1].as_str()?.to_string()))
    })
}

fn c31(c: &mut Case) -> Out {
    let b = if c.g.coin() {
        let mut cx = Ctx::new(&mut c.g, Cfg { fmt: 4, boxes: true, ..Cfg::read_all() });
        let m = body(&mut cx, 4);
        let cl = cx.classes.clone();
        let parts = foreign_package(&m.x, &cx.comments, &cx.images);
        let xml = String::from_utf8_lossy(&parts.iter().find(|p| p.0 == "word/document.xml").unwrap().1).to_string();
        c.note(&cl, xml);
        c.nontrivial = true;
        crate::opc::make_zip(&parts)
    } else {
        crate::doc::pack(any_doc(c)?)?
    };
    let d = super::roundtrip::read(&b)?;
    let json = guard("json", || d.json())?;
    let v: Value = serde_json::from_str(&json).map_err(|e| Fail { sig: "malformed".into(), msg: e.to_string() })?;
    match mistyped(&v) {
        Some((at, m)) => fail(format!("type:{}", shape(&at)), format!("{at}: {m}")),
        None => Ok(()),
    }
}
pub const C31: Prop = Prop { id: "C31", rule: "the JSON of a document read has the type declared for it", quick: 8000, run: c31, ..DEF };
