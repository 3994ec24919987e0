//! Strings of any kind in every place that takes a string.
use super::build::{entries, Names};
use super::package::{model_of, take};
use crate::doc::*;
use crate::full::Ops;
use crate::gen::G;
use crate::norm::shape;
use crate::opc;
use crate::runner::{fail, Case, Fail, Out, Prop, DEF};
use crate::xml::{diff, parse, El, Nd};
use docx_rs::*;

// a name that looks like a reference is taken for one, so there is no semicolon here
const LEGAL: [&str; 19] = [
    "&", "<", ">", "\"", "'", "]]>", "<!--", "-->", "<w:t>", "</w:t>", "<?", "?>", "\t", " ", "\\", "&nbsp", "\u{85}\u{2028}",
    "\u{10ffff}", "%1{}",
];
// and line ends, which runs drop
const ILLEGAL: [&str; 11] = ["\n", "\r\n", "\u{0}", "\u{1}", "\u{b}", "\u{1b}", "\u{fffe}", "\u{ffff}", "&#0;", "&#x1;", "\u{8}<"];

fn some(g: &mut G, from: &[&str]) -> String {
    (0..g.len(0, 3)).map(|_| *g.pick(from)).collect()
}

/// The document the choices stand for, with something before and after every text.
fn build(data: &[u64], before: &str, after: &str) -> Docx {
    let mut g = G::replay(data.to_vec());
    g.wrap = Some((before.into(), after.into()));
    doc(&mut g)
}

fn doc(g: &mut G) -> Docx {
    let cfg = Cfg { fmt: 3, depth: 2, images: false, any_text: false, ..Cfg::write_all() };
    let (mut m, _) = model_of(g, cfg, &Ops { item: 0, calls: 10, ..Ops::all() });
    let mut d = take(&mut m);
    if g.chance(1, 4) {
        let mut cx = Ctx::new(g, Cfg { fmt: 0, depth: 1, images: false, ..Cfg::plain() });
        d = d.add_style(Style::new("H1", StyleType::Paragraph).name("heading 1"));
        let t = cx.txt();
        d = d.add_paragraph(Paragraph::new().add_run(Run::new().add_text(t)).style("H1"));
        let (v, _) = super::toc::toc(&mut cx, &[]);
        d = d.add_table_of_contents(v);
    }
    d
}

fn replace(e: &mut El, a: &str, b: &str) {
    let put = |s: &mut String| {
        if s.contains(['\u{e800}', '\u{e801}']) {
            *s = s.replace('\u{e800}', a).replace('\u{e801}', b);
        }
    };
    e.attrs.iter_mut().for_each(|x| put(&mut x.1));
    for k in e.kids.iter_mut() {
        match k {
            Nd::E(c) => replace(c, a, b),
            Nd::T(t) => put(t),
        }
    }
}

/// Names of elements and attributes only.
fn skeleton(e: &mut El) {
    e.attrs.iter_mut().for_each(|x| x.1.clear());
    e.kids.retain(|k| matches!(k, Nd::E(_)));
    for k in e.kids.iter_mut() {
        if let Nd::E(c) = k {
            skeleton(c);
        }
    }
}

/// Properties without their numbers.
pub fn unordered(e: &mut El) {
    for k in e.kids.iter_mut() {
        if let Nd::E(p) = k {
            p.attrs.retain(|a| a.0 != "pid");
        }
    }
    e.kids.sort_by_key(|k| match k {
        Nd::E(p) => p.attr("name").unwrap_or_default().to_string(),
        Nd::T(t) => t.clone(),
    });
}

fn c22(c: &mut Case) -> Out {
    let illegal = c.g.chance(1, 4);
    let from: &[&str] = if illegal { &ILLEGAL } else { &LEGAL };
    let (a, b) = (some(&mut c.g, from), some(&mut c.g, from));
    c.class(if illegal { "characters XML does not allow" } else { "characters XML allows" });
    // the choices are made once and used for both documents
    let at = c.g.out.len();
    c.g.wrap = Some(("\u{e800}".into(), "\u{e801}".into()));
    let plain = doc(&mut c.g);
    c.g.wrap = None;
    let data = c.g.out[at..].to_vec();
    let other = build(&data, &a, &b);
    c.sample = format!("every text between {a:?} and {b:?}");
    c.content(format!("{a}{b}{data:?}").as_bytes());
    c.nontrivial = !a.is_empty() || !b.is_empty();
    let (p, o) = (pack(plain)?, pack(other)?);
    let (ep, eo) = (entries(&p)?, entries(&o)?);
    let names = |v: &[(String, Vec<u8>)]| v.iter().map(|e| e.0.clone()).collect::<Vec<_>>();
    if names(&ep) != names(&eo) {
        return fail("text:entries", format!("with {a:?} and {b:?} around every text the entries are {:?}, otherwise {:?}", names(&eo), names(&ep)));
    }
    let (mut np, mut no) = (Names::objects(), Names::objects());
    for ((name, x), (_, y)) in ep.iter().zip(&eo) {
        if !opc::is_xml(name) {
            continue;
        }
        let (mut px, mut py) = match (parse(x), parse(y)) {
            (Ok(a), Ok(b)) => (a, b),
            (_, r) => {
                let m = r.err().map(|e| e.to_string()).unwrap_or_default();
                return fail(format!("text:malformed:{}", opc::generic(name)), format!("{name} with {a:?} and {b:?} around every text: {m}"));
            }
        };
        np.marks.clear();
        no.marks.clear();
        np.canon(&mut px);
        no.canon(&mut py);
        // properties of web extensions are JSON values
        if illegal || name.contains("webextension") {
            skeleton(&mut px);
            skeleton(&mut py);
        } else {
            replace(&mut px, &a, &b);
        }
        // which are in the order of their names
        if name == "docProps/custom.xml" {
            unordered(&mut px);
            unordered(&mut py);
        }
        if let Some((at, d)) = diff(&px, &py, "") {
            return fail(format!("text:{}:{}", opc::generic(name), shape(&at)), format!("{name}: {d}"));
        }
    }
    Ok::<(), Fail>(())
}
pub const C22: Prop = Prop { id: "C22", rule: "documents with something special around every text", quick: 15000, run: c22, ..DEF };
