//! Field instructions in all their spellings.
use crate::doc::*;
use crate::field::*;
use crate::runner::{fail, guard, Case, Out, Prop, DEF};
use docx_rs::*;
use std::str::FromStr;

/// Tokens with the freedom an instruction has: blanks, order, quotes where none are needed.
fn spell(cx: &mut Ctx, name: &str, toks: &[(String, Option<String>)], xml: bool) -> String {
    let quote = if xml { "&quot;" } else { "\"" };
    let mut s = String::new();
    let blank = |cx: &mut Ctx| " ".repeat(1 + if cx.g.chance(1, 4) { cx.g.n(3) } else { 0 });
    if cx.g.chance(1, 3) {
        s.push_str(&blank(cx));
    }
    s.push_str(name);
    for i in cx.g.perm(toks.len()) {
        let (k, a) = &toks[i];
        s.push_str(&blank(cx));
        s.push_str(k);
        if let Some(a) = a {
            if !k.is_empty() {
                s.push_str(&blank(cx));
            }
            let plain = !a.is_empty() && a.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'-' || b == b',');
            if plain && cx.g.chance(1, 3) {
                s.push_str(a);
            } else {
                s.push_str(&format!("{quote}{a}{quote}"));
            }
        }
    }
    if cx.g.chance(1, 3) {
        s.push_str(&blank(cx));
    }
    s
}

fn c26(c: &mut Case) -> Out {
    let mut cx = Ctx::new(&mut c.g, Cfg::write_all());
    c.nontrivial = true;
    if cx.g.chance(1, 4) {
        // a link
        let t = if cx.g.coin() { format!("https://example.com/{}?q={}", cx.g.ident(), cx.g.ident()) } else { cx.g.ident() };
        let anchor = cx.g.coin();
        let mut toks = vec![(if anchor { "\\l".to_string() } else { String::new() }, Some(t.clone()))];
        if cx.g.coin() {
            toks.push(("\\o".into(), Some(format!("{} {}", cx.g.ident(), cx.g.ident()))));
        }
        if cx.g.coin() {
            toks.push(("\\t".into(), Some(cx.g.ident())));
        }
        for k in ["\\m", "\\n"] {
            if cx.g.chance(1, 3) {
                toks.push((k.into(), None));
            }
        }
        let s = spell(&mut cx, "HYPERLINK", &toks, false);
        let exp = InstrHyperlink { target: t, anchor };
        c.class("hyperlink field");
        c.sample = s.clone();
        c.content(s.as_bytes());
        return match guard("parse", || InstrHyperlink::from_str(&s))? {
            Ok(g) if g == exp => Ok(()),
            g => fail("field:hyperlink", format!("{s:?} is read as {g:?}, expected {exp:?}")),
        };
    }
    let mut sw = Sw::gen(&mut cx, false);
    // labels of several words
    for o in [&mut sw.p, &mut sw.d, &mut sw.a, &mut sw.c] {
        if o.is_some() && cx.g.chance(1, 3) {
            *o = Some(format!("{} {}", cx.g.ident(), cx.g.ident()));
        }
    }
    for _ in 0..cx.g.len(0, 3) {
        let n = if cx.g.coin() { cx.g.ident() } else { format!("{} {}", cx.g.ident(), cx.g.ident()) };
        sw.t.push((n, 1 + cx.g.n(9)));
    }
    let mut toks = sw.tokens();
    // without a range these say something the type has no place for
    for (k, o) in [("\\n", sw.n), ("\\l", sw.l), ("\\o", sw.o)] {
        if o.is_none() && cx.g.chance(1, 6) {
            toks.push((k.into(), None));
        }
    }
    if cx.g.chance(1, 6) {
        toks.push(("\\*".into(), Some("MERGEFORMAT".into())));
    }
    let xml = cx.g.coin();
    let s = spell(&mut cx, "TOC", &toks, xml);
    c.sample = s.clone();
    c.content(s.as_bytes());
    let exp = sw.lib();
    let got = guard("parse", || InstrToC::with_instr_text(&s))?;
    if got != exp {
        return fail("field:toc", format!("{s:?} is read as {got:?}, expected {exp:?}"));
    }
    let got = guard("parse", || TableOfContents::with_instr_text(&s))?;
    if got.instr != exp {
        return fail("field:toc", format!("{s:?} is read as {got:?}, expected {exp:?}"));
    }
    Ok(())
}
pub const C26: Prop = Prop { id: "C26", rule: "field instructions", quick: 300000, run: c26, ..DEF };
