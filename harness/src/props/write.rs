use crate::doc::*;
use crate::norm::*;
use crate::opc;
use crate::runner::{fail, Case, Out, Prop, DEF};
use crate::xml::{diff, el, frag, El};

pub fn body_of(p: &opc::Pkg) -> Result<El, crate::runner::Fail> {
    let mut x = p.xml("word/document.xml")?;
    resolve_refs(&mut x, p, "word/document.xml")?;
    let b = match x.child("w:body") {
        Some(b) => b.clone(),
        None => return fail("document:no-body", "no w:body"),
    };
    Ok(norm(&b))
}

pub fn cmp_dom(what: &str, exp: &El, got: &El) -> Out {
    if let Some((at, d)) = diff(exp, got, "") {
        return fail(format!("{what}:{}", shape(&at)), d);
    }
    Ok(())
}

/// Content of word/document.xml equals the model.
fn body_case(c: &mut Case, cfg: Cfg, max: usize, only_tables: bool, want: &[&str]) -> Out {
    let mut cx = Ctx::new(&mut c.g, cfg);
    let m = if only_tables {
        let mut d = docx_rs::Docx::new();
        let mut x = vec![];
        for _ in 0..cx.g.len(1, max) {
            let t = table(&mut cx, 1);
            d = d.add_table(t.v);
            x.extend(t.x);
        }
        M { v: d, x, j: vec![] }
    } else {
        body(&mut cx, max)
    };
    let exp = norm(&el("w:body").ks(m.x));
    let cl = std::mem::take(&mut cx.classes);
    c.nontrivial = want.iter().any(|w| cl.contains(w));
    c.note(&cl, frag(&exp));
    let b = pack(m.v)?;
    let pkg = opc::open(&b)?;
    let mut got = body_of(&pkg)?;
    got.kids.pop();
    cmp_dom("body", &exp, &got)
}

fn c01(c: &mut Case) -> Out {
    body_case(c, Cfg { fmt: 6, ..Cfg::write_all() }, 4, false, &["paragraph formatting history >= 2", "run formatting history >= 2"])
}
pub const C01: Prop = Prop {
    id: "C01",
    rule: "documents in which some paragraph or run receives at least two formatting calls",
    quick: 40000,
    run: c01,
    ..DEF
};

fn c02(c: &mut Case) -> Out {
    body_case(c, Cfg { fmt: 2, depth: 3, images: false, fields: false, ..Cfg::write_all() }, 2, true, &["table"])
}
pub const C02: Prop = Prop { id: "C02", rule: "documents with at least one table", quick: 40000, run: c02, ..DEF };

fn c03(c: &mut Case) -> Out {
    let cfg = Cfg { fmt: 2, depth: 2, bias: &[K_INS, K_DEL, K_MOVE, K_LINK], images: false, ..Cfg::write_all() };
    body_case(
        c,
        cfg,
        4,
        false,
        &["insertion", "deletion", "move", "paragraph mark revision", "paragraph property change", "deletion inside insertion", "row revision", "run property change"],
    )
}
pub const C03: Prop = Prop { id: "C03", rule: "documents with at least one tracked change", quick: 40000, run: c03, ..DEF };
