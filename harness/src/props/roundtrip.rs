use crate::doc::*;
use crate::norm::*;
use crate::runner::{fail, guard, Case, Fail, Out, Prop, DEF};
use docx_rs::*;
use serde_json::Value;
use std::collections::BTreeMap;

pub fn read(b: &[u8]) -> Result<Docx, Fail> {
    match guard("read", || read_docx(b))? {
        Ok(d) => Ok(d),
        Err(e) => fail("read:error", format!("read_docx failed: {e:?}")),
    }
}

pub fn json_of(d: &Docx) -> Result<Value, Fail> {
    let s = guard("json", || d.json())?;
    match serde_json::from_str(&s) {
        Ok(v) => Ok(v),
        Err(e) => fail("json:malformed", e.to_string()),
    }
}

/// Document children as read, relationship ids replaced by what they denote.
pub fn read_children(d: &Docx) -> Result<Value, Fail> {
    let v = json_of(d)?;
    let links: BTreeMap<String, String> = d.hyperlinks.iter().map(|(a, b, _)| (a.clone(), b.clone())).collect();
    let imgs: BTreeMap<String, String> = d.images.iter().map(|(id, _, im, _)| (id.clone(), img_ph(&im.0))).collect();
    let mut c = jnorm(&v["document"]["children"]);
    jresolve(&mut c, &|r| links.get(r).map(|u| format!("LINK:{u}")), &|r| imgs.get(r).cloned());
    unesc_authors(&mut c);
    Ok(c)
}

pub fn cmp_json(what: &str, exp: &Value, got: &Value) -> Out {
    if let Some((at, d)) = jdiff(exp, got, "") {
        return fail(format!("{what}:{}", shape(&at)), format!("{at}: {d}"));
    }
    Ok(())
}

fn c04(c: &mut Case) -> Out {
    let mut cx = Ctx::new(&mut c.g, Cfg { fmt: 4, ..Cfg::read_all() });
    let m = body(&mut cx, 4);
    let exp = jnorm(&Value::Array(m.j));
    let cl: Vec<_> = cx.classes.iter().copied().collect();
    c.sample = exp.to_string();
    let s = c.sample.clone();
    c.content(s.as_bytes());
    c.nontrivial = true;
    cl.iter().for_each(|k| c.class(k));
    let b = pack(m.v)?;
    let d = read(&b)?;
    let got = read_children(&d)?;
    cmp_json("read", &exp, &got)
}
pub const C04: Prop = Prop { id: "C04", rule: "reading what was written yields the tree that was built: blocks, runs, formatting, tables, links, images, tracked changes, comments", quick: 20000, run: c04, ..DEF };
