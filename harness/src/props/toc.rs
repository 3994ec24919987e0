//! Tables of contents: what they list, the fields they are made of and the bookmarks they lead to.
use super::write::cmp_dom;
use crate::doc::*;
use crate::field::*;
use crate::fmt::*;
use crate::full::root;
use crate::norm::norm;
use crate::opc;
use crate::runner::{fail, Case, Out, Prop, DEF};
use crate::xml::{el, frag, El, Nd};
use docx_rs::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Item {
    pub text: String,
    pub key: String,
    pub level: usize,
    pub page: Option<String>,
}

/// What a table of contents must look like.
#[derive(Clone)]
pub struct TocX {
    pub sw: Sw,
    pub items: Vec<Item>,
    pub auto: bool,
    pub dirty: bool,
    pub bare: bool,
    pub alias: Option<String>,
    pub page: Option<String>,
    pub before: Vec<El>,
    pub after: Vec<El>,
    pub delete: Option<(String, String)>,
    pub ppr: Option<El>,
}

fn fc(t: &str, dirty: bool) -> El {
    el("w:fldChar").a("w:fldCharType", t).a("w:dirty", dirty)
}

impl TocX {
    pub fn x(&self) -> Vec<El> {
        let mut v = self.before.clone();
        let instr = |n: &str| el(n).t(self.sw.text());
        if self.items.is_empty() {
            let open = if let Some((a, d)) = &self.delete {
                el("w:del").a("w:author", a).a("w:date", d).k(el("w:r").ks(vec![fc("begin", true), instr("w:delInstrText"), fc("separate", false)]))
            } else {
                el("w:r").ks(vec![fc("begin", true), instr("w:instrText"), fc("separate", false)])
            };
            let mut p = el("w:p");
            if let Some(x) = &self.ppr {
                p = p.k(x.clone());
            }
            v.push(p.k(open));
            let end = el("w:r").k(fc("end", false));
            match self.after.first() {
                // the field ends in the first paragraph behind it
                Some(a) if a.name == "w:p" => {
                    let mut a = a.clone();
                    let at = a.kids.iter().take_while(|k| matches!(k, Nd::E(e) if e.name == "w:pPr")).count();
                    a.kids.insert(at, Nd::E(end));
                    v.push(a);
                    v.extend(self.after[1..].iter().cloned());
                }
                _ => {
                    v.push(el("w:p").k(end));
                    v.extend(self.after.iter().cloned());
                }
            }
        } else {
            let mut c = vec![];
            for (i, it) in self.items.iter().enumerate() {
                let style = || el("w:pPr").k(el("w:pStyle").a("w:val", format!("ToC{}", it.level)));
                let mut p =
                    el("w:p").k(style().k(el("w:tabs").k(el("w:tab").a("w:val", "right").a("w:leader", "dot").a("w:pos", 80000))));
                if i == 0 {
                    p = p.k(el("w:r").ks(vec![fc("begin", self.dirty), instr("w:instrText"), fc("separate", false)]));
                }
                let page = it.page.clone().or(self.page.clone()).unwrap_or("1".into());
                let runs = vec![
                    el("w:r").k(t_el("w:t", &kept(&it.text))),
                    el("w:r").k(el("w:tab")),
                    el("w:r").ks(vec![
                        fc("begin", false),
                        el("w:instrText").t(format!("PAGEREF {} \\h", it.key)),
                        fc("separate", false),
                        t_el("w:t", &kept(&page)),
                        fc("end", false),
                    ]),
                ];
                p = if self.sw.h { p.k(el("w:hyperlink").a("w:anchor", &it.key).a("w:history", 1).ks(runs)) } else { p.ks(runs) };
                c.push(p);
                if i + 1 == self.items.len() {
                    c.push(el("w:p").k(style()).k(el("w:r").k(fc("end", false))));
                }
            }
            v.push(el("w:sdt").k(el("w:sdtPr")).k(el("w:sdtContent").ks(c)));
            // a table does not follow directly
            if matches!(self.after.first(), Some(a) if a.name == "w:tbl") {
                v.push(el("w:p").k(el("w:r").k(t_el("w:t", ""))));
            }
            v.extend(self.after.iter().cloned());
        }
        if self.bare {
            return v;
        }
        let mut pr = el("w:sdtPr");
        if let Some(a) = &self.alias {
            pr = pr.k(el("w:alias").a("w:val", a));
        }
        vec![el("w:sdt").k(pr).k(el("w:sdtContent").ks(v))]
    }
}

/// A table of contents of every kind; `styles` may be listed in it.
pub fn toc(cx: &mut Ctx, styles: &[String]) -> (TableOfContents, TocX) {
    let mut x = TocX {
        sw: Sw::gen(cx, true),
        items: vec![],
        auto: false,
        dirty: false,
        bare: false,
        alias: None,
        page: None,
        before: vec![],
        after: vec![],
        delete: None,
        ppr: None,
    };
    if cx.g.coin() {
        x.sw.h = true;
    }
    if cx.g.coin() {
        let a = 1 + cx.g.n(3);
        x.sw.o = Some((a, a + cx.g.n(4)));
    }
    if !styles.is_empty() && cx.g.chance(1, 2) {
        for s in styles {
            if cx.g.coin() {
                x.sw.t.push((s.clone(), 1 + cx.g.n(5)));
            }
        }
    }
    let mut v = if cx.g.chance(1, 3) {
        // the setters of the table itself
        let mut v = TableOfContents { instr: Sw { o: None, f: None, h: false, t: vec![], ..x.sw.clone() }.lib(), ..TableOfContents::new() };
        if let Some((a, b)) = x.sw.o {
            v = v.heading_styles_range(a, b);
        }
        if let Some(f) = &x.sw.f {
            v = v.tc_field_identifier(f.clone());
        }
        if x.sw.h {
            v = v.hyperlink();
        }
        for (n, l) in &x.sw.t {
            v = v.add_style_with_level(StyleWithLevel::new(n, *l));
        }
        v
    } else {
        let mut v = TableOfContents::new();
        v.instr = x.sw.lib();
        v
    };
    if cx.g.chance(1, 3) {
        let a = label(cx);
        v = v.alias(a.clone());
        x.alias = Some(a);
    }
    if cx.g.chance(1, 4) {
        v = v.without_sdt();
        x.bare = true;
    }
    if cx.g.chance(1, 3) {
        v = v.dirty();
        x.dirty = true;
    }
    if cx.g.chance(1, 4) {
        let t = cx.txt();
        v.page_ref_placeholder = Some(t.clone());
        x.page = Some(t);
    }
    match cx.g.n(4) {
        0 => {
            cx.cls("table of contents with given items");
            for _ in 0..cx.g.len(1, 4) {
                let it = Item {
                    text: cx.txt(),
                    key: cx.g.ident(),
                    level: 1 + cx.g.n(9),
                    page: if cx.g.coin() { Some(cx.txt()) } else { None },
                };
                let mut i = TableOfContentsItem::new().text(it.text.clone()).toc_key(it.key.clone()).level(it.level);
                if let Some(p) = &it.page {
                    i = i.page_ref(p.clone());
                }
                v = v.add_item(i);
                x.items.push(it);
            }
            if cx.g.coin() {
                v = v.auto();
                x.auto = true;
            }
        }
        1 => {
            if cx.g.coin() {
                cx.cls("deleted table of contents");
                let (a, d) = (cx.author(), "2024-01-01T00:00:00Z");
                v = v.delete(a.clone(), d);
                x.delete = Some((a, d.into()));
            }
            if cx.g.coin() {
                let (sets, st) = ps_history(cx.g, PTarget::Prop, cx.cfg.f, 2, false);
                let mut p = ParagraphProperty::new();
                for s in &sets {
                    p = ps_prop(p, s);
                }
                v = v.paragraph_property(p);
                x.ppr = Some(st.x());
            }
        }
        _ => {
            cx.cls("automatic table of contents");
            v = v.auto();
            x.auto = true;
        }
    }
    for _ in 0..cx.g.len(0, 2) {
        if cx.g.chance(1, 3) {
            let t = table(cx, 2);
            v = v.add_before_table(t.v);
            x.before.extend(t.x);
        } else {
            let p = para(cx);
            v = v.add_before_paragraph(p.v);
            x.before.extend(p.x);
        }
        cx.cls("content before a table of contents");
    }
    for _ in 0..cx.g.len(0, 2) {
        if cx.g.chance(1, 3) {
            if x.after.is_empty() {
                cx.cls("table right after a table of contents");
            }
            let t = table(cx, 2);
            v = v.add_after_table(t.v);
            x.after.extend(t.x);
        } else {
            let p = para(cx);
            v = v.add_after_paragraph(p.v);
            x.after.extend(p.x);
        }
        cx.cls("content after a table of contents");
    }
    (v, x)
}

/// The text of a paragraph a reader sees: runs, inserted runs and runs moved here.
pub fn shown(p: &El) -> String {
    fn run(r: &El, s: &mut String) {
        for e in r.els() {
            match e.name.as_str() {
                "w:t" => s.push_str(&e.text()),
                "w:tab" | "w:ptab" => s.push('\t'),
                "w:br" | "w:cr" => s.push('\n'),
                _ => {}
            }
        }
    }
    let mut s = String::new();
    for e in p.els() {
        match e.name.as_str() {
            "w:r" => run(e, &mut s),
            "w:ins" | "w:moveTo" => e.els().filter(|e| e.name == "w:r").for_each(|r| run(r, &mut s)),
            _ => {}
        }
    }
    s
}

enum Top {
    P(El, Option<String>),
    Other(Vec<El>),
    Toc(Box<TocX>),
}

fn next_key() -> usize {
    <TocKey as TocKeyGenerator>::generate().trim_start_matches("_Toc").parse().unwrap_or(0) + 1
}

fn is_key(s: &str) -> bool {
    s.len() >= 12 && s.starts_with("_Toc") && s[4..].bytes().all(|b| b.is_ascii_digit())
}

/// Names of generated keys and ids of their bookmarks by order of appearance; switches sorted.
fn canonical(e: &mut El, user: &BTreeSet<String>, keys: &mut BTreeMap<String, String>, ids: &mut BTreeMap<String, String>) {
    let mut key = |s: &str| -> String {
        if !is_key(s) || user.contains(s) {
            return s.to_string();
        }
        let n = keys.len();
        keys.entry(s.to_string()).or_insert_with(|| format!("KEY{n}")).clone()
    };
    match e.name.as_str() {
        "w:bookmarkStart" => {
            let name = e.attr("w:name").unwrap_or("").to_string();
            if is_key(&name) && !user.contains(&name) {
                let n = ids.len();
                let id = e.attr("w:id").unwrap_or("").to_string();
                let to = ids.entry(id).or_insert_with(|| format!("ID{n}")).clone();
                for (k, v) in e.attrs.iter_mut() {
                    match k.as_str() {
                        "w:id" => *v = to.clone(),
                        "w:name" => *v = key(&name),
                        _ => {}
                    }
                }
            }
        }
        "w:bookmarkEnd" => {
            for (k, v) in e.attrs.iter_mut() {
                if k == "w:id" {
                    if let Some(to) = ids.get(v.as_str()) {
                        *v = to.clone();
                    }
                }
            }
        }
        "w:hyperlink" => {
            for (k, v) in e.attrs.iter_mut() {
                if k == "w:anchor" {
                    *v = key(v);
                }
            }
        }
        "w:instrText" | "w:delInstrText" => {
            let t = e.text();
            let t = if t.starts_with("TOC") { t } else { t.split(' ').map(|w| key(w)).collect::<Vec<_>>().join(" ") };
            e.kids = vec![Nd::T(t)];
        }
        _ => {}
    }
    for k in e.kids.iter_mut() {
        if let Nd::E(c) = k {
            canonical(c, user, keys, ids);
        }
    }
}

fn c15(c: &mut Case) -> Out {
    // ids and keys start low, as in a fresh process, so they meet those the document uses
    reset_bookmark_id();
    let next = next_key();
    let cfg = Cfg { fmt: 1, depth: 2, images: false, ..Cfg::write_all() };
    let mut cx = Ctx::new(&mut c.g, cfg);
    let mut d = Docx::new();
    // styles
    let mut heads: Vec<(String, usize)> = vec![];
    let mut plain: Vec<String> = vec![];
    let mut toc_styles: BTreeMap<usize, &'static str> = BTreeMap::new();
    let add_style = |d: Docx, id: &str, name: &str| d.add_style(Style::new(id, StyleType::Paragraph).name(name));
    for i in 0..cx.g.len(1, 4) {
        let l = 1 + cx.g.n(6);
        let id = if cx.g.coin() { format!("Heading{l}") } else { format!("H{i}") };
        if heads.iter().any(|h| h.0 == id) {
            continue;
        }
        let name = if cx.g.coin() { format!("Heading {l}") } else { format!("heading {l}") };
        d = add_style(d, &id, &name);
        heads.push((id, l));
    }
    for i in 0..cx.g.len(0, 3) {
        let id = format!("Own{i}");
        let name = (*cx.g.pick(&["Own", "Title", "heading", "heading one", "sub heading 1", "Heading 1 Char"])).to_string();
        d = add_style(d, &id, &name);
        plain.push(id);
    }
    if cx.g.chance(1, 3) {
        let l = 1 + cx.g.n(9);
        match cx.g.n(2) {
            0 => {
                d = add_style(d, "MyToc", &format!("toc {l}"));
                toc_styles.insert(l, "name");
            }
            _ => {
                d = add_style(d, &format!("ToC{l}"), &format!("My contents {l}"));
                toc_styles.insert(l, "id");
            }
        }
        cx.cls("own style for entries");
    }
    let mut top = vec![];
    let mut user = BTreeSet::new();
    for _ in 0..cx.g.len(1, 7) {
        match cx.g.n(5) {
            0 | 1 => {
                let f = cx.cfg.fields;
                cx.cfg.fields = false;
                let mut m = para(&mut cx);
                cx.cfg.fields = f;
                let style = match cx.g.n(4) {
                    0 | 1 => Some(cx.g.pick(&heads).0.clone()),
                    2 if !plain.is_empty() => Some(cx.g.pick(&plain).clone()),
                    _ => None,
                };
                let mut p = m.x.remove(0);
                if let Some(s) = &style {
                    m.v = m.v.style(s);
                    if let Some(Nd::E(pr)) = p.kids.first_mut() {
                        pr.kids.retain(|k| !matches!(k, Nd::E(e) if e.name == "w:pStyle"));
                        pr.kids.insert(0, Nd::E(el("w:pStyle").a("w:val", s)));
                    }
                    cx.cls("styled paragraph");
                } else if let Some(Nd::E(pr)) = p.kids.first_mut() {
                    // no other style happens to be a heading
                    if pr.child("w:pStyle").is_some() {
                        m.v.property.style = None;
                        pr.kids.retain(|k| !matches!(k, Nd::E(e) if e.name == "w:pStyle"));
                    }
                }
                d = d.add_paragraph(m.v);
                top.push(Top::P(p, style));
            }
            2 | 3 => {
                let (v, x) = toc(&mut cx, &plain);
                if cx.g.chance(1, 6) {
                    cx.cls("table of contents in a cell");
                    // there it is not filled in
                    d = d.add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_table_of_contents(v).add_paragraph(Paragraph::new())])]));
                    let f = TocX { items: x.items.clone(), ..*Box::new(x) };
                    top.push(Top::Other(vec![el("CELL").ks(f.x())]));
                } else {
                    d = d.add_table_of_contents(v);
                    top.push(Top::Toc(Box::new(x)));
                }
            }
            _ => {
                if cx.g.chance(1, 3) {
                    let (id, n) = (cx.id(), format!("_Toc{:08}", next + cx.g.n(6)));
                    if user.insert(n.clone()) {
                        d = d.add_bookmark_start(id, n.clone()).add_bookmark_end(id);
                        top.push(Top::Other(vec![el("w:bookmarkStart").a("w:id", id).a("w:name", &n), el("w:bookmarkEnd").a("w:id", id)]));
                        cx.cls("bookmark named like an entry");
                    }
                } else {
                    let b = block(&mut cx);
                    if matches!(b.v, Block::Be(_)) {
                        continue;
                    }
                    d = add_block(d, b.v);
                    top.push(Top::Other(b.x));
                }
            }
        }
    }
    // fill in automatic tables
    let level_of: BTreeMap<String, usize> = heads.into_iter().collect();
    let mut key = 90_000_000;
    let mut listed = 0;
    for i in 0..top.len() {
        let sw = match &top[i] {
            Top::Toc(t) if t.auto && t.items.is_empty() => t.sw.clone(),
            _ => continue,
        };
        if sw.o.is_none() && !sw.t.is_empty() {
            continue;
        }
        let (lo, hi) = sw.o.unwrap_or((0, 9));
        let mut items = vec![];
        for t in top.iter_mut() {
            if let Top::P(p, Some(style)) = t {
                let l = level_of.get(style).copied().or(sw.t.iter().rfind(|x| x.0 == *style).map(|x| x.1));
                if let Some(l) = l.filter(|l| lo <= *l && *l <= hi) {
                    let k = format!("_Toc{key:08}");
                    key += 1;
                    items.push(Item { text: shown(p), key: k.clone(), level: l, page: None });
                    let at = p.kids.iter().take_while(|k| matches!(k, Nd::E(e) if e.name == "w:pPr")).count();
                    p.kids.insert(at, Nd::E(el("w:bookmarkStart").a("w:id", key).a("w:name", &k)));
                    p.kids.push(Nd::E(el("w:bookmarkEnd").a("w:id", key)));
                    listed += 1;
                }
            }
        }
        if let Top::Toc(t) = &mut top[i] {
            t.items = items;
        }
    }
    if listed > 0 {
        cx.cls("listed headings");
    }
    let any = top.iter().any(|t| matches!(t, Top::Toc(_)));
    let mut exp = el("w:body");
    for t in top {
        match t {
            Top::P(p, _) => exp = exp.k(p),
            Top::Other(v) => {
                for e in v {
                    exp = if e.name == "CELL" { exp.k(el("CELL").ks(e.els().cloned().collect())) } else { exp.k(e) };
                }
            }
            Top::Toc(t) => exp = exp.ks(t.x()),
        }
    }
    let cl = cx.classes.clone();
    c.nontrivial = any || cl.contains("table of contents in a cell");
    let mut exp = norm(&exp);
    c.note(&cl, frag(&exp));
    let p = opc::open(&pack(d)?)?;
    opc::integrity(&p)?;
    let mut got = super::write::body_of(&p)?;
    got.kids.pop();
    // a table the model gives as the content of its only cell
    for (i, k) in exp.kids.iter().enumerate() {
        if let (Nd::E(e), Some(Nd::E(g))) = (k, got.kids.get_mut(i)) {
            if e.name == "CELL" && g.name == "w:tbl" {
                if let Some(tc) = g.all("w:tc").first() {
                    let mut v: Vec<El> = tc.els().filter(|e| e.name != "w:tcPr").cloned().collect();
                    v.pop();
                    *g = el("CELL").ks(v);
                }
            }
        }
    }
    // bookmarks
    let (mut names, mut ids): (BTreeSet<&str>, BTreeSet<&str>) = Default::default();
    for b in got.all("w:bookmarkStart") {
        let (n, id) = (b.attr("w:name").unwrap_or(""), b.attr("w:id").unwrap_or(""));
        if is_key(n) && !names.insert(n) {
            return fail("toc:shared-name", format!("two bookmarks are named {n:?}"));
        }
        if !ids.insert(id) {
            return fail("toc:shared-id", format!("two bookmarks have id {id:?}"));
        }
    }
    canonical(&mut exp, &user, &mut BTreeMap::new(), &mut BTreeMap::new());
    canonical(&mut got, &user, &mut BTreeMap::new(), &mut BTreeMap::new());
    cmp_dom("toc", &exp, &got)?;
    // styles of entries
    let st = root(&p, "word/styles.xml")?;
    let mut seen = BTreeSet::new();
    for s in st.children("w:style") {
        if !seen.insert(s.attr("w:styleId").unwrap_or("").to_string()) {
            return fail("toc:shared-style-id", format!("two styles have id {:?}", s.attr("w:styleId")));
        }
    }
    for l in 1..=9 {
        let named = st.children("w:style").filter(|s| s.child("w:name").and_then(|n| n.attr("w:val")) == Some(&format!("toc {l}"))).count();
        let id = format!("ToC{l}");
        let own = toc_styles.get(&l).copied();
        let want = any && own != Some("id") || own == Some("name");
        if named != want as usize {
            return fail("toc:styles", format!("{named} styles named \"toc {l}\", expected {}", want as usize));
        }
        if want && own.is_none() {
            let s = st.children("w:style").find(|s| s.attr("w:styleId") == Some(&id));
            let left = s.map(|s| s.all("w:ind").first().and_then(|i| i.attr("w:left")).unwrap_or("0").to_string());
            if left != Some(((l - 1) * 200).to_string()) {
                return fail("toc:style-indent", format!("style {id} is indented by {left:?}"));
            }
        }
    }
    Ok(())
}
pub const C15: Prop = Prop { id: "C15", rule: "documents with a table of contents", quick: 30000, run: c15, ..DEF };
