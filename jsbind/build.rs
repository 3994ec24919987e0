//! Writes the dispatch from names to the exported functions, methods and
//! enumerations of the repository's JavaScript bindings.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::path::{Path, PathBuf};
use syn::{Attribute, FnArg, GenericArgument, ImplItem, Item, PathArguments, ReturnType, Type, Visibility};

fn sources(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut all: Vec<_> = std::fs::read_dir(dir).unwrap_or_else(|e| panic!("{}: {e}", dir.display())).map(|e| e.unwrap().path()).collect();
    all.sort();
    for p in all {
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}

fn items(dir: &str) -> Vec<Item> {
    println!("cargo:rerun-if-changed={dir}");
    let mut files = vec![];
    sources(Path::new(dir), &mut files);
    files.iter().flat_map(|f| syn::parse_file(&std::fs::read_to_string(f).unwrap()).unwrap_or_else(|e| panic!("{}: {e}", f.display())).items).collect()
}

/// Some(name in JavaScript, if given) when exported.
fn exported(attrs: &[Attribute]) -> Option<Option<String>> {
    for a in attrs {
        if a.path().is_ident("wasm_bindgen") {
            let mut name = None;
            if let syn::Meta::List(_) = a.meta {
                let _ = a.parse_nested_meta(|m| {
                    if m.path.is_ident("js_name") {
                        let v = m.value()?;
                        name = Some(match v.parse::<syn::Ident>() {
                            Ok(i) => i.to_string(),
                            Err(_) => v.parse::<syn::LitStr>()?.value(),
                        });
                    }
                    Ok(())
                });
            }
            return Some(name);
        }
        if a.path().is_ident("cfg_attr") {
            if let syn::Meta::List(l) = &a.meta {
                if l.tokens.to_string().split(',').skip(1).any(|t| t.trim() == "wasm_bindgen") {
                    return Some(None);
                }
            }
        }
    }
    None
}

fn last(t: &Type) -> Option<(String, Option<&Type>)> {
    match t {
        Type::Path(p) => {
            let s = p.path.segments.last()?;
            let inner = match &s.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().find_map(|a| match a {
                    GenericArgument::Type(t) => Some(t),
                    _ => None,
                }),
                _ => None,
            };
            Some((s.ident.to_string(), inner))
        }
        _ => None,
    }
}

struct Known {
    classes: BTreeSet<String>,
    enums: BTreeMap<String, Vec<(String, u64)>>,
}

impl Known {
    /// an expression turning the value `v` into the type
    fn take(&self, t: &Type, v: &str) -> Option<String> {
        if let Type::Reference(r) = t {
            return match &*r.elem {
                Type::Path(p) if p.path.is_ident("str") => Some(format!("&text({v})?")),
                Type::Slice(s) if last(&s.elem)?.0 == "u8" => Some(format!("&bytes({v})?")),
                _ => None,
            };
        }
        let (n, inner) = last(t)?;
        Some(match n.as_str() {
            "usize" => format!("(number({v})? as u32 as usize)"),
            "isize" => format!("(number({v})? as i32 as isize)"),
            "u8" | "u16" | "u32" | "i8" | "i16" | "i32" => format!("(number({v})? as {n})"),
            "bool" => format!("truth({v})"),
            "String" => format!("text({v})?"),
            "Option" => format!("(if {v}.is_null() {{ None }} else {{ Some({}) }})", self.take(inner?, v)?),
            "Vec" => match last(inner?)?.0.as_str() {
                "u8" => format!("bytes({v})?"),
                "usize" | "u32" => format!("numbers({v})?"),
                _ => return None,
            },
            _ if self.classes.contains(&n) => format!("(match run({v})? {{ Ret::Obj(Obj::{n}(x)) => x, _ => return Err(\"expected instance of {n}\".into()) }})"),
            _ if self.enums.contains_key(&n) => format!("enum_{n}({v})?"),
            _ => return None,
        })
    }

    fn give(&self, t: &ReturnType, own: &str, e: &str) -> Option<String> {
        let t = match t {
            ReturnType::Default => return Some(format!("{{ {e}; Ok(Ret::Nothing) }}")),
            ReturnType::Type(_, t) => t,
        };
        let (n, inner) = last(t)?;
        let n = if n == "Self" { own.to_string() } else { n };
        Some(match n.as_str() {
            "String" => format!("Ok(Ret::Text({e}))"),
            "usize" | "u32" | "i32" => format!("Ok(Ret::Text({e}.to_string()))"),
            "Result" => match last(inner?)?.0.as_str() {
                "Vec" => format!("{e}.map(Ret::Bytes).map_err(|_| \"the call failed\".to_string())"),
                "String" => format!("{e}.map(Ret::Text).map_err(|_| \"the call failed\".to_string())"),
                _ => return None,
            },
            _ if self.classes.contains(&n) => format!("Ok(Ret::Obj(Obj::{n}({e})))"),
            _ => return None,
        })
    }
}

/// The variants with the numbers JavaScript sees.
fn numbered(e: &syn::ItemEnum) -> Vec<(String, u64)> {
    let mut next = 0;
    let mut all = vec![];
    for v in &e.variants {
        if let Some((_, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(n), .. }))) = &v.discriminant {
            next = n.base10_parse().unwrap();
        }
        all.push((v.ident.to_string(), next));
        next += 1;
    }
    all
}

fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_REPO");
    let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    let own = items(&format!("{repo}/docx-wasm/src"));
    let core = items(&format!("{repo}/docx-core/src"));
    let mut k = Known { classes: BTreeSet::new(), enums: BTreeMap::new() };
    for i in &own {
        if let Item::Struct(s) = i {
            if exported(&s.attrs).is_some() {
                k.classes.insert(s.ident.to_string());
            }
        }
    }
    for i in &core {
        if let Item::Enum(e) = i {
            if exported(&e.attrs).is_some() && e.variants.iter().all(|v| v.fields.is_empty()) {
                k.enums.insert(e.ident.to_string(), numbered(e));
            }
        }
    }
    let (mut make, mut call) = (String::new(), String::new());
    let mut functions = vec![];
    let mut methods: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for i in &own {
        match i {
            Item::Fn(f) => {
                let Some(name) = exported(&f.attrs) else { continue };
                let name = name.unwrap_or(f.sig.ident.to_string());
                let args: Option<Vec<String>> = f.sig.inputs.iter().enumerate().map(|(n, a)| match a {
                    FnArg::Typed(t) => k.take(&t.ty, &format!("at(a, {n})")),
                    _ => None,
                }).collect();
                let Some(args) = args else { continue };
                let e = format!("docx_wasm::{}({})", f.sig.ident, args.join(", "));
                let Some(e) = k.give(&f.sig.output, "", &e) else { continue };
                writeln!(make, "        {name:?} => {e},").unwrap();
                let class = match &f.sig.output {
                    ReturnType::Type(_, t) => last(t).map(|t| t.0).filter(|n| k.classes.contains(n)),
                    _ => None,
                };
                functions.push(format!("{name:?}:{}", class.map_or("null".into(), |c| format!("{c:?}"))));
            }
            Item::Impl(im) if im.trait_.is_none() && exported(&im.attrs).is_some() => {
                let Some((class, _)) = last(&im.self_ty) else { continue };
                for it in &im.items {
                    let ImplItem::Fn(f) = it else { continue };
                    if !matches!(f.vis, Visibility::Public(_)) {
                        continue;
                    }
                    let name = exported(&f.attrs).flatten().unwrap_or(f.sig.ident.to_string());
                    let mut ins = f.sig.inputs.iter();
                    if !matches!(ins.next(), Some(FnArg::Receiver(_))) {
                        continue;
                    }
                    let args: Option<Vec<String>> = ins.enumerate().map(|(n, a)| match a {
                        FnArg::Typed(t) => k.take(&t.ty, &format!("at(a, {n})")),
                        _ => None,
                    }).collect();
                    let Some(args) = args else { continue };
                    let e = format!("o.{}({})", f.sig.ident, args.join(", "));
                    let Some(e) = k.give(&f.sig.output, &class, &e) else { continue };
                    writeln!(call, "        (Obj::{class}(mut o), {name:?}) => {e},").unwrap();
                    methods.entry(class.clone()).or_default().push(name);
                }
            }
            _ => {}
        }
    }
    let mut out = String::from("#[allow(clippy::all)]\npub enum Obj {\n");
    for c in &k.classes {
        writeln!(out, "    {c}(docx_wasm::{c}),").unwrap();
    }
    out.push_str("}\n");
    for (e, vs) in &k.enums {
        writeln!(out, "#[allow(dead_code)]\nfn enum_{e}(v: &Value) -> Result<docx_rs::{e}, String> {{\n    match number(v)? {{").unwrap();
        for (v, n) in vs {
            writeln!(out, "        {n} => Ok(docx_rs::{e}::{v}),").unwrap();
        }
        writeln!(out, "        v => Err(format!(\"no {e} {{v}}\")),\n    }}\n}}").unwrap();
    }
    writeln!(out, "#[allow(unused_variables)]\nfn make(name: &str, a: &[Value]) -> Result<Ret, String> {{\n    match name {{\n{make}        n => Err(format!(\"no function {{n}}\")),\n    }}\n}}").unwrap();
    writeln!(out, "#[allow(unused_mut)]\nfn call(o: Obj, method: &str, a: &[Value]) -> Result<Ret, String> {{\n    match (o, method) {{\n{call}        (_, m) => Err(format!(\"no method {{m}}\")),\n    }}\n}}").unwrap();
    let list = |v: &[String]| v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(",");
    let classes = k.classes.iter().map(|c| format!("{c:?}:[{}]", list(methods.get(c).map(|v| v.as_slice()).unwrap_or(&[])))).collect::<Vec<_>>().join(",");
    let values = |v: &[(String, u64)]| v.iter().map(|(s, n)| format!("{s:?}:{n}")).collect::<Vec<_>>().join(",");
    let enums = k.enums.iter().map(|(e, v)| format!("{e:?}:{{{}}}", values(v))).collect::<Vec<_>>().join(",");
    let d = format!("{{\"functions\":{{{}}},\"classes\":{{{classes}}},\"enums\":{{{enums}}}}}", functions.join(","));
    writeln!(out, "const DESCRIPTION: &str = {d:?};").unwrap();
    std::fs::write(Path::new(&std::env::var("OUT_DIR").unwrap()).join("dispatch.rs"), out).unwrap();
}
