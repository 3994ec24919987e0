//! Images: stored once each, shown where they were put, read with their bytes.
use super::package::{bodies, model, take};
use crate::doc::*;
use crate::full::Ops;
use crate::gen::G;
use crate::opc;
use crate::runner::{fail, guard, Case, Out, Prop, DEF};
use docx_rs::*;
use image::ImageFormat;
use std::collections::BTreeSet;
use std::io::Cursor;

const FORMATS: [(ImageFormat, &str); 4] = [(ImageFormat::Png, "png"), (ImageFormat::Bmp, "bmp"), (ImageFormat::Tiff, "tiff"), (ImageFormat::Gif, "gif")];

/// A small picture in one of the formats, or bytes which are none.
fn encoded(g: &mut G) -> (Vec<u8>, &'static str) {
    let (w, h) = (1 + g.n(9) as u32, 1 + g.n(9) as u32);
    let (f, name) = *g.pick(&FORMATS);
    let mut im = image::RgbaImage::new(w, h);
    // few colours: formats with a palette keep them
    let colours: Vec<[u8; 4]> = (0..3).map(|_| [g.n(256) as u8, g.n(256) as u8, g.n(256) as u8, 255]).collect();
    for p in im.pixels_mut() {
        p.0 = *g.pick(&colours);
    }
    let mut b = Cursor::new(vec![]);
    let rgb = image::DynamicImage::ImageRgba8(im).to_rgb8();
    image::DynamicImage::ImageRgb8(rgb).write_to(&mut b, f).expect("encodes");
    (b.into_inner(), name)
}

fn pixels(b: &[u8]) -> Option<image::RgbaImage> {
    image::load_from_memory(b).ok().map(|i| i.to_rgba8())
}

fn c11(c: &mut Case) -> Out {
    let cfg = Cfg { fmt: 0, depth: 2, rbias: &[R_PIC, R_PIC, R_PIC], images: true, fields: false, comments: true, pic_ids: true, ..Cfg::write_all() };
    let mut m = model(c, cfg, &Ops { block: 6, section: 2, hf: 4, ..Ops::none() }, &["image"]);
    let mut d = take(&mut m);
    // pictures whose size and kind the library finds out
    let mut found = vec![];
    if c.g.chance(1, 3) {
        for _ in 0..1 + c.g.n(2) {
            let (b, name) = encoded(&mut c.g);
            c.class(match name {
                "png" => "found out: png",
                "bmp" => "found out: bmp",
                "tiff" => "found out: tiff",
                _ => "found out: gif",
            });
            let p = guard("pic", || Pic::new(&b))?;
            let im = pixels(&b).expect("decodes");
            let size = (im.width() * 9525, im.height() * 9525);
            if p.size != size {
                return fail("pic:size", format!("an image of {}x{} pixels has size {:?}, expected {size:?}", im.width(), im.height(), p.size));
            }
            found.push((p, im));
        }
        c.nontrivial = true;
    }
    if found.is_empty() {
        let b = pack(d)?;
        let p = opc::open(&b)?;
        bodies(&m, &p)?;
        let used = used(&p)?;
        let model: BTreeSet<Vec<u8>> = m.images.values().cloned().collect();
        stored(&p, &used)?;
        if let Some(x) = used.iter().find(|u| !model.contains(*u)) {
            return fail("stored:other", format!("an image of {} bytes is in the package which no picture shows", x.len()));
        }
        return reading(c, p, &used);
    }
    for (p, _) in &found {
        d = d.add_paragraph(Paragraph::new().add_run(Run::new().add_image(p.clone())));
    }
    let b = pack(d)?;
    let p = opc::open(&b)?;
    let x = p.xml("word/document.xml")?;
    let embeds: Vec<String> = x.all("a:blip").iter().filter_map(|e| e.attr("r:embed").map(String::from)).collect();
    let rels = p.rels("word/document.xml")?;
    for ((_, im), e) in found.iter().rev().zip(embeds.iter().rev()) {
        let got = rels.iter().find(|r| &r.id == e).and_then(|r| p.get(&opc::resolve("word/document.xml", &r.target)));
        let Some(got) = got else { return fail("pic:missing", format!("nothing is stored for {e}")) };
        if !got.starts_with(&PNG_SIGNATURE) {
            return fail("pic:format", "an image was stored in another format than its part says");
        }
        if pixels(got).as_ref() != Some(im) {
            return fail("pic:pixels", "the stored picture differs from the given one");
        }
    }
    let used = used(&p)?;
    stored(&p, &used)
}

const PNG_SIGNATURE: [u8; 8] = [137, 80, 78, 71, 13, 10, 26, 10];

/// Images the relationships of all parts lead to.
fn used(p: &opc::Pkg) -> Result<BTreeSet<Vec<u8>>, crate::runner::Fail> {
    let mut v = BTreeSet::new();
    for n in p.names.iter().filter(|n| n.ends_with(".rels")) {
        let src = opc::rels_source(n).unwrap_or_default();
        for r in p.rels(&src)? {
            if r.ty.ends_with("/image") {
                match p.get(&opc::resolve(&src, &r.target)) {
                    Some(b) => v.insert(b.to_vec()),
                    None => return fail("stored:missing", format!("{src}: no part {}", r.target)),
                };
            }
        }
    }
    Ok(v)
}

/// Each image is stored once, and nothing else is.
fn stored(p: &opc::Pkg, used: &BTreeSet<Vec<u8>>) -> Out {
    let media: Vec<_> = p.names.iter().filter(|n| n.starts_with("word/media/")).filter(|n| !n.ends_with('/')).collect();
    if media.len() != used.len() {
        return fail("stored:times", format!("{} images are stored for {} different ones in use: {media:?}", media.len(), used.len()));
    }
    Ok(())
}

/// Images are read with their bytes, and a preview where one can be made.
fn reading(c: &mut Case, p: opc::Pkg, used: &BTreeSet<Vec<u8>>) -> Out {
    let mut p = p;
    let mut used = used.clone();
    // the same package with images in other formats
    if c.g.coin() {
        let names: Vec<String> = p.names.iter().filter(|n| n.starts_with("word/media/") && !n.ends_with('/')).cloned().collect();
        for n in names {
            if c.g.coin() {
                continue;
            }
            let (b, ext) = match c.g.n(5) {
                0 => {
                    c.class("read: no known format");
                    (c.g.bytes(60), "bin")
                }
                1 => {
                    c.class("read: metafile by name");
                    (c.g.bytes(60), *c.g.pick(&["emf", "EMF", "Emf"]))
                }
                2 => {
                    c.class("read: metafile by content");
                    let mut b = vec![0; 44 + c.g.n(9)];
                    b[0] = 1;
                    b[40..44].copy_from_slice(b" EMF");
                    (b, "dat")
                }
                _ => {
                    let (b, e) = encoded(&mut c.g);
                    c.class("read: other format");
                    (b, *c.g.pick(&[e, "jpg", "image"]))
                }
            };
            used.remove(p.get(&n).map_or(&[][..], |b| b));
            used.insert(b.clone());
            let new = format!("{}.{ext}", n.trim_end_matches(".png"));
            p = p.rename(&n, &new, b);
        }
    }
    let (b, previews) = (p.zip(), c.g.chance(2, 3));
    c.class(if previews { "previews" } else { "no previews" });
    let r = guard("read", || read_docx_with_options(&b, ReadDocxOptions::default().with_image_previews(previews)))?;
    let d = match r {
        Ok(d) => d,
        Err(e) => return fail("read:error", format!("{e:?}")),
    };
    let mut got = BTreeSet::new();
    for (id, path, im, png) in &d.images {
        got.insert(im.0.clone());
        let at = || format!("image {id} of {path}");
        if !p.names.iter().any(|n| n == path) {
            return fail("read:path", format!("{}: no such part", at()));
        }
        if p.get(path) != Some(&im.0) {
            return fail("read:bytes", format!("{} is read with other bytes", at()));
        }
        let emf = path.to_lowercase().ends_with(".emf") || (im.0.len() >= 44 && im.0[..4] == [1, 0, 0, 0] && &im.0[40..44] == b" EMF");
        if !previews || emf {
            if !png.0.is_empty() {
                return fail("read:preview", format!("{} has an unexpected preview", at()));
            }
        } else if im.0.starts_with(&PNG_SIGNATURE) {
            if png.0 != im.0 {
                return fail("read:preview-png", format!("{} is not its own preview", at()));
            }
        } else if let Some(x) = pixels(&im.0) {
            if pixels(&png.0).as_ref() != Some(&x) || !png.0.starts_with(&PNG_SIGNATURE) {
                return fail("read:preview-pixels", format!("the preview of {} shows something else", at()));
            }
        } else if !png.0.is_empty() {
            return fail("read:preview-made-up", format!("{} has a preview though it cannot be decoded", at()));
        }
    }
    if got != used {
        return fail("read:images", format!("{} different images are read, {} are in the package", got.len(), used.len()));
    }
    Ok(())
}
pub const C11: Prop = Prop { id: "C11", rule: "documents with at least one picture", quick: 20000, run: c11, ..DEF };
