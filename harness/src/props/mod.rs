use crate::runner::Prop;
mod build;
mod alien;
mod defs;
mod fields;
mod foreign;
mod hostile;
mod ids;
mod images;
mod js;
mod package;
mod roundtrip;
mod stable;
mod rawtext;
mod texts;
mod threads;
mod toc;
mod write;
pub static ALL: &[Prop] = &[
    write::C01,
    write::C02,
    write::C03,
    roundtrip::C04,
    foreign::C05,
    foreign::C06,
    package::C07,
    package::C08,
    package::C09,
    package::C10,
    package::C13,
    package::C14,
    hostile::C17,
    foreign::C18,
    package::C20,
    package::C21,
    stable::C25,
    toc::C15,
    fields::C26,
    ids::C12,
    images::C11,
    threads::C24,
    texts::C22,
    rawtext::C29,
    defs::C27,
    alien::C28,
    js::C30,
    js::C31,
    build::C16,
    build::C19,
    build::C23,
];
