//! Reference models of formatting: setter histories applied both to the library's
//! builders and to an independent state, from which the expected markup and the
//! expected JSON follow.

use crate::gen::G;
use crate::xml::{el, El};
use docx_rs::*;
use serde_json::{json, Map, Value};

/// enum <-> token tables, written from ECMA-376, not from the library
pub const BORDERS: &[(BorderType, &str)] = &[
    (BorderType::Single, "single"),
    (BorderType::Nil, "nil"),
    (BorderType::None, "none"),
    (BorderType::Thick, "thick"),
    (BorderType::Double, "double"),
    (BorderType::Dotted, "dotted"),
    (BorderType::Dashed, "dashed"),
    (BorderType::DotDash, "dotDash"),
    (BorderType::DotDotDash, "dotDotDash"),
    (BorderType::Triple, "triple"),
    (BorderType::ThinThickSmallGap, "thinThickSmallGap"),
    (BorderType::ThickThinSmallGap, "thickThinSmallGap"),
    (BorderType::ThinThickThinSmallGap, "thinThickThinSmallGap"),
    (BorderType::ThinThickMediumGap, "thinThickMediumGap"),
    (BorderType::ThickThinMediumGap, "thickThinMediumGap"),
    (BorderType::ThinThickThinMediumGap, "thinThickThinMediumGap"),
    (BorderType::ThinThickLargeGap, "thinThickLargeGap"),
    (BorderType::ThickThinLargeGap, "thickThinLargeGap"),
    (BorderType::ThinThickThinLargeGap, "thinThickThinLargeGap"),
    (BorderType::Wave, "wave"),
    (BorderType::DoubleWave, "doubleWave"),
    (BorderType::DashSmallGap, "dashSmallGap"),
    (BorderType::DashDotStroked, "dashDotStroked"),
    (BorderType::ThreeDEmboss, "threeDEmboss"),
    (BorderType::ThreeDEngrave, "threeDEngrave"),
    (BorderType::Outset, "outset"),
    (BorderType::Inset, "inset"),
    (BorderType::Apples, "apples"),
    (BorderType::ArchedScallops, "archedScallops"),
    (BorderType::BabyPacifier, "babyPacifier"),
    (BorderType::BabyRattle, "babyRattle"),
];
pub const SHDS: &[(ShdType, &str)] = &[
    (ShdType::Clear, "clear"),
    (ShdType::Nil, "nil"),
    (ShdType::Solid, "solid"),
    (ShdType::HorzStripe, "horzStripe"),
    (ShdType::VertStripe, "vertStripe"),
    (ShdType::ReverseDiagStripe, "reverseDiagStripe"),
    (ShdType::DiagStripe, "diagStripe"),
    (ShdType::HorzCross, "horzCross"),
    (ShdType::DiagCross, "diagCross"),
    (ShdType::ThinHorzStripe, "thinHorzStripe"),
    (ShdType::ThinVertStripe, "thinVertStripe"),
    (ShdType::ThinReverseDiagStripe, "thinReverseDiagStripe"),
    (ShdType::ThinDiagStripe, "thinDiagStripe"),
    (ShdType::ThinHorzCross, "thinHorzCross"),
    (ShdType::ThinDiagCross, "thinDiagCross"),
    (ShdType::Pct5, "pct5"),
    (ShdType::Pct10, "pct10"),
    (ShdType::Pct12, "pct12"),
    (ShdType::Pct15, "pct15"),
    (ShdType::Pct20, "pct20"),
    (ShdType::Pct25, "pct25"),
    (ShdType::Pct30, "pct30"),
    (ShdType::Pct35, "pct35"),
    (ShdType::Pct37, "pct37"),
    (ShdType::Pct40, "pct40"),
    (ShdType::Pct45, "pct45"),
    (ShdType::Pct50, "pct50"),
    (ShdType::Pct55, "pct55"),
    (ShdType::Pct60, "pct60"),
    (ShdType::Pct62, "pct62"),
    (ShdType::Pct65, "pct65"),
    (ShdType::Pct70, "pct70"),
    (ShdType::Pct75, "pct75"),
    (ShdType::Pct80, "pct80"),
    (ShdType::Pct85, "pct85"),
    (ShdType::Pct87, "pct87"),
    (ShdType::Pct90, "pct90"),
    (ShdType::Pct95, "pct95"),
];
pub const THEMES: &[(ThemeColor, &str)] = &[
    (ThemeColor::Dark1, "dark1"),
    (ThemeColor::Light1, "light1"),
    (ThemeColor::Dark2, "dark2"),
    (ThemeColor::Light2, "light2"),
    (ThemeColor::Accent1, "accent1"),
    (ThemeColor::Accent2, "accent2"),
    (ThemeColor::Accent3, "accent3"),
    (ThemeColor::Accent4, "accent4"),
    (ThemeColor::Accent5, "accent5"),
    (ThemeColor::Accent6, "accent6"),
    (ThemeColor::Hyperlink, "hyperlink"),
    (ThemeColor::FollowedHyperlink, "followedHyperlink"),
    (ThemeColor::None, "none"),
    (ThemeColor::Background1, "background1"),
    (ThemeColor::Text1, "text1"),
    (ThemeColor::Background2, "background2"),
    (ThemeColor::Text2, "text2"),
];
pub const ALIGNS: &[(AlignmentType, &str)] = &[
    (AlignmentType::Left, "left"),
    (AlignmentType::Both, "both"),
    (AlignmentType::Center, "center"),
    (AlignmentType::Distribute, "distribute"),
    (AlignmentType::Start, "start"),
    (AlignmentType::End, "end"),
    (AlignmentType::Right, "right"),
];
pub const WIDTHS: &[(WidthType, &str)] =
    &[(WidthType::Dxa, "dxa"), (WidthType::Auto, "auto"), (WidthType::Pct, "pct"), (WidthType::Nil, "nil")];
pub const TEXTDIRS: &[(TextDirectionType, &str)] = &[
    (TextDirectionType::Lr, "lr"),
    (TextDirectionType::LrV, "lrV"),
    (TextDirectionType::Rl, "rl"),
    (TextDirectionType::RlV, "rlV"),
    (TextDirectionType::Tb, "tb"),
    (TextDirectionType::TbV, "tbV"),
    (TextDirectionType::TbRlV, "tbRlV"),
    (TextDirectionType::TbRl, "tbRl"),
    (TextDirectionType::BtLr, "btLr"),
    (TextDirectionType::LrTbV, "lrTbV"),
];
pub const TALIGNS: &[(TableAlignmentType, &str)] =
    &[(TableAlignmentType::Left, "left"), (TableAlignmentType::Center, "center"), (TableAlignmentType::Right, "right")];
pub const LAYOUTS: &[(TableLayoutType, &str)] = &[(TableLayoutType::Fixed, "fixed"), (TableLayoutType::Autofit, "autofit")];
pub const LEADERS: &[(TabLeaderType, &str)] = &[
    (TabLeaderType::None, "none"),
    (TabLeaderType::Dot, "dot"),
    (TabLeaderType::Heavy, "heavy"),
    (TabLeaderType::Hyphen, "hyphen"),
    (TabLeaderType::MiddleDot, "middleDot"),
    (TabLeaderType::Underscore, "underscore"),
];
pub const TABVALS: &[(TabValueType, &str)] = &[
    (TabValueType::Left, "left"),
    (TabValueType::Bar, "bar"),
    (TabValueType::Center, "center"),
    (TabValueType::Clear, "clear"),
    (TabValueType::Decimal, "decimal"),
    (TabValueType::End, "end"),
    (TabValueType::Right, "right"),
    (TabValueType::Num, "num"),
    (TabValueType::Start, "start"),
];
pub const HRULES: &[(HeightRule, &str)] = &[(HeightRule::AtLeast, "atLeast"), (HeightRule::Auto, "auto"), (HeightRule::Exact, "exact")];
pub const TXALIGNS: &[(TextAlignmentType, &str)] = &[
    (TextAlignmentType::Auto, "auto"),
    (TextAlignmentType::Baseline, "baseline"),
    (TextAlignmentType::Bottom, "bottom"),
    (TextAlignmentType::Center, "center"),
    (TextAlignmentType::Top, "top"),
];
pub const VERTS: &[(VertAlignType, &str)] =
    &[(VertAlignType::SuperScript, "superscript"), (VertAlignType::SubScript, "subscript"), (VertAlignType::Baseline, "baseline")];
pub const LINERULES: &[(LineSpacingType, &str)] =
    &[(LineSpacingType::Auto, "auto"), (LineSpacingType::AtLeast, "atLeast"), (LineSpacingType::Exact, "exact")];
pub const VALIGNS: &[(VAlignType, &str)] = &[(VAlignType::Top, "top"), (VAlignType::Center, "center"), (VAlignType::Bottom, "bottom")];
pub const VMERGES: &[(VMergeType, &str)] = &[(VMergeType::Continue, "continue"), (VMergeType::Restart, "restart")];
pub const PTALIGNS: &[(PositionalTabAlignmentType, &str)] = &[
    (PositionalTabAlignmentType::Left, "left"),
    (PositionalTabAlignmentType::Center, "center"),
    (PositionalTabAlignmentType::Right, "right"),
];
pub const PTREL: &[(PositionalTabRelativeTo, &str)] =
    &[(PositionalTabRelativeTo::Margin, "margin"), (PositionalTabRelativeTo::Indent, "indent")];
pub const BREAKS: &[(BreakType, &str)] =
    &[(BreakType::Page, "page"), (BreakType::Column, "column"), (BreakType::TextWrapping, "textWrapping")];
pub const FLDCHARS: &[(FieldCharType, &str)] =
    &[(FieldCharType::Begin, "begin"), (FieldCharType::Separate, "separate"), (FieldCharType::End, "end")];
pub const SUFFIXES: &[(LevelSuffixType, &str)] =
    &[(LevelSuffixType::Tab, "tab"), (LevelSuffixType::Nothing, "nothing"), (LevelSuffixType::Space, "space")];
pub const GRIDS: &[(DocGridType, &str)] = &[
    (DocGridType::Default, "default"),
    (DocGridType::Lines, "lines"),
    (DocGridType::LinesAndChars, "linesAndChars"),
    (DocGridType::SnapToChars, "snapToChars"),
];

pub const HIGHLIGHTS: &[&str] = &["yellow", "green", "cyan", "red", "darkBlue", "black", "lightGray"];
pub const UNDERLINES: &[&str] = &["single", "double", "dotted", "dash", "wave", "words", "none", "thick"];

pub fn tog(name: &str, on: bool) -> El {
    if on {
        el(name)
    } else {
        el(name).a("w:val", "false")
    }
}

#[derive(Clone, Debug)]
pub struct Brd {
    pub ty: usize,
    pub size: usize,
    pub space: usize,
    pub color: String,
}
impl Brd {
    pub fn tok(&self) -> &'static str {
        BORDERS[self.ty].1
    }
    pub fn x(&self, name: &str) -> El {
        el(name).a("w:val", self.tok()).a("w:sz", self.size).a("w:space", self.space).a("w:color", &self.color)
    }
}
pub fn brd(g: &mut G) -> Brd {
    let mut b = Brd { ty: g.n(BORDERS.len()), size: g.num(0, 96) as usize, space: g.num(0, 31) as usize, color: g.color() };
    // values that borders have when nothing is said
    if g.chance(1, 4) {
        b.ty = 0;
    }
    if g.chance(1, 4) {
        b.size = *g.pick(&[2, 4]);
    }
    if g.chance(1, 4) {
        b.space = 0;
    }
    if g.chance(1, 4) {
        b.color = g.pick(&["auto", "000000"]).to_string();
    }
    b
}

#[derive(Clone, Debug)]
pub struct Shd {
    pub ty: usize,
    pub color: String,
    pub fill: String,
}
impl Shd {
    pub fn gen(g: &mut G) -> Shd {
        let mut s = Shd { ty: g.n(SHDS.len()), color: g.color(), fill: g.color() };
        if g.chance(1, 4) {
            s.ty = SHDS.iter().position(|x| x.1 == "clear").unwrap();
        }
        if g.chance(1, 4) {
            s.color = "auto".into();
        }
        if g.chance(1, 4) {
            s.fill = "FFFFFF".into();
        }
        s
    }
    pub fn lib(&self) -> Shading {
        let mut s = Shading::new();
        if SHDS[self.ty].1 != "clear" {
            s = s.shd_type(SHDS[self.ty].0);
        }
        if self.color != "auto" {
            s = s.color(&self.color);
        }
        if self.fill != "FFFFFF" {
            s = s.fill(&self.fill);
        }
        s
    }
    pub fn x(&self) -> El {
        el("w:shd").a("w:val", SHDS[self.ty].1).a("w:color", &self.color).a("w:fill", &self.fill)
    }
    pub fn j(&self) -> Value {
        json!({"shdType": SHDS[self.ty].1, "color": self.color, "fill": self.fill})
    }
}

#[derive(Clone, Debug, Default)]
pub struct Fonts {
    pub f: [Option<String>; 9],
}
const FONT_ATTR: [&str; 9] =
    ["w:ascii", "w:hAnsi", "w:eastAsia", "w:cs", "w:asciiTheme", "w:hAnsiTheme", "w:eastAsiaTheme", "w:cstheme", "w:hint"];
const FONT_JSON: [&str; 9] = ["ascii", "hiAnsi", "eastAsia", "cs", "asciiTheme", "hiAnsiTheme", "eastAsiaTheme", "csTheme", "hint"];
impl Fonts {
    pub fn gen(g: &mut G, names: &dyn Fn(&mut G) -> String) -> Fonts {
        let mut f = Fonts::default();
        for i in 0..9 {
            if g.chance(2, 5) {
                f.f[i] = Some(match i {
                    8 => g.pick(&["default", "eastAsia", "cs"]).to_string(),
                    4..=7 => g.pick(&["majorAscii", "minorHAnsi", "majorEastAsia", "minorBidi"]).to_string(),
                    _ => names(g),
                });
            }
        }
        if f.f.iter().all(|x| x.is_none()) {
            f.f[0] = Some("Arial".into());
        }
        f
    }
    pub fn lib(&self) -> RunFonts {
        let mut r = RunFonts::new();
        for (i, v) in self.f.iter().enumerate() {
            if let Some(v) = v {
                r = match i {
                    0 => r.ascii(v),
                    1 => r.hi_ansi(v),
                    2 => r.east_asia(v),
                    3 => r.cs(v),
                    4 => r.ascii_theme(v),
                    5 => r.hi_ansi_theme(v),
                    6 => r.east_asia_theme(v),
                    7 => r.cs_theme(v),
                    _ => r.hint(v),
                };
            }
        }
        r
    }
    pub fn x(&self) -> El {
        let mut e = el("w:rFonts");
        for i in 0..9 {
            e = e.ao(FONT_ATTR[i], self.f[i].as_ref());
        }
        e
    }
    pub fn j(&self) -> Value {
        let mut m = Map::new();
        for i in 0..9 {
            if let Some(v) = &self.f[i] {
                m.insert(FONT_JSON[i].into(), json!(v));
            }
        }
        Value::Object(m)
    }
}

/// Which settings a generated history may contain.
#[derive(Clone, Copy, Debug)]
pub struct FmtCfg {
    /// only settings the reader is able to represent
    pub read: bool,
    /// attribute strings may contain markup characters
    pub wild: bool,
}

/// Names are stored as given and written so that references in them survive; a
/// name that itself looks like a reference is recorded as a finding, not generated.
pub fn no_ref(s: String) -> String {
    s.replace(';', ",")
}
pub fn name_str(g: &mut G, wild: bool) -> String {
    if wild && g.chance(1, 3) {
        if g.chance(1, 8) {
            return String::new();
        }
        no_ref(g.text())
    } else {
        g.ident()
    }
}

/// Run formatting --------------------------------------------------------------
#[derive(Clone, Debug)]
pub enum RS {
    Style(String),
    Size(usize),
    Spacing(i32),
    Stretch(i32),
    Color(String),
    ThemeColor(usize),
    ThemeShade(String),
    ThemeTint(String),
    Highlight(String),
    Vert(usize),
    Bold,
    NoBold,
    Caps,
    Italic,
    NoItalic,
    Strike,
    NoStrike,
    Dstrike,
    NoDstrike,
    Underline(String),
    Vanish,
    SpecVanish,
    Fonts(Fonts),
    Fit(usize, Option<u32>),
    Border(Brd),
    Shd(Shd),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RTarget {
    Run,
    Prop,
    Par,
    Style,
    Level,
}

pub fn rs(g: &mut G, t: RTarget, c: FmtCfg) -> RS {
    loop {
        let s = match g.n(26) {
            0 => RS::Bold,
            1 => RS::Size(g.num(1, 3277) as usize),
            2 => RS::Color(g.color()),
            3 => RS::Italic,
            4 => RS::Fonts(Fonts::gen(g, &|g| name_str(g, c.wild))),
            5 => RS::Highlight(g.pick(HIGHLIGHTS).to_string()),
            6 => RS::Underline(g.pick(UNDERLINES).to_string()),
            7 => RS::Vanish,
            8 => RS::Border(brd(g)),
            9 => RS::Style(name_str(g, c.wild)),
            10 => RS::Spacing(g.num(-31680, 31680) as i32),
            11 => RS::Stretch(g.num(1, 600) as i32),
            12 => RS::ThemeColor(g.n(THEMES.len())),
            13 => RS::ThemeShade(format!("{:02X}", g.below(256))),
            14 => RS::ThemeTint(format!("{:02X}", g.below(256))),
            15 => RS::NoBold,
            16 => RS::NoItalic,
            17 => RS::Strike,
            18 => RS::Dstrike,
            19 => RS::Shd(Shd::gen(g)),
            20 => RS::Vert(g.n(VERTS.len())),
            21 => RS::Caps,
            22 => RS::NoStrike,
            23 => RS::NoDstrike,
            24 => RS::SpecVanish,
            _ => RS::Fit(g.num(0, 100000) as usize, if g.coin() { Some(g.num(0, u32::MAX as i64) as u32) } else { None }),
        };
        let ok = match t {
            RTarget::Prop => true,
            RTarget::Run => !matches!(s, RS::Vert(_) | RS::Caps | RS::NoStrike | RS::NoDstrike | RS::SpecVanish | RS::Fit(..)),
            RTarget::Par => matches!(s, RS::Size(_) | RS::Color(_) | RS::Bold | RS::Italic | RS::Fonts(_) | RS::Spacing(_)),
            RTarget::Style => matches!(
                s,
                RS::Size(_)
                    | RS::Color(_)
                    | RS::ThemeColor(_)
                    | RS::ThemeShade(_)
                    | RS::ThemeTint(_)
                    | RS::Highlight(_)
                    | RS::Bold
                    | RS::Italic
                    | RS::Underline(_)
                    | RS::Vanish
                    | RS::Border(_)
                    | RS::Shd(_)
                    | RS::Fonts(_)
            ),
            RTarget::Level => matches!(
                s,
                RS::Size(_)
                    | RS::Spacing(_)
                    | RS::Color(_)
                    | RS::Highlight(_)
                    | RS::Bold
                    | RS::NoBold
                    | RS::Italic
                    | RS::NoItalic
                    | RS::Strike
                    | RS::NoStrike
                    | RS::Dstrike
                    | RS::NoDstrike
                    | RS::Underline(_)
                    | RS::Vanish
                    | RS::Fonts(_)
            ),
        };
        if !ok {
            continue;
        }
        if c.read && matches!(s, RS::Stretch(_)) {
            continue;
        }
        return s;
    }
}

pub fn lib_border(b: &Brd) -> TextBorder {
    let mut r = TextBorder::new();
    if b.ty != 0 || b.space % 2 == 1 {
        r = r.border_type(BORDERS[b.ty].0);
    }
    if b.size != 4 || b.space % 2 == 1 {
        r = r.size(b.size);
    }
    if b.space != 0 {
        r = r.space(b.space);
    }
    if b.color != "auto" || b.space % 2 == 1 {
        r = r.color(&b.color);
    }
    r
}

macro_rules! common_rs {
    ($r:expr, $s:expr, $($rest:tt)*) => {
        match $s {
            RS::Size(v) => $r.size(*v),
            RS::Color(v) => $r.color(v),
            RS::Bold => $r.bold(),
            RS::Italic => $r.italic(),
            RS::Fonts(f) => $r.fonts(f.lib()),
            $($rest)*
        }
    };
}

pub fn rs_run(r: Run, s: &RS) -> Run {
    common_rs!(r, s,
        RS::Style(v) => r.style(v),
        RS::Spacing(v) => r.character_spacing(*v),
        RS::Stretch(v) => r.stretch(*v),
        RS::ThemeColor(i) => r.theme_color(THEMES[*i].0),
        RS::ThemeShade(v) => r.theme_shade(v),
        RS::ThemeTint(v) => r.theme_tint(v),
        RS::Highlight(v) => r.highlight(v),
        RS::NoBold => r.disable_bold(),
        RS::NoItalic => r.disable_italic(),
        RS::Strike => r.strike(),
        RS::Dstrike => r.dstrike(),
        RS::Underline(v) => r.underline(v),
        RS::Vanish => r.vanish(),
        RS::Border(b) => r.text_border(lib_border(b)),
        RS::Shd(s) => r.shading(s.lib()),
        _ => unreachable!(),
    )
}
pub fn rs_prop(r: RunProperty, s: &RS) -> RunProperty {
    common_rs!(r, s,
        RS::Style(v) => r.style(v),
        RS::Spacing(v) => r.character_spacing(*v),
        RS::Stretch(v) => r.stretch(*v),
        RS::ThemeColor(i) => r.theme_color(THEMES[*i].0),
        RS::ThemeShade(v) => r.theme_shade(v),
        RS::ThemeTint(v) => r.theme_tint(v),
        RS::Highlight(v) => r.highlight(v),
        RS::Vert(i) => r.vert_align(VERTS[*i].0),
        RS::NoBold => r.disable_bold(),
        RS::Caps => r.caps(),
        RS::NoItalic => r.disable_italic(),
        RS::Strike => r.strike(),
        RS::NoStrike => r.disable_strike(),
        RS::Dstrike => r.dstrike(),
        RS::NoDstrike => r.disable_dstrike(),
        RS::Underline(v) => r.underline(v),
        RS::Vanish => r.vanish(),
        RS::SpecVanish => r.spec_vanish(),
        RS::Fit(v, id) => r.fit_text(*v, *id),
        RS::Border(b) => r.text_border(lib_border(b)),
        RS::Shd(s) => r.shading(s.lib()),
    )
}
pub fn rs_par(r: Paragraph, s: &RS) -> Paragraph {
    common_rs!(r, s,
        RS::Spacing(v) => r.character_spacing(*v),
        _ => unreachable!(),
    )
}
pub fn rs_style(r: Style, s: &RS) -> Style {
    common_rs!(r, s,
        RS::ThemeColor(i) => r.theme_color(THEMES[*i].0),
        RS::ThemeShade(v) => r.theme_shade(v),
        RS::ThemeTint(v) => r.theme_tint(v),
        RS::Highlight(v) => r.highlight(v),
        RS::Underline(v) => r.underline(v),
        RS::Vanish => r.vanish(),
        RS::Border(b) => r.text_border(lib_border(b)),
        RS::Shd(s) => r.shading(s.lib()),
        _ => unreachable!(),
    )
}
pub fn rs_level(r: Level, s: &RS) -> Level {
    common_rs!(r, s,
        RS::Spacing(v) => r.spacing(*v),
        RS::Highlight(v) => r.highlight(v),
        RS::NoBold => r.disable_bold(),
        RS::NoItalic => r.disable_italic(),
        RS::Strike => r.strike(),
        RS::NoStrike => r.disable_strike(),
        RS::Dstrike => r.dstrike(),
        RS::NoDstrike => r.disable_dstrike(),
        RS::Underline(v) => r.underline(v),
        RS::Vanish => r.vanish(),
        _ => unreachable!(),
    )
}

#[derive(Clone, Debug, Default)]
pub struct RState {
    pub style: Option<String>,
    pub size: Option<usize>,
    pub spacing: Option<i32>,
    pub stretch: Option<i32>,
    pub color: Option<(String, Option<usize>, Option<String>, Option<String>)>,
    pub highlight: Option<String>,
    pub vert: Option<usize>,
    pub bold: Option<bool>,
    pub italic: Option<bool>,
    pub caps: bool,
    pub strike: Option<bool>,
    pub dstrike: Option<bool>,
    pub underline: Option<String>,
    pub vanish: bool,
    pub spec_vanish: bool,
    pub fonts: Option<Fonts>,
    pub fit: Option<(usize, Option<u32>)>,
    pub border: Option<Brd>,
    pub shd: Option<Shd>,
    /// paragraph mark revisions: (author, date)
    pub ins: Option<(String, String)>,
    pub del: Option<(String, String)>,
}

impl RState {
    pub fn is_empty(&self) -> bool {
        self.x_kids().is_empty()
    }
    pub fn apply(&mut self, s: &RS) {
        let col = |c: &Option<(String, Option<usize>, Option<String>, Option<String>)>| c.clone().unwrap_or(("auto".into(), None, None, None));
        match s {
            RS::Style(v) => self.style = Some(v.clone()),
            RS::Size(v) => self.size = Some(*v),
            RS::Spacing(v) => self.spacing = Some(*v),
            RS::Stretch(v) => self.stretch = Some(*v),
            RS::Color(v) => self.color = Some((v.clone(), None, None, None)),
            RS::ThemeColor(i) => {
                let mut c = col(&self.color);
                c.1 = Some(*i);
                self.color = Some(c)
            }
            RS::ThemeShade(v) => {
                let mut c = col(&self.color);
                c.2 = Some(v.clone());
                self.color = Some(c)
            }
            RS::ThemeTint(v) => {
                let mut c = col(&self.color);
                c.3 = Some(v.clone());
                self.color = Some(c)
            }
            RS::Highlight(v) => self.highlight = Some(v.clone()),
            RS::Vert(i) => self.vert = Some(*i),
            RS::Bold => self.bold = Some(true),
            RS::NoBold => self.bold = Some(false),
            RS::Caps => self.caps = true,
            RS::Italic => self.italic = Some(true),
            RS::NoItalic => self.italic = Some(false),
            // single and double strike exclude each other
            RS::Strike => {
                self.strike = Some(true);
                self.dstrike = None
            }
            RS::NoStrike => self.strike = Some(false),
            RS::Dstrike => {
                self.dstrike = Some(true);
                self.strike = None
            }
            RS::NoDstrike => self.dstrike = Some(false),
            RS::Underline(v) => self.underline = Some(v.clone()),
            RS::Vanish => self.vanish = true,
            RS::SpecVanish => self.spec_vanish = true,
            RS::Fonts(f) => self.fonts = Some(f.clone()),
            RS::Fit(v, i) => self.fit = Some((*v, *i)),
            RS::Border(b) => self.border = Some(b.clone()),
            RS::Shd(s) => self.shd = Some(s.clone()),
        }
    }
    pub fn x_kids(&self) -> Vec<El> {
        let mut v = vec![];
        let val = |n: &str, t: &dyn ToString| el(n).a("w:val", t.to_string());
        if let Some(s) = &self.style {
            v.push(val("w:rStyle", s));
        }
        if let Some(f) = &self.fonts {
            v.push(f.x());
        }
        if let Some(b) = self.bold {
            v.push(tog("w:b", b));
            v.push(tog("w:bCs", b));
        }
        if let Some(b) = self.italic {
            v.push(tog("w:i", b));
            v.push(tog("w:iCs", b));
        }
        if self.caps {
            v.push(tog("w:caps", true));
        }
        if let Some(b) = self.strike {
            v.push(tog("w:strike", b));
        }
        if let Some(b) = self.dstrike {
            v.push(tog("w:dstrike", b));
        }
        if self.vanish {
            v.push(el("w:vanish"));
        }
        if let Some((c, t, sh, ti)) = &self.color {
            v.push(
                val("w:color", c)
                    .ao("w:themeColor", t.map(|i| THEMES[i].1))
                    .ao("w:themeShade", sh.as_ref())
                    .ao("w:themeTint", ti.as_ref()),
            );
        }
        if let Some(s) = self.spacing {
            v.push(val("w:spacing", &s));
        }
        if let Some(s) = self.stretch {
            v.push(val("w:w", &s));
        }
        if let Some(s) = self.size {
            v.push(val("w:sz", &s));
            v.push(val("w:szCs", &s));
        }
        if let Some(s) = &self.highlight {
            v.push(val("w:highlight", s));
        }
        if let Some(s) = &self.underline {
            v.push(val("w:u", s));
        }
        if let Some(b) = &self.border {
            v.push(b.x("w:bdr"));
        }
        if let Some(s) = &self.shd {
            v.push(s.x());
        }
        if let Some((n, id)) = &self.fit {
            v.push(val("w:fitText", n).ao("w:id", *id));
        }
        if let Some(i) = self.vert {
            v.push(val("w:vertAlign", &VERTS[i].1));
        }
        if self.spec_vanish {
            v.push(el("w:specVanish"));
        }
        if let Some((a, d)) = &self.ins {
            v.push(el("w:ins").a("w:id", 0).a("w:author", a).a("w:date", d));
        }
        if let Some((a, d)) = &self.del {
            v.push(el("w:del").a("w:id", 0).a("w:author", a).a("w:date", d));
        }
        v
    }
    pub fn x(&self) -> El {
        el("w:rPr").ks(self.x_kids())
    }
    pub fn j(&self) -> Value {
        let mut m = Map::new();
        let mut p = |k: &str, v: Value| {
            m.insert(k.into(), v);
        };
        if let Some(s) = &self.style {
            p("style", json!(s));
        }
        if let Some(s) = self.size {
            p("sz", json!(s));
            p("szCs", json!(s));
        }
        if let Some(s) = self.spacing {
            p("characterSpacing", json!(s));
        }
        if let Some(s) = self.stretch {
            p("stretch", json!(s));
        }
        if let Some(c) = &self.color {
            p("color", json!(c.0));
        }
        if let Some(s) = &self.highlight {
            p("highlight", json!(s));
        }
        if let Some(i) = self.vert {
            p("vertAlign", json!(VERTS[i].1));
        }
        if let Some(b) = self.bold {
            p("bold", json!(b));
            p("boldCs", json!(b));
        }
        if let Some(b) = self.italic {
            p("italic", json!(b));
            p("italicCs", json!(b));
        }
        if self.caps {
            p("caps", json!(true));
        }
        if let Some(b) = self.strike {
            p("strike", json!(b));
        }
        if let Some(b) = self.dstrike {
            p("dstrike", json!(b));
        }
        if let Some(s) = &self.underline {
            p("underline", json!(s));
        }
        if self.vanish {
            p("vanish", json!(true));
        }
        if self.spec_vanish {
            p("specVanish", json!(true));
        }
        if let Some(f) = &self.fonts {
            p("fonts", f.j());
        }
        if let Some((v, id)) = &self.fit {
            p("fitText", json!({"val": v, "id": id}));
        }
        if let Some(b) = &self.border {
            p("textBorder", json!({"borderType": b.tok(), "size": b.size, "space": b.space, "color": b.color}));
        }
        if let Some(s) = &self.shd {
            p("shading", s.j());
        }
        if let Some((a, d)) = &self.ins {
            p("ins", json!({"author": a, "date": d, "children": []}));
        }
        if let Some((a, d)) = &self.del {
            p("del", json!({"author": a, "date": d, "children": []}));
        }
        Value::Object(m)
    }
}

/// A history of run settings for a target.
pub fn rs_history(g: &mut G, t: RTarget, c: FmtCfg, max: usize) -> (Vec<RS>, RState) {
    let n = g.len(0, max);
    let mut st = RState::default();
    let mut v = vec![];
    for _ in 0..n {
        let s = rs(g, t, c);
        st.apply(&s);
        v.push(s);
    }
    if c.read {
        // the markup keeps no order between the two strikes, a disabled one next to an
        // enabled one is therefore ambiguous for a reader that applies them in turn
        if st.strike.is_some() && st.dstrike.is_some() {
            let drop = |s: &RS| matches!(s, RS::Strike | RS::NoStrike | RS::Dstrike | RS::NoDstrike);
            v.retain(|s| !drop(s));
            st.strike = None;
            st.dstrike = None;
        }
    }
    (v, st)
}

/// Paragraph formatting --------------------------------------------------------
#[derive(Clone, Debug)]
pub struct TabS {
    pub val: Option<usize>,
    pub leader: Option<usize>,
    pub pos: Option<usize>,
}
impl TabS {
    pub fn gen(g: &mut G) -> TabS {
        TabS {
            val: if g.chance(4, 5) { Some(g.n(TABVALS.len())) } else { None },
            leader: if g.coin() { Some(g.n(LEADERS.len())) } else { None },
            pos: if g.chance(4, 5) { Some(g.num(0, 31680) as usize) } else { None },
        }
    }
    pub fn lib(&self) -> Tab {
        let mut t = Tab::new();
        if let Some(v) = self.val {
            t = t.val(TABVALS[v].0);
        }
        if let Some(v) = self.leader {
            t = t.leader(LEADERS[v].0);
        }
        if let Some(v) = self.pos {
            t = t.pos(v);
        }
        t
    }
    pub fn x(&self) -> El {
        el("w:tab").ao("w:val", self.val.map(|i| TABVALS[i].1)).ao("w:leader", self.leader.map(|i| LEADERS[i].1)).ao("w:pos", self.pos)
    }
    pub fn j(&self) -> Value {
        json!({"val": self.val.map(|i| TABVALS[i].1), "leader": self.leader.map(|i| LEADERS[i].1), "pos": self.pos})
    }
}

#[derive(Clone, Debug, Default)]
pub struct LineS {
    pub before: Option<u32>,
    pub after: Option<u32>,
    pub before_lines: Option<u32>,
    pub after_lines: Option<u32>,
    pub line: Option<i32>,
    pub rule: Option<usize>,
}
impl LineS {
    pub fn gen(g: &mut G) -> LineS {
        let mut l = LineS::default();
        if g.coin() {
            l.before = Some(g.num(0, 31680) as u32);
        }
        if g.coin() {
            l.after = Some(g.num(0, 31680) as u32);
        }
        if g.chance(1, 3) {
            l.before_lines = Some(g.num(0, 10000) as u32);
        }
        if g.chance(1, 3) {
            l.after_lines = Some(g.num(0, 10000) as u32);
        }
        if g.coin() {
            l.line = Some(g.num(-1584, 31680) as i32);
        }
        if g.coin() {
            l.rule = Some(g.n(3));
        }
        l
    }
    pub fn lib(&self) -> LineSpacing {
        let mut l = LineSpacing::new();
        if let Some(v) = self.before {
            l = l.before(v);
        }
        if let Some(v) = self.after {
            l = l.after(v);
        }
        if let Some(v) = self.before_lines {
            l = l.before_lines(v);
        }
        if let Some(v) = self.after_lines {
            l = l.after_lines(v);
        }
        if let Some(v) = self.line {
            l = l.line(v);
        }
        if let Some(v) = self.rule {
            l = l.line_rule(LINERULES[v].0);
        }
        l
    }
    pub fn x(&self) -> El {
        el("w:spacing")
            .ao("w:before", self.before)
            .ao("w:after", self.after)
            .ao("w:beforeLines", self.before_lines)
            .ao("w:afterLines", self.after_lines)
            .ao("w:line", self.line)
            .ao("w:lineRule", self.rule.map(|i| LINERULES[i].1))
    }
    pub fn j(&self) -> Value {
        json!({"before": self.before, "after": self.after, "beforeLines": self.before_lines, "afterLines": self.after_lines,
            "line": self.line, "lineRule": self.rule.map(|i| LINERULES[i].1)})
    }
}

const PPOS: [&str; 6] = ["top", "left", "bottom", "right", "between", "bar"];
fn ppos(i: usize) -> ParagraphBorderPosition {
    match i {
        0 => ParagraphBorderPosition::Top,
        1 => ParagraphBorderPosition::Left,
        2 => ParagraphBorderPosition::Bottom,
        3 => ParagraphBorderPosition::Right,
        4 => ParagraphBorderPosition::Between,
        _ => ParagraphBorderPosition::Bar,
    }
}
#[derive(Clone, Debug, Default)]
pub struct PBrds {
    pub b: [Option<Brd>; 6],
    ops: Vec<(usize, Option<Brd>)>,
    dflt: bool,
    clear_all: bool,
}
impl PBrds {
    pub fn gen(g: &mut G) -> PBrds {
        let mut p = PBrds { dflt: g.chance(1, 5), ..Default::default() };
        if p.dflt {
            for i in 0..4 {
                p.b[i] = Some(Brd { ty: 0, size: 2, space: 0, color: "auto".into() });
            }
        }
        let n = g.len(1, 4);
        for _ in 0..n {
            let i = g.n(6);
            if g.chance(1, 6) {
                p.ops.push((i, None));
                p.b[i] = Some(Brd { ty: 1, size: 2, space: 0, color: "auto".into() });
            } else {
                let b = brd(g);
                p.ops.push((i, Some(b.clone())));
                p.b[i] = Some(b);
            }
        }
        p.clear_all = g.chance(1, 12);
        if p.clear_all {
            for i in 0..6 {
                p.b[i] = Some(Brd { ty: 1, size: 2, space: 0, color: "auto".into() });
            }
        }
        p
    }
    pub fn lib(&self) -> ParagraphBorders {
        let mut r = if self.dflt { ParagraphBorders::new() } else { ParagraphBorders::with_empty() };
        for (i, b) in &self.ops {
            r = match b {
                Some(b) => r.set(pbrd(*i, b)),
                None => r.clear(ppos(*i)),
            };
        }
        if self.clear_all {
            r = r.clear_all();
        }
        r
    }
    pub fn x(&self) -> El {
        let mut e = el("w:pBdr");
        for i in 0..6 {
            if let Some(b) = &self.b[i] {
                e = e.k(b.x(&format!("w:{}", PPOS[i])));
            }
        }
        e
    }
    pub fn j(&self) -> Value {
        let mut m = Map::new();
        for i in 0..6 {
            if let Some(b) = &self.b[i] {
                m.insert(PPOS[i].into(), json!({"position": PPOS[i], "val": b.tok(), "size": b.size, "space": b.space, "color": b.color}));
            }
        }
        Value::Object(m)
    }
}

#[derive(Clone, Debug)]
pub enum Special {
    First(i32),
    Hanging(i32),
}

#[derive(Clone, Debug)]
pub enum PS {
    Align(usize),
    Style(String),
    Snap(bool),
    KeepNext(bool),
    KeepLines(bool),
    Outline(usize),
    PageBreak(bool),
    Widow(bool),
    Bidi(bool),
    Tab(TabS),
    Tabs(Vec<TabS>),
    Indent(Option<i32>, Option<Special>, Option<i32>, Option<i32>),
    HangingChars(i32),
    FirstLineChars(i32),
    Num(usize, usize),
    Line(LineS),
    Borders(PBrds),
    Shd(Shd),
    TextAlign(usize),
    AdjRight(isize),
    Frame(usize, String, i32),
    R(RS),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PTarget {
    Par,
    Prop,
    Style,
}

pub fn ps(g: &mut G, t: PTarget, c: FmtCfg) -> PS {
    loop {
        let s = match g.n(24) {
            0 => PS::Align(g.n(ALIGNS.len())),
            1 => PS::Style(name_str(g, c.wild)),
            2 => PS::Indent(
                if g.chance(3, 4) { Some(g.num(-31680, 31680) as i32) } else { None },
                match g.n(3) {
                    0 => None,
                    1 => Some(Special::First(g.num(0, 31680) as i32)),
                    _ => Some(Special::Hanging(g.num(0, 31680) as i32)),
                },
                if g.coin() { Some(g.num(-31680, 31680) as i32) } else { None },
                if g.chance(1, 3) { Some(g.num(-1000, 1000) as i32) } else { None },
            ),
            3 => PS::Line(LineS::gen(g)),
            4 => PS::KeepNext(!g.chance(1, 4)),
            5 => PS::KeepLines(!g.chance(1, 4)),
            6 => PS::PageBreak(!g.chance(1, 4)),
            7 => PS::Widow(g.coin()),
            8 => PS::Snap(g.coin()),
            9 => PS::Outline(g.n(10)),
            10 => PS::Tab(TabS::gen(g)),
            11 => PS::Borders(PBrds::gen(g)),
            12 => PS::R(rs(g, RTarget::Par, c)),
            13 => PS::Frame(g.n(12), String::new(), 0),
            14 => PS::Shd(Shd::gen(g)),
            15 => PS::TextAlign(g.n(TXALIGNS.len())),
            16 => PS::AdjRight(g.num(-2, 2) as isize),
            17 => PS::Bidi(!g.chance(1, 4)),
            18 => PS::Tabs({
                let n = g.len(0, 3);
                (0..n).map(|_| TabS::gen(g)).collect()
            }),
            19 => PS::HangingChars(g.num(-1000, 1000) as i32),
            20 => PS::FirstLineChars(g.num(-1000, 1000) as i32),
            _ => PS::Num(g.num(1, 50) as usize, g.n(9)),
        };
        let ok = match t {
            PTarget::Par => !matches!(s, PS::Shd(_) | PS::TextAlign(_) | PS::AdjRight(_) | PS::Bidi(_)),
            PTarget::Prop => {
                !matches!(s, PS::Tabs(_) | PS::HangingChars(_) | PS::FirstLineChars(_) | PS::R(_)) || matches!(s, PS::R(RS::Spacing(_)))
            }
            PTarget::Style => matches!(
                s,
                PS::Align(_)
                    | PS::TextAlign(_)
                    | PS::Snap(_)
                    | PS::Line(_)
                    | PS::Indent(..)
                    | PS::HangingChars(_)
                    | PS::FirstLineChars(_)
                    | PS::Outline(_)
                    | PS::Frame(..)
            ),
        };
        if !ok {
            continue;
        }
        if c.read {
            // settings the reader does not represent, or that have no markup at all
            match s {
                PS::KeepNext(false) | PS::KeepLines(false) | PS::PageBreak(false) | PS::Bidi(false) | PS::Widow(false) => continue,
                _ => {}
            }
        }
        return match s {
            PS::Frame(i, ..) => {
                let s = match i {
                    0 => g.pick(&["auto", "notBeside", "around", "tight", "through", "none"]).to_string(),
                    1 | 2 => g.pick(&["text", "margin", "page"]).to_string(),
                    3 => g.pick(&["auto", "atLeast", "exact"]).to_string(),
                    4 => g.pick(&["left", "center", "right", "inside", "outside"]).to_string(),
                    5 => g.pick(&["inline", "top", "center", "bottom", "inside", "outside"]).to_string(),
                    _ => String::new(),
                };
                let n = match i {
                    6 | 7 | 10 | 11 => g.num(0, 31680) as i32,
                    8 | 9 => g.num(-31680, 31680) as i32,
                    _ => 0,
                };
                PS::Frame(i, s, n)
            }
            s => s,
        };
    }
}

const FRAME_ATTR: [&str; 12] =
    ["w:wrap", "w:vAnchor", "w:hAnchor", "w:hRule", "w:xAlign", "w:yAlign", "w:hSpace", "w:vSpace", "w:x", "w:y", "w:w", "w:h"];
const FRAME_JSON: [&str; 12] = ["wrap", "vAnchor", "hAnchor", "hRule", "xAlign", "yAlign", "hSpace", "vSpace", "x", "y", "w", "h"];

pub fn special(s: &Option<Special>) -> Option<SpecialIndentType> {
    s.as_ref().map(|s| match s {
        Special::First(v) => SpecialIndentType::FirstLine(*v),
        Special::Hanging(v) => SpecialIndentType::Hanging(*v),
    })
}

macro_rules! frame {
    ($p:expr, $i:expr, $s:expr, $n:expr) => {
        match $i {
            0 => $p.wrap($s),
            1 => $p.v_anchor($s),
            2 => $p.h_anchor($s),
            3 => $p.h_rule($s),
            4 => $p.x_align($s),
            5 => $p.y_align($s),
            6 => $p.h_space($n),
            7 => $p.v_space($n),
            8 => $p.frame_x($n),
            9 => $p.frame_y($n),
            10 => $p.frame_width($n as u32),
            _ => $p.frame_height($n as u32),
        }
    };
}

pub fn ps_par(p: Paragraph, s: &PS) -> Paragraph {
    match s {
        PS::Align(i) => p.align(ALIGNS[*i].0),
        PS::Style(v) => p.style(v),
        PS::Snap(b) => p.snap_to_grid(*b),
        PS::KeepNext(b) => p.keep_next(*b),
        PS::KeepLines(b) => p.keep_lines(*b),
        PS::Outline(n) => p.outline_lvl(*n),
        PS::PageBreak(b) => p.page_break_before(*b),
        PS::Widow(b) => p.widow_control(*b),
        PS::Tab(t) => p.add_tab(t.lib()),
        PS::Tabs(t) => p.tabs(&t.iter().map(|t| t.lib()).collect::<Vec<_>>()),
        PS::Indent(a, sp, b, c) => p.indent(*a, special(sp), *b, *c),
        PS::HangingChars(v) => p.hanging_chars(*v),
        PS::FirstLineChars(v) => p.first_line_chars(*v),
        PS::Num(a, b) => p.numbering(NumberingId::new(*a), IndentLevel::new(*b)),
        PS::Line(l) => p.line_spacing(l.lib()),
        PS::Borders(b) => p.set_borders(b.lib()),
        PS::Frame(i, s, n) => frame!(p, *i, s, *n),
        PS::R(r) => rs_par(p, r),
        _ => unreachable!(),
    }
}
pub fn ps_prop(p: ParagraphProperty, s: &PS) -> ParagraphProperty {
    match s {
        PS::Align(i) => p.align(ALIGNS[*i].0),
        PS::Style(v) => p.style(v),
        PS::Snap(b) => p.snap_to_grid(*b),
        PS::KeepNext(b) => p.keep_next(*b),
        PS::KeepLines(b) => p.keep_lines(*b),
        PS::Outline(n) => p.outline_lvl(*n),
        PS::PageBreak(b) => p.page_break_before(*b),
        PS::Widow(b) => p.widow_control(*b),
        PS::Bidi(b) => p.bidi(*b),
        PS::Tab(t) => p.add_tab(t.lib()),
        PS::Indent(a, sp, b, c) => p.indent(*a, special(sp), *b, *c),
        PS::Num(a, b) => p.numbering(NumberingId::new(*a), IndentLevel::new(*b)),
        PS::Line(l) => p.line_spacing(l.lib()),
        PS::Borders(b) => p.set_borders(b.lib()),
        PS::Shd(s) => p.shading(s.lib()),
        PS::TextAlign(i) => p.text_alignment(TXALIGNS[*i].0),
        PS::AdjRight(v) => p.adjust_right_ind(*v),
        PS::Frame(i, s, n) => {
            let f = p.frame_property.clone().unwrap_or_default();
            let n = *n;
            let f = match i {
                0 => f.wrap(s),
                1 => f.v_anchor(s),
                2 => f.h_anchor(s),
                3 => f.h_rule(s),
                4 => f.x_align(s),
                5 => f.y_align(s),
                6 => f.h_space(n),
                7 => f.v_space(n),
                8 => f.x(n),
                9 => f.y(n),
                10 => f.width(n as u32),
                _ => f.height(n as u32),
            };
            p.frame_property(f)
        }
        PS::R(RS::Spacing(v)) => p.character_spacing(*v),
        _ => unreachable!(),
    }
}
pub fn ps_style(p: Style, s: &PS) -> Style {
    match s {
        PS::Align(i) => p.align(ALIGNS[*i].0),
        PS::Snap(b) => p.snap_to_grid(*b),
        PS::Outline(n) => p.outline_lvl(*n),
        PS::Indent(a, sp, b, c) => p.indent(*a, special(sp), *b, *c),
        PS::HangingChars(v) => p.hanging_chars(*v),
        PS::FirstLineChars(v) => p.first_line_chars(*v),
        PS::Line(l) => p.line_spacing(l.lib()),
        PS::TextAlign(i) => p.text_alignment(TXALIGNS[*i].0),
        PS::Frame(i, s, n) => frame!(p, *i, s, *n),
        _ => unreachable!(),
    }
}

#[derive(Clone, Debug, Default)]
pub struct Ind {
    pub start: Option<i32>,
    pub special: Option<Special>,
    pub end: Option<i32>,
    pub start_chars: Option<i32>,
    pub hanging_chars: Option<i32>,
    pub first_chars: Option<i32>,
}

#[derive(Clone, Debug, Default)]
pub struct PState {
    pub r: RState,
    pub align: Option<usize>,
    pub style: Option<String>,
    pub snap: Option<bool>,
    pub keep_next: Option<bool>,
    pub keep_lines: Option<bool>,
    pub outline: Option<usize>,
    pub page_break: Option<bool>,
    pub widow: Option<bool>,
    pub bidi: Option<bool>,
    pub tabs: Vec<TabS>,
    pub ind: Option<Ind>,
    pub num: Option<(usize, usize)>,
    pub line: Option<LineS>,
    pub borders: Option<PBrds>,
    pub shd: Option<Shd>,
    pub text_align: Option<usize>,
    pub adj: Option<isize>,
    pub frame: Option<[Option<String>; 12]>,
    /// (author, date, former properties)
    pub change: Option<(String, String, Box<PState>)>,
}

impl PState {
    pub fn apply(&mut self, s: &PS) {
        match s {
            PS::Align(i) => self.align = Some(*i),
            PS::Style(v) => self.style = Some(v.clone()),
            PS::Snap(b) => self.snap = Some(*b),
            PS::KeepNext(b) => self.keep_next = Some(*b),
            PS::KeepLines(b) => self.keep_lines = Some(*b),
            PS::Outline(v) => self.outline = Some(*v),
            PS::PageBreak(b) => self.page_break = Some(*b),
            PS::Widow(b) => self.widow = Some(*b),
            PS::Bidi(b) => self.bidi = Some(*b),
            PS::Tab(t) => self.tabs.push(t.clone()),
            PS::Tabs(t) => self.tabs.extend(t.iter().cloned()),
            PS::Indent(a, sp, b, c) => {
                self.ind = Some(Ind { start: *a, special: sp.clone(), end: *b, start_chars: *c, hanging_chars: None, first_chars: None })
            }
            // character indents refine an indent that has been set
            PS::HangingChars(v) => {
                if let Some(i) = &mut self.ind {
                    i.hanging_chars = Some(*v)
                }
            }
            PS::FirstLineChars(v) => {
                if let Some(i) = &mut self.ind {
                    i.first_chars = Some(*v)
                }
            }
            PS::Num(a, b) => self.num = Some((*a, *b)),
            PS::Line(l) => self.line = Some(l.clone()),
            PS::Borders(b) => self.borders = Some(b.clone()),
            PS::Shd(s) => self.shd = Some(s.clone()),
            PS::TextAlign(i) => self.text_align = Some(*i),
            PS::AdjRight(v) => self.adj = Some(*v),
            PS::Frame(i, s, n) => {
                let f = self.frame.get_or_insert_with(Default::default);
                f[*i] = Some(if *i < 6 { s.clone() } else { n.to_string() });
            }
            PS::R(r) => self.r.apply(r),
        }
    }
    pub fn x(&self) -> El {
        let mut e = el("w:pPr");
        let val = |n: &str, t: &dyn ToString| el(n).a("w:val", t.to_string());
        if let Some(s) = &self.style {
            e = e.k(val("w:pStyle", s));
        }
        // an absent keepNext/keepLines/pageBreakBefore/bidi means "off"
        if self.keep_next == Some(true) {
            e = e.k(el("w:keepNext"));
        }
        if self.keep_lines == Some(true) {
            e = e.k(el("w:keepLines"));
        }
        if self.page_break == Some(true) {
            e = e.k(el("w:pageBreakBefore"));
        }
        if let Some(f) = &self.frame {
            let mut fe = el("w:framePr");
            for i in 0..12 {
                fe = fe.ao(FRAME_ATTR[i], f[i].as_ref());
            }
            e = e.k(fe);
        }
        if let Some(b) = self.widow {
            e = e.k(tog("w:widowControl", b));
        }
        if let Some((a, b)) = self.num {
            e = e.k(el("w:numPr").k(val("w:ilvl", &b)).k(val("w:numId", &a)));
        }
        if let Some(b) = &self.borders {
            e = e.k(b.x());
        }
        if let Some(s) = &self.shd {
            e = e.k(s.x());
        }
        if !self.tabs.is_empty() {
            e = e.k(el("w:tabs").ks(self.tabs.iter().map(|t| t.x()).collect()));
        }
        if self.bidi == Some(true) {
            e = e.k(el("w:bidi"));
        }
        if let Some(v) = self.adj {
            e = e.k(val("w:adjustRightInd", &v));
        }
        if let Some(b) = self.snap {
            e = e.k(tog("w:snapToGrid", b));
        }
        if let Some(l) = &self.line {
            e = e.k(l.x());
        }
        if let Some(i) = &self.ind {
            let mut x = el("w:ind").ao("w:left", i.start).ao("w:right", i.end).ao("w:leftChars", i.start_chars);
            match &i.special {
                Some(Special::First(v)) => x = x.a("w:firstLine", v),
                Some(Special::Hanging(v)) => x = x.a("w:hanging", v),
                None => {}
            }
            e = e.k(x.ao("w:hangingChars", i.hanging_chars).ao("w:firstLineChars", i.first_chars));
        }
        if let Some(i) = self.align {
            e = e.k(val("w:jc", &ALIGNS[i].1));
        }
        if let Some(i) = self.text_align {
            e = e.k(val("w:textAlignment", &TXALIGNS[i].1));
        }
        if let Some(v) = self.outline {
            e = e.k(val("w:outlineLvl", &v));
        }
        if !self.r.is_empty() {
            e = e.k(self.r.x());
        }
        if let Some((a, d, p)) = &self.change {
            e = e.k(el("w:pPrChange").a("w:id", 0).a("w:author", a).a("w:date", d).k(p.x()));
        }
        e
    }
    pub fn j(&self) -> Value {
        let mut m = Map::new();
        m.insert("runProperty".into(), self.r.j());
        m.insert("tabs".into(), Value::Array(self.tabs.iter().map(|t| t.j()).collect()));
        let mut p = |k: &str, v: Value| {
            m.insert(k.into(), v);
        };
        if let Some(i) = self.align {
            p("alignment", json!(ALIGNS[i].1));
        }
        if let Some(s) = &self.style {
            p("style", json!(s));
        }
        if let Some(b) = self.snap {
            p("snapToGrid", json!(b));
        }
        if let Some(b) = self.keep_next {
            p("keepNext", json!(b));
        }
        if let Some(b) = self.keep_lines {
            p("keepLines", json!(b));
        }
        if let Some(b) = self.page_break {
            p("pageBreakBefore", json!(b));
        }
        if let Some(b) = self.widow {
            p("widowControl", json!(b));
        }
        if let Some(b) = self.bidi {
            p("bidi", json!(b));
        }
        if let Some(v) = self.outline {
            p("outlineLvl", json!(v));
        }
        if let Some((a, b)) = self.num {
            p("numberingProperty", json!({"id": a, "level": b}));
        }
        if let Some(l) = &self.line {
            p("lineSpacing", l.j());
        }
        if let Some(b) = &self.borders {
            p("borders", b.j());
        }
        if let Some(s) = &self.shd {
            p("shading", s.j());
        }
        if let Some(i) = self.text_align {
            p("textAlignment", json!(TXALIGNS[i].1));
        }
        if let Some(v) = self.adj {
            p("adjustRightInd", json!(v));
        }
        if let Some(i) = &self.ind {
            let sp = match &i.special {
                Some(Special::First(v)) => json!({"type": "firstLine", "val": v}),
                Some(Special::Hanging(v)) => json!({"type": "hanging", "val": v}),
                None => Value::Null,
            };
            p(
                "indent",
                json!({"start": i.start, "end": i.end, "startChars": i.start_chars, "specialIndent": sp,
                    "hangingChars": i.hanging_chars, "firstLineChars": i.first_chars}),
            );
        }
        if let Some(f) = &self.frame {
            let mut fm = Map::new();
            for i in 0..12 {
                if let Some(v) = &f[i] {
                    fm.insert(FRAME_JSON[i].into(), if i < 6 { json!(v) } else { json!(v.parse::<i64>().unwrap()) });
                }
            }
            p("frameProperty", Value::Object(fm));
        }
        if let Some((a, d, pp)) = &self.change {
            p("paragraphPropertyChange", json!({"author": a, "date": d, "property": pp.j()}));
        }
        Value::Object(m)
    }
}

pub fn ps_history(g: &mut G, t: PTarget, c: FmtCfg, max: usize, numbering: bool) -> (Vec<PS>, PState) {
    let n = g.len(0, max);
    let mut st = PState::default();
    let mut v = vec![];
    for _ in 0..n {
        let s = ps(g, t, c);
        if !numbering && matches!(s, PS::Num(..)) {
            continue;
        }
        st.apply(&s);
        v.push(s);
    }
    (v, st)
}

/// Table formatting ------------------------------------------------------------
pub const TPOS: [&str; 6] = ["top", "left", "bottom", "right", "insideH", "insideV"];
pub const CPOS: [&str; 8] = ["top", "left", "bottom", "right", "insideH", "insideV", "tl2br", "tr2bl"];
fn tpos(i: usize) -> TableBorderPosition {
    match i {
        0 => TableBorderPosition::Top,
        1 => TableBorderPosition::Left,
        2 => TableBorderPosition::Bottom,
        3 => TableBorderPosition::Right,
        4 => TableBorderPosition::InsideH,
        _ => TableBorderPosition::InsideV,
    }
}
fn cpos(i: usize) -> TableCellBorderPosition {
    match i {
        0 => TableCellBorderPosition::Top,
        1 => TableCellBorderPosition::Left,
        2 => TableCellBorderPosition::Bottom,
        3 => TableCellBorderPosition::Right,
        4 => TableCellBorderPosition::InsideH,
        5 => TableCellBorderPosition::InsideV,
        6 => TableCellBorderPosition::Tl2br,
        _ => TableCellBorderPosition::Tr2bl,
    }
}
fn pbrd(i: usize, b: &Brd) -> ParagraphBorder {
    let mut r = ParagraphBorder::new(ppos(i));
    if b.ty != 0 || b.space % 2 == 1 {
        r = r.val(BORDERS[b.ty].0);
    }
    if b.size != 2 || b.space % 2 == 1 {
        r = r.size(b.size);
    }
    if b.space != 0 {
        r = r.space(b.space);
    }
    if b.color != "auto" || b.space % 2 == 1 {
        r = r.color(&b.color);
    }
    r
}
fn tbrd(i: usize, b: &Brd) -> TableBorder {
    let mut r = TableBorder::new(tpos(i));
    if b.ty != 0 || i % 2 == 1 {
        r = r.border_type(BORDERS[b.ty].0);
    }
    if b.size != 2 {
        r = r.size(b.size);
    }
    if b.color != "000000" || i % 2 == 1 {
        r = r.color(&b.color);
    }
    r
}
fn cbrd(i: usize, b: &Brd) -> TableCellBorder {
    let mut r = TableCellBorder::new(cpos(i));
    if b.ty != 0 || i % 2 == 1 {
        r = r.border_type(BORDERS[b.ty].0);
    }
    if b.size != 2 {
        r = r.size(b.size);
    }
    if b.color != "000000" || i % 2 == 1 {
        r = r.color(&b.color);
    }
    r
}
fn dflt_brd() -> Brd {
    Brd { ty: 0, size: 2, space: 0, color: "000000".into() }
}
fn nil_brd() -> Brd {
    Brd { ty: 1, size: 2, space: 0, color: "000000".into() }
}
fn brd0(g: &mut G) -> Brd {
    Brd { space: 0, ..brd(g) }
}

#[derive(Clone, Debug)]
pub enum TS {
    Indent(i32),
    Align(usize),
    Style(String),
    Layout(usize),
    Pos([Option<String>; 8]),
    Width(usize, usize),
    /// top right bottom left
    Margins([(usize, usize); 4], bool),
    Borders(Vec<(usize, Brd)>, bool),
    Border(usize, Brd),
    ClearBorder(usize),
    ClearAll,
    /// TableProperty only: one side of the default cell margins
    Margin1(usize, usize, usize),
}

#[derive(Clone, Debug)]
pub struct TState {
    pub indent: Option<i32>,
    pub align: usize,
    pub style: Option<String>,
    pub layout: Option<usize>,
    pub pos: Option<[Option<String>; 8]>,
    pub width: (usize, usize),
    pub margins: Option<[(usize, usize); 4]>,
    pub b: [Option<Brd>; 6],
}

const POS_ATTR: [&str; 8] =
    ["w:leftFromText", "w:rightFromText", "w:vertAnchor", "w:horzAnchor", "w:tblpXSpec", "w:tblpYSpec", "w:tblpX", "w:tblpY"];
const POS_JSON: [&str; 8] = [
    "leftFromText",
    "rightFromText",
    "verticalAnchor",
    "horizontalAnchor",
    "positionXAlignment",
    "positionYAlignment",
    "positionX",
    "positionY",
];

fn lib_pos(p: &[Option<String>; 8]) -> TablePositionProperty {
    let mut t = TablePositionProperty::new();
    for i in 0..8 {
        if let Some(v) = &p[i] {
            let n = || v.parse::<i32>().unwrap();
            t = match i {
                0 => t.left_from_text(n()),
                1 => t.right_from_text(n()),
                2 => t.vertical_anchor(v),
                3 => t.horizontal_anchor(v),
                4 => t.position_x_alignment(v),
                5 => t.position_y_alignment(v),
                6 => t.position_x(n()),
                _ => t.position_y(n()),
            };
        }
    }
    t
}

pub fn ts(g: &mut G, c: FmtCfg) -> TS {
    match g.n(11) {
        0 => TS::Width(g.num(0, 20000) as usize, g.n(WIDTHS.len())),
        1 => TS::Align(g.n(TALIGNS.len())),
        2 => {
            let v = g.num(-31680, 31680) as i32;
            // an indent of zero is not kept by the reader
            TS::Indent(if c.read && v == 0 { 1 } else { v })
        }
        3 => TS::Style(name_str(g, c.wild)),
        4 => TS::Layout(g.n(LAYOUTS.len())),
        5 => {
            let mut p: [Option<String>; 8] = Default::default();
            for (i, s) in p.iter_mut().enumerate() {
                if g.coin() {
                    *s = Some(match i {
                        2 | 3 => g.pick(&["text", "margin", "page"]).to_string(),
                        4 => g.pick(&["left", "center", "right", "inside", "outside"]).to_string(),
                        5 => g.pick(&["inline", "top", "center", "bottom"]).to_string(),
                        6 | 7 => g.num(-31680, 31680).to_string(),
                        _ => g.num(0, 31680).to_string(),
                    });
                }
            }
            TS::Pos(p)
        }
        6 => {
            let dxa = g.coin();
            let mut m = [(0, 0); 4];
            for x in m.iter_mut() {
                *x = (g.num(0, 31680) as usize, if dxa { 0 } else { g.n(WIDTHS.len()) });
            }
            TS::Margins(m, dxa)
        }
        7 => {
            let n = g.len(0, 6);
            TS::Borders((0..n).map(|_| (g.n(6), brd0(g))).collect(), g.coin())
        }
        8 => TS::Border(g.n(6), brd0(g)),
        9 => TS::ClearBorder(g.n(6)),
        _ => TS::ClearAll,
    }
}

impl TState {
    pub fn new(borders: bool) -> TState {
        TState {
            indent: None,
            align: 0,
            style: None,
            layout: None,
            pos: None,
            width: (0, 1),
            margins: None,
            b: if borders { std::array::from_fn(|_| Some(dflt_brd())) } else { Default::default() },
        }
    }
    pub fn apply(&mut self, s: &TS) {
        match s {
            TS::Indent(v) => self.indent = Some(*v),
            TS::Align(i) => self.align = *i,
            TS::Style(v) => self.style = Some(v.clone()),
            TS::Layout(i) => self.layout = Some(*i),
            TS::Pos(p) => self.pos = Some(p.clone()),
            TS::Width(a, b) => self.width = (*a, *b),
            TS::Margins(m, _) => self.margins = Some(*m),
            TS::Borders(v, dflt) => {
                self.b = if *dflt { std::array::from_fn(|_| Some(dflt_brd())) } else { Default::default() };
                for (i, b) in v {
                    self.b[*i] = Some(b.clone());
                }
            }
            TS::Border(i, b) => self.b[*i] = Some(b.clone()),
            TS::ClearBorder(i) => self.b[*i] = Some(nil_brd()),
            TS::ClearAll => self.b = std::array::from_fn(|_| Some(nil_brd())),
            TS::Margin1(i, v, t) => {
                // the sides not set explicitly keep the library's defaults
                let mut m = self.margins.unwrap_or([(0, 0), (55, 0), (0, 0), (55, 0)]);
                m[*i] = (*v, *t);
                self.margins = Some(m);
            }
        }
    }
    pub fn x(&self) -> El {
        let mut e = el("w:tblPr");
        e = e.k(el("w:tblW").a("w:w", self.width.0).a("w:type", WIDTHS[self.width.1].1));
        e = e.k(el("w:jc").a("w:val", TALIGNS[self.align].1));
        let mut bs = el("w:tblBorders");
        for i in 0..6 {
            if let Some(b) = &self.b[i] {
                bs = bs.k(b.x(&format!("w:{}", TPOS[i])));
            }
        }
        e = e.k(bs);
        if let Some(m) = &self.margins {
            let mut me = el("w:tblCellMar");
            for (i, n) in ["w:top", "w:right", "w:bottom", "w:left"].iter().enumerate() {
                me = me.k(el(n).a("w:w", m[i].0).a("w:type", WIDTHS[m[i].1].1));
            }
            e = e.k(me);
        }
        if let Some(v) = self.indent {
            e = e.k(el("w:tblInd").a("w:w", v).a("w:type", "dxa"));
        }
        if let Some(v) = &self.style {
            e = e.k(el("w:tblStyle").a("w:val", v));
        }
        if let Some(i) = self.layout {
            e = e.k(el("w:tblLayout").a("w:type", LAYOUTS[i].1));
        }
        if let Some(p) = &self.pos {
            let mut pe = el("w:tblpPr");
            for i in 0..8 {
                pe = pe.ao(POS_ATTR[i], p[i].as_ref());
            }
            e = e.k(pe);
        }
        e
    }
    pub fn j(&self) -> Value {
        let mut m = Map::new();
        m.insert("width".into(), json!({"width": self.width.0, "widthType": WIDTHS[self.width.1].1}));
        m.insert("justification".into(), json!(TALIGNS[self.align].1));
        let mut bm = Map::new();
        for i in 0..6 {
            if let Some(b) = &self.b[i] {
                bm.insert(TPOS[i].into(), jbrd(TPOS[i], b));
            }
        }
        m.insert("borders".into(), Value::Object(bm));
        if let Some(v) = &self.margins {
            let s = |i: usize| json!({"val": v[i].0, "widthType": WIDTHS[v[i].1].1});
            m.insert("margins".into(), json!({"top": s(0), "right": s(1), "bottom": s(2), "left": s(3)}));
        }
        if let Some(v) = self.indent {
            m.insert("indent".into(), json!({"width": v, "widthType": "dxa"}));
        }
        if let Some(v) = &self.style {
            m.insert("style".into(), json!(v));
        }
        if let Some(i) = self.layout {
            m.insert("layout".into(), json!(LAYOUTS[i].1));
        }
        if let Some(p) = &self.pos {
            let mut pm = Map::new();
            for i in 0..8 {
                if let Some(v) = &p[i] {
                    pm.insert(POS_JSON[i].into(), if (2..=5).contains(&i) { json!(v) } else { json!(v.parse::<i64>().unwrap()) });
                }
            }
            m.insert("position".into(), Value::Object(pm));
        }
        Value::Object(m)
    }
}
fn jbrd(pos: &str, b: &Brd) -> Value {
    json!({"position": pos, "borderType": b.tok(), "size": b.size, "space": b.space, "color": b.color})
}

fn lib_margins(m: &[(usize, usize); 4], dxa: bool) -> TableCellMargins {
    let r = TableCellMargins::new();
    if dxa {
        r.margin(m[0].0, m[1].0, m[2].0, m[3].0)
    } else {
        r.margin_top(m[0].0, WIDTHS[m[0].1].0)
            .margin_right(m[1].0, WIDTHS[m[1].1].0)
            .margin_bottom(m[2].0, WIDTHS[m[2].1].0)
            .margin_left(m[3].0, WIDTHS[m[3].1].0)
    }
}
fn lib_tborders(v: &[(usize, Brd)], dflt: bool) -> TableBorders {
    let mut r = if dflt { TableBorders::new() } else { TableBorders::with_empty() };
    for (i, b) in v {
        r = r.set(tbrd(*i, b));
    }
    r
}
macro_rules! ts_apply {
    ($t:expr, $s:expr, $margins:ident) => {
        match $s {
            TS::Indent(v) => $t.indent(*v),
            TS::Align(i) => $t.align(TALIGNS[*i].0),
            TS::Style(v) => $t.style(v),
            TS::Layout(i) => $t.layout(LAYOUTS[*i].0),
            TS::Pos(p) => $t.position(lib_pos(p)),
            TS::Width(a, b) => $t.width(*a, WIDTHS[*b].0),
            TS::Margins(m, dxa) => $t.$margins(lib_margins(m, *dxa)),
            TS::Borders(v, d) => $t.set_borders(lib_tborders(v, *d)),
            TS::Border(i, b) => $t.set_border(tbrd(*i, b)),
            TS::ClearBorder(i) => $t.clear_border(tpos(*i)),
            TS::ClearAll => $t.clear_all_border(),
            TS::Margin1(..) => unreachable!(),
        }
    };
}
pub fn ts_table(t: Table, s: &TS) -> Table {
    ts_apply!(t, s, margins)
}
pub fn ts_prop(t: TableProperty, s: &TS) -> TableProperty {
    if let TS::Margin1(i, v, w) = s {
        let w = WIDTHS[*w].0;
        return match i {
            0 => t.cell_margin_top(*v, w),
            1 => t.cell_margin_right(*v, w),
            2 => t.cell_margin_bottom(*v, w),
            _ => t.cell_margin_left(*v, w),
        };
    }
    ts_apply!(t, s, set_margins)
}
/// Style has no `position`
pub fn ts_style(t: Style, s: &TS) -> Style {
    match s {
        TS::Indent(v) => t.table_indent(*v),
        TS::Align(i) => t.table_align(TALIGNS[*i].0),
        TS::Style(v) => t.style(v),
        TS::Layout(i) => t.layout(LAYOUTS[*i].0),
        TS::Width(a, b) => t.width(*a, WIDTHS[*b].0),
        TS::Margins(m, dxa) => t.margins(lib_margins(m, *dxa)),
        TS::Borders(v, d) => t.set_borders(lib_tborders(v, *d)),
        TS::Border(i, b) => t.set_border(tbrd(*i, b)),
        TS::ClearBorder(i) => t.clear_border(tpos(*i)),
        TS::ClearAll => t.clear_all_border(),
        _ => unreachable!(),
    }
}

/// Cell formatting
#[derive(Clone, Debug)]
pub enum CS {
    VMerge(usize),
    Shd(Shd),
    VAlign(usize),
    TextDir(usize),
    Span(usize),
    Width(usize, usize),
    Border(usize, Brd),
    Borders(Vec<(usize, Brd)>, bool),
    ClearBorder(usize),
    ClearAll,
    /// via the property: side (top right bottom left), value, type
    Margin(usize, usize, usize),
}
#[derive(Clone, Debug, Default)]
pub struct CState {
    pub vmerge: Option<usize>,
    pub shd: Option<Shd>,
    pub valign: Option<usize>,
    pub textdir: Option<usize>,
    pub span: Option<usize>,
    pub width: Option<(usize, usize)>,
    pub b: Option<[Option<Brd>; 8]>,
    pub m: Option<[Option<(usize, usize)>; 4]>,
}
pub fn cs(g: &mut G) -> CS {
    match g.n(11) {
        0 => CS::Width(g.num(0, 20000) as usize, g.n(WIDTHS.len())),
        1 => CS::Span(g.num(1, 63) as usize),
        2 => CS::VMerge(g.n(2)),
        3 => CS::VAlign(g.n(VALIGNS.len())),
        4 => CS::Shd(Shd::gen(g)),
        5 => CS::TextDir(g.n(TEXTDIRS.len())),
        6 => CS::Border(g.n(8), brd0(g)),
        7 => {
            let n = g.len(0, 8);
            CS::Borders((0..n).map(|_| (g.n(8), brd0(g))).collect(), g.coin())
        }
        8 => CS::ClearBorder(g.n(8)),
        9 => CS::Margin(g.n(4), g.num(0, 31680) as usize, g.n(WIDTHS.len())),
        _ => CS::ClearAll,
    }
}
fn dflt_cell_borders() -> [Option<Brd>; 8] {
    std::array::from_fn(|i| if i < 6 { Some(dflt_brd()) } else { None })
}
fn lib_cborders(v: &[(usize, Brd)], dflt: bool) -> TableCellBorders {
    let mut r = if dflt { TableCellBorders::new() } else { TableCellBorders::with_empty() };
    for (i, b) in v {
        r = r.set(cbrd(*i, b));
    }
    r
}
impl CState {
    pub fn apply(&mut self, s: &CS) {
        match s {
            CS::VMerge(i) => self.vmerge = Some(*i),
            CS::Shd(s) => self.shd = Some(s.clone()),
            CS::VAlign(i) => self.valign = Some(*i),
            CS::TextDir(i) => self.textdir = Some(*i),
            CS::Span(i) => self.span = Some(*i),
            CS::Width(a, b) => self.width = Some((*a, *b)),
            CS::Border(i, b) => self.b.get_or_insert_with(dflt_cell_borders)[*i] = Some(b.clone()),
            CS::Borders(v, d) => {
                let mut bs = if *d { dflt_cell_borders() } else { Default::default() };
                for (i, b) in v {
                    bs[*i] = Some(b.clone());
                }
                self.b = Some(bs);
            }
            CS::ClearBorder(i) => self.b.get_or_insert_with(dflt_cell_borders)[*i] = Some(nil_brd()),
            CS::ClearAll => self.b = Some(std::array::from_fn(|_| Some(nil_brd()))),
            CS::Margin(i, v, t) => self.m.get_or_insert_with(Default::default)[*i] = Some((*v, *t)),
        }
    }
    pub fn x(&self) -> El {
        let mut e = el("w:tcPr");
        if let Some((a, b)) = self.width {
            e = e.k(el("w:tcW").a("w:w", a).a("w:type", WIDTHS[b].1));
        }
        if let Some(v) = self.span {
            e = e.k(el("w:gridSpan").a("w:val", v));
        }
        if let Some(i) = self.vmerge {
            e = e.k(el("w:vMerge").a("w:val", VMERGES[i].1));
        }
        if let Some(bs) = &self.b {
            let mut be = el("w:tcBorders");
            for i in 0..8 {
                if let Some(b) = &bs[i] {
                    be = be.k(b.x(&format!("w:{}", CPOS[i])));
                }
            }
            e = e.k(be);
        }
        if let Some(s) = &self.shd {
            e = e.k(s.x());
        }
        if let Some(ms) = &self.m {
            let mut me = el("w:tcMar");
            for (i, n) in ["w:top", "w:right", "w:bottom", "w:left"].iter().enumerate() {
                if let Some((v, t)) = ms[i] {
                    me = me.k(el(n).a("w:w", v).a("w:type", WIDTHS[t].1));
                }
            }
            e = e.k(me);
        }
        if let Some(i) = self.textdir {
            e = e.k(el("w:textDirection").a("w:val", TEXTDIRS[i].1));
        }
        if let Some(i) = self.valign {
            e = e.k(el("w:vAlign").a("w:val", VALIGNS[i].1));
        }
        e
    }
    pub fn j(&self) -> Value {
        let mut m = Map::new();
        if let Some((a, b)) = self.width {
            m.insert("width".into(), json!({"width": a, "widthType": WIDTHS[b].1}));
        }
        if let Some(v) = self.span {
            m.insert("gridSpan".into(), json!(v));
        }
        if let Some(i) = self.vmerge {
            m.insert("verticalMerge".into(), json!(VMERGES[i].1));
        }
        if let Some(i) = self.valign {
            m.insert("verticalAlign".into(), json!(VALIGNS[i].1));
        }
        if let Some(i) = self.textdir {
            m.insert("textDirection".into(), json!(TEXTDIRS[i].1));
        }
        if let Some(s) = &self.shd {
            m.insert("shading".into(), s.j());
        }
        if let Some(bs) = &self.b {
            let mut bm = Map::new();
            for i in 0..8 {
                if let Some(b) = &bs[i] {
                    bm.insert(CPOS[i].into(), jbrd(CPOS[i], b));
                }
            }
            m.insert("borders".into(), Value::Object(bm));
        }
        if let Some(ms) = &self.m {
            let mut mm = Map::new();
            for (i, n) in ["top", "right", "bottom", "left"].iter().enumerate() {
                if let Some((v, t)) = ms[i] {
                    mm.insert((*n).into(), json!({"val": v, "widthType": WIDTHS[t].1}));
                }
            }
            m.insert("margins".into(), Value::Object(mm));
        }
        Value::Object(m)
    }
}
macro_rules! cs_apply {
    ($c:expr, $s:expr, $margin:expr) => {
        match $s {
            CS::VMerge(i) => $c.vertical_merge(VMERGES[*i].0),
            CS::Shd(s) => $c.shading(s.lib()),
            CS::VAlign(i) => $c.vertical_align(VALIGNS[*i].0),
            CS::TextDir(i) => $c.text_direction(TEXTDIRS[*i].0),
            CS::Span(v) => $c.grid_span(*v),
            CS::Width(a, b) => $c.width(*a, WIDTHS[*b].0),
            CS::Border(i, b) => $c.set_border(cbrd(*i, b)),
            CS::Borders(v, d) => $c.set_borders(lib_cborders(v, *d)),
            CS::ClearBorder(i) => $c.clear_border(cpos(*i)),
            CS::ClearAll => $c.clear_all_border(),
            CS::Margin(i, v, t) => $margin($c, *i, *v, WIDTHS[*t].0),
        }
    };
}
pub fn cs_cell(c: TableCell, s: &CS) -> TableCell {
    cs_apply!(c, s, |mut c: TableCell, i, v, t| {
        c.property = margin1(std::mem::take(&mut c.property), i, v, t);
        c
    })
}
pub fn cs_prop(c: TableCellProperty, s: &CS) -> TableCellProperty {
    cs_apply!(c, s, margin1)
}
fn margin1(p: TableCellProperty, i: usize, v: usize, t: WidthType) -> TableCellProperty {
    match i {
        0 => p.margin_top(v, t),
        1 => p.margin_right(v, t),
        2 => p.margin_bottom(v, t),
        _ => p.margin_left(v, t),
    }
}
