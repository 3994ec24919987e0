//! Choice-sequence generation: every generated value is a pure function of a
//! finite sequence of bounded integers. Random runs record the sequence, replay
//! and shrinking feed a (modified) sequence back through the same generator.

#[derive(Clone)]
struct SplitMix(u64);
impl SplitMix {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = SplitMix(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    s.next();
    s.next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    mix(h, b.len() as u64)
}

pub struct G {
    rng: Option<SplitMix>,
    data: Vec<u64>,
    pos: usize,
    pub out: Vec<u64>,
    /// remaining node budget of the structured generators
    pub budget: i64,
    /// what stands before and after every text
    pub wrap: Option<(String, String)>,
}

impl G {
    pub fn random(seed: u64) -> G {
        G { rng: Some(SplitMix(seed)), data: vec![], pos: 0, out: vec![], budget: 60, wrap: None }
    }
    pub fn replay(data: Vec<u64>) -> G {
        G { rng: None, data, pos: 0, out: vec![], budget: 60, wrap: None }
    }
    /// A value in `0..bound`; 0 is the simplest choice by convention.
    pub fn below(&mut self, bound: u64) -> u64 {
        assert!(bound > 0);
        let v = match &mut self.rng {
            Some(r) => {
                if bound == 1 { 0 } else { ((r.next() as u128 * bound as u128) >> 64) as u64 }
            }
            None => {
                let v = self.data.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(bound - 1)
            }
        };
        self.out.push(v);
        v
    }
    pub fn n(&mut self, bound: usize) -> usize {
        self.below(bound as u64) as usize
    }
    /// inclusive range, simplest value is `lo`
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; the simplest choice is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.n(xs.len());
        &xs[i]
    }
    /// integer biased to boundaries within [lo, hi]
    pub fn num(&mut self, lo: i64, hi: i64) -> i64 {
        match self.n(4) {
            0 => self.range(lo.max(-100).min(hi), hi.min(100).max(lo)),
            1 => {
                let c = [lo, hi, 0, 1, -1, lo + 1, hi - 1];
                let v = *self.pick(&c);
                v.clamp(lo, hi)
            }
            2 => self.range(lo.max(-10_000).min(hi), hi.min(10_000).max(lo)),
            _ => self.range(lo, hi),
        }
    }
    pub fn len(&mut self, lo: usize, hi: usize) -> usize {
        // geometric-ish: small sizes most likely
        let mut n = lo;
        while n < hi && self.chance(3, 5) {
            n += 1;
        }
        n
    }
    /// take one unit of the structural budget; false when exhausted
    pub fn spend(&mut self, k: i64) -> bool {
        if self.budget < k {
            return false;
        }
        self.budget -= k;
        true
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n {
            let j = i + self.n(n - i);
            v.swap(i, j);
        }
        v
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.below(256) as u8).collect()
    }
}

/// Text generators -----------------------------------------------------------

const WORDS: [&str; 12] = [
    "a", "Hello", "world", "docx", "x1", "Heading", "日本語", "été", "Ω", "naïve", "foo-bar", "0",
];
const SPECIALS: [&str; 30] = [
    "&", "<", ">", "\"", "'", "&amp;", "&lt;", "&#65;", "]]>", "<!--", "-->", "<w:t>", "</w:t>", "%1", "\\",
    "&quot;", "&apos;", "&nbsp;", "&#xA;", "  ", " ", "&&", "&amp;lt;", "<?", "?>", "{}", "%", "\u{00A0}", "\u{FEFF}x",
    "\u{2028}",
];
const PLANES: [char; 16] = [
    'A', 'z', '9', '.', '\u{7f}', '\u{85}', '\u{a0}', '\u{300}', '\u{5d0}', '\u{202e}', '\u{3042}', '\u{d7ff}', '\u{e000}',
    '\u{fffd}', '\u{1f600}', '\u{10ffff}',
];

impl G {
    /// plain word: ASCII letters/digits only, never empty
    pub fn ident(&mut self) -> String {
        let n = self.len(1, 8);
        let s = (0..n)
            .map(|i| {
                let set: &[u8] = if i == 0 { b"abcxyzABCZ" } else { b"abcxyz019ABCZ_" };
                *self.pick(set) as char
            })
            .collect();
        self.wrapped(s)
    }
    fn wrapped(&self, s: String) -> String {
        match &self.wrap {
            Some((a, b)) => format!("{a}{s}{b}"),
            None => s,
        }
    }
    pub fn word(&mut self) -> String {
        self.pick(&WORDS).to_string()
    }
    /// Text of XML-legal characters without line breaks and tabs, including markup
    /// characters, entity look-alikes, leading/trailing blanks and all planes.
    pub fn text(&mut self) -> String {
        if self.wrap.is_some() {
            return self.plain_text();
        }
        let n = self.len(1, 6);
        let mut s = String::new();
        for _ in 0..n {
            match self.n(4) {
                0 => s.push_str(&self.word()),
                1 => s.push_str(*self.pick(&SPECIALS)),
                2 => s.push(*self.pick(&PLANES)),
                _ => {
                    s.push(' ');
                    s.push_str(&self.word())
                }
            }
        }
        s
    }
    /// Text without XML-special characters or entity look-alikes.
    pub fn plain_text(&mut self) -> String {
        let n = self.len(1, 5);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 && self.coin() {
                s.push(' ');
            }
            s.push_str(&self.word());
        }
        self.wrapped(s)
    }
    /// Any XML-legal text including newlines, tabs and carriage returns.
    pub fn wild_text(&mut self) -> String {
        let mut s = self.text();
        if self.wrap.is_none() && self.chance(1, 4) {
            let c = *self.pick(&['\n', '\t', '\r']);
            let chars: Vec<char> = s.chars().collect();
            let at = self.n(chars.len() + 1);
            s = chars[..at].iter().chain([c].iter()).chain(chars[at..].iter()).collect();
        }
        s
    }
    pub fn color(&mut self) -> String {
        if self.chance(1, 6) {
            return "auto".into();
        }
        let n = self.below(0x100_0000);
        self.wrapped(format!("{n:06X}"))
    }
    pub fn date(&mut self) -> String {
        format!(
            "20{:02}-{:02}-{:02}T{:02}:{:02}:{:02}{}",
            self.range(0, 40),
            self.range(1, 12),
            self.range(1, 28),
            self.range(0, 23),
            self.range(0, 59),
            self.range(0, 59),
            self.pick(&["Z", "Z", "Z", "Z", "+09:00", "-05:30", "", ".125Z"])
        )
    }
}

/// Shrinking -------------------------------------------------------------------

/// Greedily minimise a failing choice sequence. `fails` re-runs the check and
/// says whether the same failure persists. Bounded by `max_runs`.
pub fn shrink(mut best: Vec<u64>, max_runs: usize, mut fails: impl FnMut(&[u64]) -> bool) -> (Vec<u64>, usize) {
    let mut runs = 0;
    let mut try_it = |cand: &[u64], runs: &mut usize| -> bool {
        if *runs >= max_runs {
            return false;
        }
        *runs += 1;
        fails(cand)
    };
    // drop trailing zeros: replay pads with zeros
    while best.last() == Some(&0) {
        best.pop();
    }
    loop {
        let before = best.clone();
        // truncate
        let mut k = best.len() / 2;
        while k > 0 {
            if best.len() > k {
                let cand = best[..best.len() - k].to_vec();
                if try_it(&cand, &mut runs) {
                    best = cand;
                    continue;
                }
            }
            k /= 2;
        }
        // delete blocks
        let mut size = 64usize.min(best.len().max(1));
        while size >= 1 {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(i..i + size);
                    if try_it(&cand, &mut runs) {
                        best = cand;
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size.max(1));
            }
            size /= 2;
        }
        // zero blocks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[i..end] {
                        *x = 0;
                    }
                    if try_it(&cand, &mut runs) {
                        best = cand;
                    }
                }
                i += size;
            }
        }
        // minimise values
        for i in 0..best.len() {
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if try_it(&cand, &mut runs) {
                    best = cand;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
                if runs >= max_runs {
                    break;
                }
            }
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before || runs >= max_runs {
            return (best, runs);
        }
    }
}
