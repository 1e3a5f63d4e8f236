//! Generators of texts, histories, prompts and keys.
use crate::rng::Rng;
use unicode_width::UnicodeWidthChar;

/// Characters of display width one, several bytes long in part.
pub const NARROW: &[char] = &[
    'a', 'b', 'c', 'x', 'y', 'z', 'A', 'B', 'Z', '0', '7', '_', '-', '.', ',', '/', '(', ')', '"',
    '\'', '$', 'é', 'ß', 'ø', 'λ', 'Ж', '√', '½',
];
/// Wide and zero-width ones.
pub const ODD: &[char] = &[
    '漢', '字', '😀', '\u{301}', '\u{308}', 'İ', 'ŉ', '\u{a0}', '\u{3000}',
];

/// Any printable ASCII character but the space and the backslash, or a letter of Latin, Greek,
/// Cyrillic or another alphabet, or a symbol.
fn narrow(r: &mut Rng) -> char {
    let (lo, hi) = *r.pick(&[
        ('!', '~'),
        ('!', '~'),
        ('!', '~'),
        ('\u{c0}', '\u{24f}'),
        ('Α', 'Ρ'),
        ('а', 'я'),
        ('א', 'ת'),
        ('ა', 'ჰ'),
        ('←', '↙'),
        ('ｱ', 'ﾝ'),
    ]);
    let c = char::from_u32(r.range(lo as usize, hi as usize) as u32).unwrap_or('!');
    // `u` is a command of vi's that the line's model leaves out
    if c == '\\' || c == 'u' || c.width() != Some(1) {
        '!'
    } else {
        c
    }
}

fn odd(r: &mut Rng) -> char {
    if r.chance(1, 4) {
        let (lo, hi) = *r.pick(&[
            ('가', '힣'),
            ('Ａ', 'ｚ'),
            ('一', '龥'),
            ('ぁ', 'ん'),
            ('😀', '😏'),
            ('\u{300}', '\u{320}'),
        ]);
        char::from_u32(r.range(lo as usize, hi as usize) as u32).unwrap_or('漢')
    } else {
        *r.pick(ODD)
    }
}

/// Not one column wide everywhere.
pub fn is_odd(c: char) -> bool {
    ODD.contains(&c) || c.width() != Some(1)
}

#[derive(Clone, Copy)]
pub struct Alpha {
    /// Out of 100: spaces, backslashes, newlines, odd-width characters, repeated small alphabet.
    pub space: usize,
    pub backslash: usize,
    pub newline: usize,
    pub odd: usize,
    /// Letters are drawn from the first so many of NARROW most of the time.
    pub small: usize,
}

pub const WORDS: Alpha = Alpha {
    space: 22,
    backslash: 4,
    newline: 3,
    odd: 3,
    small: 6,
};
pub const PLAIN: Alpha = Alpha {
    space: 18,
    backslash: 0,
    newline: 0,
    odd: 0,
    small: 6,
};

impl Alpha {
    pub fn ch(&self, r: &mut Rng) -> char {
        let k = r.below(100);
        let mut t = self.space;
        if k < t {
            return ' ';
        }
        t += self.backslash;
        if k < t {
            return '\\';
        }
        t += self.newline;
        if k < t {
            return '\n';
        }
        t += self.odd;
        if k < t {
            return odd(r);
        }
        if r.chance(3, 4) {
            NARROW[r.below(self.small.min(NARROW.len()))]
        } else if r.chance(1, 6) {
            narrow(r)
        } else {
            *r.pick(NARROW)
        }
    }
    pub fn text(&self, r: &mut Rng, max: usize) -> String {
        let n = r.below(max + 1);
        (0..n).map(|_| self.ch(r)).collect()
    }
    /// Non-empty.
    pub fn text1(&self, r: &mut Rng, max: usize) -> String {
        let n = r.range(1, max.max(1));
        (0..n).map(|_| self.ch(r)).collect()
    }
}

/// A history whose entries share prefixes and substrings.
pub fn history(r: &mut Rng, max: usize, a: &Alpha) -> Vec<String> {
    let most = if r.chance(1, 40) { 8 * max } else { max };
    let n = r.below(most + 1);
    let longest = if r.chance(1, 20) { 90 } else { 40 };
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let e = match r.below(6) {
            0 | 1 if !v.is_empty() => {
                // extends an earlier one
                let b = r.pick(&v).clone();
                format!("{b}{}", a.text1(r, 4))
            }
            2 if !v.is_empty() => {
                // contains an earlier one
                let b = r.pick(&v).clone();
                format!("{}{b}{}", a.text1(r, 3), a.text(r, 3))
            }
            3 if !v.is_empty() => r.pick(&v).clone(),
            _ => a.text(r, 10),
        };
        let e: String = e.chars().take(longest).collect();
        v.push(e);
    }
    v
}

/// A line much longer than usual.
pub fn long(r: &mut Rng, a: &Alpha) -> String {
    let n = *r.pick(&[130, 270, 520, 1100, 3000]);
    let n = r.range(n / 2, n);
    match r.below(3) {
        0 => (0..n).map(|_| a.ch(r)).collect(),
        1 => {
            let w = a.text1(r, 9);
            w.chars().cycle().take(n).collect()
        }
        _ => {
            // few words
            let mut t = String::new();
            while t.chars().count() < n {
                let c = NARROW[r.below(a.small.min(NARROW.len()))];
                t.extend(std::iter::repeat(c).take(r.range(1, n)));
                t.push(' ');
            }
            t
        }
    }
}

/// Makes the history much bigger than usual, with other entries in between or after.
pub fn enlarge(r: &mut Rng, hist: &mut Vec<String>, a: &Alpha) {
    let n = *r.pick(&[40, 130, 300, 700, 1500]);
    let n = r.range(n / 2, n);
    let style = r.below(4);
    let c = NARROW[r.below(a.small.min(NARROW.len()))];
    let few: Vec<String> = (0..4).map(|_| a.text(r, 5)).collect();
    let mut v = vec![];
    let mut old = std::mem::take(hist);
    old.reverse();
    for i in 0..n {
        while !old.is_empty() && r.chance(1, 1 + i) {
            v.push(old.pop().unwrap());
        }
        v.push(match style {
            0 | 1 => format!("#{i}"),
            2 => format!("{c}{i}"),
            _ => format!("{}{i}{c}", r.pick(&few)),
        });
    }
    if r.chance(1, 2) {
        old.reverse();
        v.extend(old);
    }
    if r.chance(1, 3) {
        let i = r.below(v.len());
        v[i] = long(r, &Alpha { newline: 0, ..*a });
    }
    *hist = v;
}

/// Now and then one of the history, the line and the candidates is far larger than usual.
pub fn enlarge_one(
    r: &mut Rng,
    rare: usize,
    hist: &mut Vec<String>,
    init: &mut String,
    cands: &mut Vec<String>,
    a: &Alpha,
) -> bool {
    if !r.chance(1, rare) {
        return false;
    }
    match r.below(3) {
        0 => enlarge(r, hist, a),
        1 => *init = long(r, a),
        _ => {
            for _ in 0..r.range(100, 600) {
                cands.push(a.text1(r, 9));
            }
        }
    }
    true
}

/// How many steps a case takes: now and then many times more than usual.
pub fn steps(r: &mut Rng, lo: usize, hi: usize) -> usize {
    if r.chance(1, 400) {
        r.range(5 * hi, 40 * hi)
    } else {
        r.range(lo, hi)
    }
}

pub fn sig(parts: &[&str]) -> u64 {
    let mut h = 0u64;
    for p in parts {
        h = crate::rng::mix(h ^ crate::rng::hash_str(p));
    }
    h
}

thread_local! {
    static BIG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Whether the case running on this thread goes to sizes far beyond the usual.
pub fn big() -> bool {
    BIG.with(|b| b.get())
}

pub fn set_big(b: bool) {
    BIG.with(|c| c.set(b));
}
