//! What the terminal must show: an ideal layout of prompt, line and cursor, compared with the
//! emulated terminal.
use unicode_width::UnicodeWidthChar;

use crate::fw::R;
use crate::model::{Line, Model};
use crate::vt::{Glyph, Vt};
use crate::{ensure, violation};

/// Text without escape sequences: CSI, strings like OSC (ended by BEL or ST), and those of two or
/// more characters like that choosing a character set.
pub fn plain(s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] != '\x1b' {
            o.push(cs[i]);
            i += 1;
            continue;
        }
        match cs.get(i + 1) {
            Some('[') => {
                i += 2;
                while i < cs.len() && !('@'..='~').contains(&cs[i]) {
                    i += 1;
                }
                i += 1;
            }
            Some(']') => {
                i += 2;
                while i < cs.len() && cs[i] != '\x07' && cs[i] != '\x1b' {
                    i += 1;
                }
                // ST is two characters
                i += if cs.get(i) == Some(&'\x1b') { 2 } else { 1 };
            }
            _ => {
                i += 1;
                while i < cs.len() && (' '..='/').contains(&cs[i]) {
                    i += 1;
                }
                i += 1;
            }
        }
    }
    o
}

pub fn width(s: &str) -> usize {
    s.chars().map(|c| c.width().unwrap_or(0)).sum()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tag {
    Prompt,
    /// The text to search for, in the prompt.
    Sought,
    Text,
    Suggestion,
    Match,
}

/// An ideal terminal page being printed on.
#[derive(Clone)]
pub struct Page {
    pub w: usize,
    pub rows: Vec<Vec<Glyph>>,
    /// What the cells are part of.
    pub tags: Vec<Vec<Tag>>,
    pub tag: Tag,
    pub r: usize,
    pub c: usize,
}

impl Page {
    pub fn new(w: usize) -> Page {
        Page {
            w,
            rows: vec![vec![]],
            tags: vec![vec![]],
            tag: Tag::Prompt,
            r: 0,
            c: 0,
        }
    }
    pub fn put(&mut self, ch: char) {
        let cw = ch.width().unwrap_or(0);
        if cw == 0 {
            if let Some(cell) = self.rows[self.r].iter_mut().rev().find(|x| !x.is_empty()) {
                cell.push(ch);
            }
            return;
        }
        if self.c + cw > self.w {
            self.down();
        }
        while self.rows[self.r].len() < self.c {
            self.rows[self.r].push(Glyph::new(' '));
            self.tags[self.r].push(Tag::Prompt);
        }
        self.rows[self.r].push(Glyph::new(ch));
        self.tags[self.r].push(self.tag);
        if cw == 2 {
            self.rows[self.r].push(Glyph::NONE);
            self.tags[self.r].push(self.tag);
        }
        self.c += cw;
    }
    pub fn down(&mut self) {
        self.r += 1;
        self.c = 0;
        while self.rows.len() <= self.r {
            self.rows.push(vec![]);
            self.tags.push(vec![]);
        }
    }
    pub fn text(&mut self, s: &str) {
        for c in s.chars() {
            if c == '\n' {
                self.down();
            } else {
                self.put(c);
            }
        }
    }
    /// Text whose continuation lines are indented.
    pub fn lines(&mut self, t: &[char], indent: usize) {
        for c in t {
            if *c == '\n' {
                self.down();
                for _ in 0..indent {
                    self.put(' ');
                }
            } else {
                self.put(*c);
            }
        }
    }
    pub fn row(&self, r: usize) -> String {
        self.rows
            .get(r)
            .map(|l| l.iter().flat_map(|g| g.chars()).collect::<String>())
            .map(|s| s.trim_end_matches(' ').to_string())
            .unwrap_or_default()
    }
}

pub struct Frame {
    pub page: Page,
    /// Where the cursor has to be.
    pub cursor: (usize, usize),
    /// Row of the last printed character, or the one after it if the text fills it.
    pub last_row: usize,
}

/// `prompt` is plain text; of what is shown so many characters are the line's.
pub fn frame(
    prompt: &str,
    shown: &[char],
    typed: usize,
    cursor: usize,
    w: usize,
    search: Option<(&str, &[char])>,
) -> Frame {
    let indent = width(prompt.rsplit('\n').next().unwrap_or(""));
    let mut p = Page::new(w);
    match search {
        None => p.text(prompt),
        Some((start, text)) => {
            p.text(start);
            p.tag = Tag::Sought;
            let n: usize = text.iter().map(|c| c.len_utf8()).sum();
            p.text(&prompt[start.len()..][..n]);
            p.tag = Tag::Prompt;
            p.text(&prompt[start.len() + n..]);
        }
    }
    let mut before = p.clone();
    p.tag = if search.is_some() { Tag::Match } else { Tag::Text };
    for (i, c) in shown.iter().enumerate() {
        if search.is_none() && i >= typed {
            p.tag = Tag::Suggestion;
        }
        p.lines(&[*c], indent);
    }
    let under;
    match search {
        None => {
            before.lines(&shown[..cursor.min(shown.len())], indent);
            under = shown.get(cursor).cloned();
        }
        Some((start, text)) => {
            // the cursor is in the text searched for, within the prompt
            before = Page::new(w);
            before.text(start);
            for c in &text[..cursor] {
                before.put(if *c == '\n' { ' ' } else { *c });
            }
            under = text.get(cursor).cloned();
        }
    }
    let cw = under.and_then(|c| c.width()).unwrap_or(1).max(1);
    let mut at = (before.r, before.c);
    if at.1 + cw > w {
        at = (at.0 + 1, 0);
    }
    let last_row = if p.c == w { p.r + 1 } else { p.r };
    Frame {
        page: p,
        cursor: at,
        last_row,
    }
}

/// In a list of completions: in between are spaces, and a combining character may have nothing to
/// combine with.
pub fn seen(c: char) -> bool {
    c != ' ' && c.width().unwrap_or(0) > 0
}

pub struct Screen {
    pub vt: Vt,
    /// Absolute row the prompt, or the list above it, starts on.
    pub origin: usize,
    /// Row the prompt was found on.
    pub at: usize,
    /// Rows above it when the session started.
    pub above: Vec<String>,
    pub frames: u64,
    pub wrapped: u64,
    pub lists: u64,
    pub max_rows: usize,
}

impl Screen {
    pub fn new(vt: Vt) -> Screen {
        Screen {
            vt,
            origin: 0,
            at: 0,
            above: vec![],
            frames: 0,
            wrapped: 0,
            lists: 0,
            max_rows: 0,
        }
    }

    /// Takes in what was printed when the editor started, for a prompt of which all but the last
    /// line is `earlier`. `before` are the rows there were before it.
    pub fn started(&mut self, bytes: &[u8], earlier: &[&str]) -> R {
        let w = self.vt.w;
        let (r0, c0) = self.vt.cursor();
        let kept: Vec<String> = (0..=r0).map(|r| self.vt.row_text(r)).collect();
        self.vt.feed(bytes);
        let start = if c0 == 0 { r0 } else { r0 + 1 };
        let mut p = Page::new(w);
        for l in earlier {
            p.text(&plain(l));
            p.down();
        }
        self.origin = start + p.r;
        for r in 0..start {
            let now = self.vt.row_text(r);
            // a line that did not end gets a mark
            let was = &kept[r];
            let ok = now == *was
                || (r == r0 && now.starts_with(was.as_str()) && now[was.len()..].trim() == "⏎");
            ensure!(
                ok,
                "starting the editor changed row {r} above the prompt from {was:?} to {now:?}\n{}",
                self.vt.dump()
            );
        }
        for r in start..self.origin {
            let (now, want) = (self.vt.row_text(r), p.row(r - start));
            ensure!(
                now == want,
                "row {r} of the prompt shows {now:?}, not {want:?}\n{}",
                self.vt.dump()
            );
        }
        self.above = (0..self.origin).map(|r| self.vt.row_text(r)).collect();
        Ok(())
    }

    pub fn check_clean(&self) -> R {
        if let Some(u) = self.vt.unknown.first() {
            violation!("sent to the terminal: {u}");
        }
        for m in [1, 1000] {
            ensure!(
                !self.vt.modes.contains(&m),
                "{} is still on after a redraw",
                if m == 1 { "application cursor keys mode" } else { "mouse reporting" }
            );
        }
        Ok(())
    }

    fn check_above(&self) -> R {
        for (r, t) in self.above.iter().enumerate() {
            ensure!(
                self.vt.row_text(r) == *t,
                "row {r} above the prompt changed from {t:?}\n{}",
                self.vt.dump()
            );
        }
        Ok(())
    }

    /// Compares everything from row `at` on.
    pub fn compare(&mut self, f: &Frame, at: usize, cursor: bool) -> Result<(), String> {
        let n = self
            .vt
            .used_rows()
            .saturating_sub(at)
            .max(f.page.rows.len());
        for r in 0..n {
            let (have, want) = (self.vt.row_text(at + r), f.page.row(r));
            if have != want {
                return Err(format!(
                    "row {r} from the prompt shows {have:?}, not {want:?}"
                ));
            }
        }
        if cursor {
            let want = (at + f.cursor.0, f.cursor.1);
            if self.vt.cursor() != want {
                return Err(format!(
                    "the cursor is at row {} column {}, not at row {} column {}",
                    self.vt.row as i64 - at as i64,
                    self.vt.col,
                    f.cursor.0,
                    f.cursor.1
                ));
            }
        }
        Ok(())
    }

    /// The candidate in the list of `k` rows with no space and no row end after it.
    fn joined(&self, cands: &[String], k: usize) -> Option<String> {
        let rows: Vec<char> = (self.origin..self.origin + k)
            .flat_map(|r| self.vt.row_text(r).chars().chain(['\n']).collect::<Vec<_>>())
            .filter(|c| matches!(c, ' ' | '\n') || seen(*c))
            .collect();
        let mut at = 0;
        let mut before: Option<&String> = None;
        for c in cands {
            let n = c.chars().filter(|c| seen(*c)).count();
            if n == 0 {
                continue;
            }
            let from = at;
            while at < rows.len() && matches!(rows[at], ' ' | '\n') {
                at += 1;
            }
            if let (Some(b), true) = (before, at == from) {
                return Some(b.clone());
            }
            for _ in 0..n {
                while at < rows.len() && matches!(rows[at], ' ' | '\n') {
                    at += 1;
                }
                at += 1;
            }
            before = Some(c);
        }
        None
    }

    /// The screen must show this frame; with a completion list above it if `list` is given and,
    /// if `may` is set, possibly without one.
    pub fn expect(&mut self, f: &Frame, list: Option<&[String]>, may: bool) -> R {
        self.check_clean()?;
        self.check_above()?;
        self.frames += 1;
        self.max_rows = self.max_rows.max(f.page.rows.len());
        if f.page.r > 0 {
            self.wrapped += 1;
        }
        let direct = match (list, may) {
            (None, _) | (_, true) => self.compare(f, self.origin, true),
            _ => Err("the list of completions is missing".into()),
        };
        self.at = self.origin;
        let e = match direct {
            Ok(()) => return Ok(()),
            Err(e) => e,
        };
        if let Some(cands) = list {
            self.lists += 1;
            let all: String = cands.concat().chars().filter(|c| seen(*c)).collect();
            let mut last = String::new();
            for k in 1..self.vt.used_rows() + 2 - self.origin.min(self.vt.used_rows()) {
                if let Err(e) = self.compare(f, self.origin + k, true) {
                    last = e;
                    continue;
                }
                let got: String = (self.origin..self.origin + k)
                    .flat_map(|r| self.vt.row_text(r).chars().collect::<Vec<_>>())
                    .filter(|c| seen(*c))
                    .collect();
                if got == all {
                    self.at = self.origin + k;
                    if let Some(c) = self.joined(cands, k) {
                        violation!(
                            "nothing separates the completion {c:?} from the next one\n{}",
                            self.vt.dump()
                        );
                    }
                    return Ok(());
                }
                last = format!("the list shows {got:?}, not {all:?}");
            }
            violation!(
                "{e}; with the list of completions above it: {last}\nexpected completions {cands:?}\n{}",
                self.vt.dump()
            );
        }
        violation!("{e}\n{}", self.vt.dump())
    }
}

/// The prompt the model says is shown, plain, and for a search what comes before its text.
pub fn prompt_of(
    m: &Model,
    base: &str,
    status: Option<&(String, String)>,
) -> (String, Option<String>) {
    let ind = match status {
        None => String::new(),
        Some((n, i)) => plain(if m.inserting() { i } else { n }),
    };
    match &m.search {
        None => (format!("{ind}{}", plain(base)), None),
        Some(s) => {
            let text: String = m
                .new
                .iter()
                .map(|c| if *c == '\n' { ' ' } else { *c })
                .collect();
            let start = format!("{ind}(search)'");
            (
                format!(
                    "{start}{text}` ({}/{}): ",
                    s.pos.map(|p| p + 1).unwrap_or(0),
                    s.matches.len()
                ),
                Some(start),
            )
        }
    }
}

pub fn frame_of(m: &Model, base: &str, status: Option<&(String, String)>, w: usize) -> Frame {
    let (p, start) = prompt_of(m, base, status);
    let shown: Line = m.shown();
    match start {
        None => frame(&p, &shown, m.text().len(), m.cursor, w, None),
        Some(s) => frame(&p, &shown, 0, m.cursor, w, Some((&s, &m.new))),
    }
}
