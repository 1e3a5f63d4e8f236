//! A small terminal emulator (xterm semantics: deferred wrap at the right margin, scrolling,
//! cursor moves clamped to the window). Rows are kept by absolute number, scrollback included.
use std::collections::BTreeSet;
use std::fmt;
use unicode_width::UnicodeWidthChar;

/// A character and the combining characters after it; or nothing, the right half of a wide one.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Glyph {
    base: Option<char>,
    more: Option<Box<String>>,
}

impl Glyph {
    pub const NONE: Glyph = Glyph {
        base: None,
        more: None,
    };
    pub fn new(c: char) -> Glyph {
        Glyph {
            base: Some(c),
            more: None,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.base.is_none()
    }
    pub fn push(&mut self, c: char) {
        if self.base.is_none() {
            self.base = Some(c);
        } else {
            self.more.get_or_insert_default().push(c);
        }
    }
    pub fn base(&self) -> Option<char> {
        self.base
    }
    pub fn chars(&self) -> impl Iterator<Item = char> + '_ {
        let more = self.more.as_ref().map(|m| m.as_str()).unwrap_or("");
        self.base.into_iter().chain(more.chars())
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Cell {
    pub s: Glyph,
    /// Foreground and background colour as given by SGR (39 and 49 are the defaults).
    pub fg: u16,
    pub bg: u16,
}

impl Cell {
    fn blank() -> Cell {
        Cell {
            s: Glyph::new(' '),
            fg: 39,
            bg: 49,
        }
    }
}

#[derive(Clone)]
pub struct Vt {
    pub w: usize,
    pub h: usize,
    pub rows: Vec<Vec<Cell>>,
    /// Absolute number of the first row of the window.
    pub top: usize,
    /// Absolute row, column of the cursor; col == w means the wrap is pending.
    pub row: usize,
    pub col: usize,
    pub fg: u16,
    pub bg: u16,
    /// Private modes that are set, like 1 for application cursor keys.
    pub modes: BTreeSet<u16>,
    /// Sequences or control characters this emulator does not know.
    pub unknown: Vec<String>,
    pub chars: u64,
    pub seqs: u64,
    pub scrolled: u64,
    /// Times the cursor was asked to move beyond the window.
    pub clamped: u64,
}

impl Vt {
    pub fn new(w: usize, h: usize) -> Vt {
        Vt {
            w,
            h,
            rows: vec![],
            top: 0,
            row: 0,
            col: 0,
            fg: 39,
            bg: 49,
            modes: BTreeSet::new(),
            unknown: vec![],
            chars: 0,
            seqs: 0,
            scrolled: 0,
            clamped: 0,
        }
    }

    /// A row with at least that many cells; those after the last are blank.
    fn line(&mut self, r: usize, n: usize) -> &mut Vec<Cell> {
        while self.rows.len() <= r {
            self.rows.push(vec![]);
        }
        let l = &mut self.rows[r];
        while l.len() < n {
            l.push(Cell::blank());
        }
        l
    }

    fn index(&mut self) {
        if self.row + 1 >= self.top + self.h {
            self.top += 1;
            self.scrolled += 1;
        }
        self.row += 1;
    }

    fn put(&mut self, c: char) {
        let cw = c.width().unwrap_or(0);
        self.chars += 1;
        if cw == 0 {
            // combining: attach to the previous cell
            let (r, col) = (self.row, self.col);
            if col > 0 {
                let l = self.line(r, col);
                let mut k = col - 1;
                while k > 0 && l[k].s.is_empty() {
                    k -= 1;
                }
                l[k].s.push(c);
            }
            return;
        }
        if self.col + cw > self.w {
            if cw > self.w {
                return;
            }
            self.col = 0;
            self.index();
        }
        let (r, col, fg, bg) = (self.row, self.col, self.fg, self.bg);
        let l = self.line(r, col + cw);
        l[col] = Cell {
            s: Glyph::new(c),
            fg,
            bg,
        };
        if cw == 2 {
            l[col + 1] = Cell {
                s: Glyph::NONE,
                fg,
                bg,
            };
        }
        self.col += cw;
    }

    /// Where the next character would appear to be put (a pending wrap counts as the next row).
    pub fn cursor(&self) -> (usize, usize) {
        (self.row, self.col)
    }

    pub fn feed(&mut self, bytes: &[u8]) {
        let text = match std::str::from_utf8(bytes) {
            Ok(t) => t.to_string(),
            Err(_) => {
                self.unknown.push("invalid UTF-8".into());
                String::from_utf8_lossy(bytes).into_owned()
            }
        };
        let mut it = text.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '\r' => self.col = 0,
                '\n' => {
                    // raw mode: line feed keeps the column
                    if self.col == self.w {
                        self.col = self.w - 1;
                    }
                    self.index()
                }
                '\x08' => self.col = self.col.min(self.w - 1).saturating_sub(1),
                '\x07' => {}
                '\t' => {
                    self.col = ((self.col / 8 + 1) * 8).min(self.w - 1);
                }
                '\x1b' => {
                    self.seqs += 1;
                    match it.next() {
                        Some('[') => {
                            let mut params = String::new();
                            let fin;
                            loop {
                                match it.next() {
                                    Some(c @ '\x40'..='\x7e') => {
                                        fin = c;
                                        break;
                                    }
                                    Some(c) => params.push(c),
                                    None => {
                                        self.unknown.push(format!("unterminated CSI {params}"));
                                        return;
                                    }
                                }
                            }
                            self.csi(&params, fin);
                        }
                        Some(']') => {
                            // OSC, up to BEL or ST
                            loop {
                                match it.next() {
                                    Some('\x07') | None => break,
                                    Some('\x1b') => {
                                        it.next();
                                        break;
                                    }
                                    _ => {}
                                }
                            }
                        }
                        Some(c @ ' '..='/') => {
                            // a character set, say
                            let mut c = Some(c);
                            while matches!(c, Some(' '..='/')) {
                                c = it.next();
                            }
                            if !matches!(c, Some('0'..='~')) {
                                self.unknown.push(format!("ESC .. {c:?}"));
                            }
                        }
                        Some('=' | '>') => {}
                        o => self.unknown.push(format!("ESC {o:?}")),
                    }
                }
                c if (c as u32) < 32 || c == '\x7f' => {
                    self.unknown.push(format!("control {:?}", c));
                }
                c => self.put(c),
            }
        }
    }

    fn csi(&mut self, params: &str, fin: char) {
        if params.starts_with('?') {
            for m in params[1..].split(';') {
                match (fin, m.parse()) {
                    ('h', Ok(m)) => drop(self.modes.insert(m)),
                    ('l', Ok(m)) => drop(self.modes.remove(&m)),
                    _ => self.unknown.push(format!("CSI {params}{fin}")),
                }
            }
            return;
        }
        let nums: Vec<Option<usize>> = params.split(';').map(|p| p.parse().ok()).collect();
        // a missing or zero count is one
        let n = nums[0].unwrap_or(0).max(1);
        let unpend = |col: usize, w: usize| col.min(w - 1);
        match fin {
            'A' => {
                self.col = unpend(self.col, self.w);
                if self.row < self.top + n {
                    self.clamped += 1;
                }
                self.row = self.row.saturating_sub(n).max(self.top);
            }
            'B' => {
                self.col = unpend(self.col, self.w);
                self.row = (self.row + n).min(self.top + self.h - 1);
            }
            'C' => {
                if self.col + n >= self.w {
                    self.clamped += 1;
                }
                self.col = (self.col + n).min(self.w - 1);
            }
            'D' => {
                self.col = unpend(self.col, self.w);
                if n > self.col {
                    self.clamped += 1;
                }
                self.col = self.col.saturating_sub(n);
            }
            'G' => self.col = (n - 1).min(self.w - 1),
            'H' => {
                let c = nums.get(1).cloned().flatten().unwrap_or(0).max(1);
                self.row = self.top + (n - 1).min(self.h - 1);
                self.col = (c - 1).min(self.w - 1);
            }
            'J' => {
                let mode = nums[0].unwrap_or(0);
                let (row, col, top, h) = (self.row, self.col.min(self.w - 1), self.top, self.h);
                match mode {
                    0 => {
                        self.col = col;
                        self.line(row, 0).truncate(col);
                        self.rows.truncate(row + 1);
                    }
                    2 => {
                        for r in top..top + h {
                            if r < self.rows.len() {
                                self.rows[r].clear();
                            }
                        }
                    }
                    _ => self.unknown.push(format!("CSI {params}J")),
                }
            }
            'K' => {
                let mode = nums[0].unwrap_or(0);
                let (row, col) = (self.row, self.col.min(self.w - 1));
                match mode {
                    0 => {
                        self.line(row, 0).truncate(col);
                    }
                    2 => self.line(row, 0).clear(),
                    _ => self.unknown.push(format!("CSI {params}K")),
                }
            }
            // cursor shape, saved window titles
            'q' | 't' => {}
            'm' => {
                let mut i = 0;
                while i < nums.len() {
                    match nums[i].unwrap_or(0) {
                        0 => {
                            self.fg = 39;
                            self.bg = 49;
                        }
                        v @ (30..=37 | 39 | 90..=97) => self.fg = v as u16,
                        38 => {
                            // 38;5;n
                            self.fg = 1000 + nums.get(i + 2).cloned().flatten().unwrap_or(0) as u16;
                            i += 2;
                        }
                        v @ (40..=47 | 49) => self.bg = v as u16,
                        48 => {
                            self.bg = 1000 + nums.get(i + 2).cloned().flatten().unwrap_or(0) as u16;
                            i += 2;
                        }
                        _ => {}
                    }
                    i += 1;
                }
            }
            _ => self.unknown.push(format!("CSI {params}{fin}")),
        }
    }

    /// Text of an absolute row, without trailing blanks.
    pub fn row_text(&self, r: usize) -> String {
        match self.rows.get(r) {
            None => String::new(),
            Some(l) => {
                let s: String = l.iter().flat_map(|c| c.s.chars()).collect();
                s.trim_end_matches(' ').to_string()
            }
        }
    }

    /// Last row with anything on it, plus one.
    pub fn used_rows(&self) -> usize {
        let mut n = self.rows.len();
        while n > 0 && self.row_text(n - 1).is_empty() {
            n -= 1;
        }
        n
    }

    pub fn dump(&self) -> String {
        let mut s = String::new();
        let n = self.used_rows().max(self.row + 1);
        for r in 0..n {
            s.push_str(&format!(
                "{}{:3}|{}|\n",
                if r == self.row { '>' } else { ' ' },
                r,
                self.row_text(r)
            ));
        }
        s.push_str(&format!("cursor at row {} col {}", self.row, self.col));
        s
    }
}

impl fmt::Debug for Vt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.dump())
    }
}
