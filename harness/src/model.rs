//! The reference model: what each key does to the line, the cursor and the place in the history,
//! stated over plain character sequences and independently of how the library computes it.
use liner::Key;

pub type Line = Vec<char>;

pub fn line(s: &str) -> Line {
    s.chars().collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Go,
    Done(String),
    Interrupted,
    Eof,
}

#[derive(Clone, Debug)]
pub struct Search {
    pub fwd: bool,
    pub matches: Vec<usize>,
    pub pos: Option<usize>,
}

/// How an application divides lines into words.
#[derive(Clone, Copy)]
pub struct Divide(pub &'static str, pub fn(&[char]) -> Vec<(usize, usize)>);

impl std::fmt::Debug for Divide {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}

/// Maximal stretches of characters of one class; `None` is a separator.
fn stretches(t: &[char], class: fn(char) -> Option<u8>) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = vec![];
    let mut last = None;
    for (i, c) in t.iter().enumerate() {
        let k = class(*c);
        match (k, last) {
            (None, _) => {}
            (Some(_), l) if l == k => v.last_mut().unwrap().1 = i + 1,
            _ => v.push((i, i + 1)),
        }
        last = k;
    }
    v
}

pub const DIVIDERS: &[Divide] = &[
    Divide("alphanumeric", |t| {
        stretches(t, |c| c.is_alphanumeric().then_some(0))
    }),
    // words next to each other
    Divide("classes", |t| {
        stretches(t, |c| match c {
            ' ' | '\n' => None,
            c if c.is_alphanumeric() => Some(0),
            _ => Some(1),
        })
    }),
    // every character is in a word
    Divide("halves", |t| {
        stretches(t, |c| {
            Some((c == ' ' || c.is_uppercase() || c == 'b') as u8)
        })
    }),
    Divide("line", |t| stretches(t, |_| Some(0))),
    Divide("none", |_| vec![]),
    // words with spaces in them, between brackets
    Divide("brackets", |t| {
        let mut v = vec![];
        let mut s = None;
        for (i, c) in t.iter().enumerate() {
            if "()\"'".contains(*c) {
                v.extend(s.take().map(|s| (s, i)));
            } else if s.is_none() {
                s = Some(i);
            }
        }
        v.extend(s.map(|s| (s, t.len())));
        v
    }),
];

/// Words: maximal stretches without unescaped spaces, as (start, end).
pub fn words(t: &[char]) -> Vec<(usize, usize)> {
    // which characters are spaces that no backslash escapes
    let mut sep = vec![false; t.len()];
    let mut i = 0;
    while i < t.len() {
        if t[i] == '\\' {
            i += 2;
            continue;
        }
        sep[i] = t[i] == ' ';
        i += 1;
    }
    let mut v = vec![];
    let mut s = None;
    for i in 0..=t.len() {
        let is_sep = i == t.len() || sep[i];
        match (s, is_sep) {
            (None, false) => s = Some(i),
            (Some(b), true) => {
                v.push((b, i));
                s = None;
            }
            _ => {}
        }
    }
    v
}

pub fn last_arg(t: &[char]) -> Line {
    let s: String = t.iter().collect();
    s.split(' ')
        .filter(|w| !w.is_empty())
        .next_back()
        .map(line)
        .unwrap_or_default()
}

pub fn contains(h: &[char], n: &[char]) -> bool {
    if n.is_empty() || n.len() > h.len() {
        return false;
    }
    (0..=h.len() - n.len()).any(|i| h[i..i + n.len()] == *n)
}

pub fn extends(h: &[char], p: &[char]) -> bool {
    !p.is_empty() && h.len() > p.len() && h[..p.len()] == *p
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FK {
    F,
    T,
    BackF,
    BackT,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Motion {
    Left,
    Right,
    W(bool),
    B(bool),
    E(bool),
    Ge(bool),
    Start,
    End,
    Find(char, FK),
    Again,
    Reverse,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    D,
    C,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pend {
    None,
    Replace,
    Op(Op, u32),
    G(Option<(Op, u32)>),
    Find(FK, Option<(Op, u32)>),
}

/// How an insertion was begun.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    I,
    A,
    StartI,
    EndA,
    S,
    Rest,
    Line,
    Motion(Motion),
}

impl How {
    fn repeats(&self) -> bool {
        matches!(self, How::I | How::A | How::StartI | How::EndA)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Change {
    Ins { how: How, keys: Vec<Key> },
    X,
    DelRest,
    DelLine,
    Del(Motion),
    Replace(char),
    Tilde,
}

#[derive(Clone, Debug)]
pub struct Inserting {
    pub how: How,
    pub keys: Vec<Key>,
    /// The cursor was moved since the last typed key.
    pub moved: bool,
    /// Times to insert; 0 and 1 are the same.
    pub rep: u32,
    /// Count the change was begun with, for dot.
    pub n: u32,
    /// The text when it began.
    pub before: Line,
}

#[derive(Clone, Debug)]
pub struct ViSt {
    pub ins: Option<Inserting>,
    pub pend: Pend,
    pub count: u32,
    pub find: Option<(char, FK)>,
    pub change: Change,
    pub change_count: u32,
    /// Whether what dot repeats is beyond doubt: the last candidate did change the line.
    pub dot_ok: bool,
}

#[derive(Clone, Debug)]
pub struct Fetch {
    idx: usize,
    len: usize,
    text: Line,
    cursor: usize,
}

/// What the editor offers to key maps.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Insert(char),
    InsertStr(String),
    InsertChars(Line),
    DeleteBefore,
    DeleteAfter,
    DeleteAllBefore,
    DeleteAllAfter,
    DeleteUntil(usize),
    DeleteUntilInclusive(usize),
    DeleteWord(bool),
    Left(usize),
    Right(usize),
    To(usize),
    Start,
    End,
    Up,
    Down,
    Oldest,
    Newest,
    Search(bool),
    Accept,
    Clear,
    Display,
    Flush,
    SkipHint,
    /// Written to the terminal and not flushed.
    Bell,
    Newline,
    /// Edits through `current_buffer_mut`, displayed afterwards.
    BufInsert(usize, String),
    BufRemove(usize, usize),
    Take,
    /// Groups of edits; what they do is undone at once.
    Undo,
    Redo,
    Revert,
    /// An entry is added to the history, on a new line.
    Push(String),
    /// The cursor must stay on a character, or may be after the last one; displayed.
    NoEol(bool),
    /// The mode the prompt shows; displayed.
    ShowNormal(bool),
}

/// The editor after an act.
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub text: String,
    pub cursor: usize,
    pub loc: Option<usize>,
    pub at_end: bool,
    /// Left open for a taken entry that is unchanged.
    pub suggestion: Option<bool>,
    /// Text taken out of the editor, or whether a line was done.
    pub got: Option<String>,
}

#[derive(Clone, Debug)]
pub enum KmSt {
    Emacs(Option<Fetch>),
    Vi(ViSt),
    /// A key map of the application: what the next key is bound to, and what each act must do.
    Bound(Vec<Act>, Vec<Snap>),
}

#[derive(Clone, Debug)]
pub struct Model {
    /// The application's own division into words.
    pub divide: Option<Divide>,
    pub hist: Vec<Line>,
    pub new: Line,
    pub work: Option<Line>,
    pub loc: Option<usize>,
    pub order: Vec<usize>,
    pub place: Option<usize>,
    pub search: Option<Search>,
    pub cursor: usize,
    pub hint: Option<(Vec<String>, Option<usize>)>,
    pub km: KmSt,
    /// What a key map of the application has set.
    pub no_eol: bool,
    pub show_normal: bool,
    /// Words the completer was asked about.
    pub asked: Vec<String>,
}

pub fn class(c: char) -> u8 {
    if c.is_whitespace() {
        0
    } else if c == '_' || c.is_alphanumeric() {
        1
    } else {
        2
    }
}

fn is_word_start(t: &[char], i: usize, big: bool) -> bool {
    let k = |j: usize| if big { class(t[j]).min(1) } else { class(t[j]) };
    k(i) != 0 && (i == 0 || k(i - 1) != k(i))
}

fn is_word_end(t: &[char], i: usize, big: bool) -> bool {
    let k = |j: usize| if big { class(t[j]).min(1) } else { class(t[j]) };
    k(i) != 0 && (i + 1 == t.len() || k(i + 1) != k(i))
}

/// Target of a motion and whether it includes the target character; None if it fails.
pub fn target(
    t: &[char],
    cur: usize,
    m: Motion,
    n: u32,
    find: Option<(char, FK)>,
) -> Option<(usize, bool)> {
    let n = n.max(1) as usize;
    let len = t.len();
    Some(match m {
        Motion::Left => (cur.saturating_sub(n), false),
        Motion::Right => (cur.saturating_add(n).min(len), false),
        Motion::Start => (0, false),
        Motion::End => (len, false),
        Motion::W(big) => (
            (cur + 1..len)
                .filter(|&i| is_word_start(t, i, big))
                .nth(n - 1)
                .unwrap_or(len),
            false,
        ),
        Motion::B(big) => (
            (0..cur)
                .rev()
                .filter(|&i| is_word_start(t, i, big))
                .nth(n - 1)
                .unwrap_or(0),
            false,
        ),
        Motion::E(big) => (
            (cur + 1..len)
                .filter(|&i| is_word_end(t, i, big))
                .nth(n - 1)
                .unwrap_or(len),
            true,
        ),
        Motion::Ge(big) => (
            (0..cur)
                .rev()
                .filter(|&i| is_word_end(t, i, big))
                .nth(n - 1)
                .unwrap_or(0),
            true,
        ),
        Motion::Find(c, k) => {
            let at = match k {
                FK::F | FK::T => (cur + 1..len).filter(|&i| t[i] == c).nth(n - 1)?,
                _ => (0..cur.min(len)).rev().filter(|&i| t[i] == c).nth(n - 1)?,
            };
            match k {
                FK::F => (at, true),
                FK::T => (at - 1, true),
                FK::BackF => (at, false),
                FK::BackT => (at + 1, false),
            }
        }
        Motion::Again => {
            let (c, k) = find?;
            return target(t, cur, Motion::Find(c, k), n as u32, None);
        }
        Motion::Reverse => {
            let (c, k) = find?;
            let k = match k {
                FK::F => FK::BackF,
                FK::BackF => FK::F,
                FK::T => FK::BackT,
                FK::BackT => FK::T,
            };
            return target(t, cur, Motion::Find(c, k), n as u32, None);
        }
    })
}

fn simple_motion(k: Key) -> Option<Motion> {
    Some(match k {
        Key::Char('h') | Key::Left | Key::Backspace => Motion::Left,
        Key::Char('l') | Key::Right | Key::Char(' ') => Motion::Right,
        Key::Char('w') => Motion::W(false),
        Key::Char('W') => Motion::W(true),
        Key::Char('b') => Motion::B(false),
        Key::Char('B') => Motion::B(true),
        Key::Char('e') => Motion::E(false),
        Key::Char('E') => Motion::E(true),
        Key::Char('^') | Key::Home => Motion::Start,
        Key::Char('$') | Key::End => Motion::End,
        Key::Char(';') => Motion::Again,
        Key::Char(',') => Motion::Reverse,
        _ => return None,
    })
}

pub type Answer<'a> = &'a dyn Fn(&str) -> Vec<String>;

impl Model {
    pub fn new(vi: bool, hist: &[String], init: &str) -> Model {
        let new = line(init);
        Model {
            hist: hist.iter().map(|s| line(s)).collect(),
            divide: None,
            cursor: new.len(),
            work: None,
            loc: None,
            order: vec![],
            place: None,
            search: None,
            hint: None,
            km: if vi {
                KmSt::Vi(ViSt {
                    ins: Some(Inserting {
                        how: How::I,
                        keys: vec![],
                        moved: false,
                        rep: 0,
                        n: 0,
                        before: new.clone(),
                    }),
                    pend: Pend::None,
                    count: 0,
                    find: None,
                    change: Change::X,
                    change_count: 0,
                    dot_ok: false,
                })
            } else {
                KmSt::Emacs(None)
            },
            new,
            no_eol: false,
            show_normal: false,
            asked: vec![],
        }
    }

    pub fn text(&self) -> &Line {
        if self.search.is_some() {
            return &self.new;
        }
        match (self.loc, &self.work) {
            (Some(_), Some(w)) => w,
            (Some(i), None) => &self.hist[i],
            (None, _) => &self.new,
        }
    }
    pub fn string(&self) -> String {
        self.text().iter().collect()
    }
    pub fn vi(&self) -> Option<&ViSt> {
        match &self.km {
            KmSt::Vi(v) => Some(v),
            _ => None,
        }
    }
    /// In vi's normal mode with nothing pending.
    pub fn normal(&self) -> bool {
        self.vi()
            .map(|v| v.ins.is_none() && v.pend == Pend::None)
            .unwrap_or(false)
    }
    pub fn inserting(&self) -> bool {
        self.vi().map(|v| v.ins.is_some()).unwrap_or(!self.show_normal)
    }
    /// The cursor may not be after the last character.
    pub fn on_chars(&self) -> bool {
        self.normal() || self.no_eol
    }
    pub fn at_end(&self) -> bool {
        self.cursor + self.on_chars() as usize >= self.text().len()
    }
    pub fn pending(&self) -> bool {
        self.vi()
            .map(|v| v.pend != Pend::None || v.count != 0 && v.ins.is_none())
            .unwrap_or(false)
    }

    fn edit(&mut self) -> &mut Line {
        if self.search.is_some() {
            return &mut self.new;
        }
        match self.loc {
            Some(i) => {
                if self.work.is_none() {
                    self.work = Some(self.hist[i].clone());
                }
                self.work.as_mut().unwrap()
            }
            None => &mut self.new,
        }
    }
    /// Takes over the line the library has now, as after an undo.
    pub fn adopt(&mut self, t: Line, cursor: usize) {
        *self.edit() = t;
        self.cursor = cursor;
        self.hint = None;
        match &mut self.km {
            KmSt::Emacs(f) => *f = None,
            KmSt::Vi(v) => v.count = 0,
            KmSt::Bound(..) => {}
        }
        if self.search.is_some() {
            self.refresh();
        }
    }
    fn splice(&mut self, a: usize, b: usize, with: &[char]) {
        self.edit().splice(a..b, with.iter().cloned());
    }

    /// The entry suggested for, or found by, what is typed; for an unchanged recalled entry it
    /// is that entry.
    pub fn suggestion(&self) -> Option<&Line> {
        if let Some(s) = &self.search {
            return s.pos.map(|p| &self.hist[s.matches[p]]);
        }
        match (self.loc, &self.work) {
            (Some(_), Some(_)) => None,
            (Some(i), None) => Some(&self.hist[i]),
            (None, _) => self.hist.iter().rev().find(|h| extends(h, &self.new)),
        }
    }

    /// What the terminal shows after the prompt.
    pub fn shown(&self) -> Line {
        match self.suggestion() {
            Some(s) => s.clone(),
            None => self.text().clone(),
        }
    }

    fn settle(&mut self) {
        let len = self.text().len();
        self.cursor = self.cursor.min(len);
        if self.on_chars() && self.cursor == len && len > 0 {
            self.cursor -= 1;
        }
        if self.search.is_some() {
            self.refresh();
        }
    }

    /// Finds the matches again, keeping the match if it still is one and otherwise going on
    /// from it in the direction of the search.
    fn refresh(&mut self) {
        let (fwd, at) = {
            let s = self.search.as_ref().unwrap();
            (s.fwd, s.pos.map(|p| s.matches[p]))
        };
        self.search = Some(self.find(fwd, at));
    }

    fn find(&self, fwd: bool, at: Option<usize>) -> Search {
        let matches: Vec<usize> = (0..self.hist.len())
            .filter(|&i| contains(&self.hist[i], &self.new))
            .collect();
        let pos = if matches.is_empty() {
            None
        } else {
            Some(match at {
                None if fwd => 0,
                None => matches.len() - 1,
                // none further in that direction: the oldest
                Some(at) if fwd => matches.iter().position(|&m| m >= at).unwrap_or(0),
                Some(at) => matches.iter().rposition(|&m| m <= at).unwrap_or(0),
            })
        };
        Search { fwd, matches, pos }
    }

    fn start_search(&mut self, fwd: bool) {
        match &mut self.search {
            None => {
                let at = self.place.map(|p| self.order[p]);
                self.search = Some(self.find(fwd, at));
                self.loc = None;
                self.work = None;
                self.order.clear();
                self.place = None;
            }
            Some(_) => self.step_search(fwd),
        }
    }

    fn step_search(&mut self, fwd: bool) {
        if let Some(s) = &mut self.search {
            if let Some(p) = s.pos {
                let n = s.matches.len();
                s.pos = Some(if fwd { (p + 1) % n } else { (p + n - 1) % n });
            }
        }
    }

    fn end_search(&mut self) {
        self.search = None;
        self.order.clear();
        self.place = None;
    }

    fn accept(&mut self) {
        if let Some(s) = self.suggestion().cloned() {
            if self.search.is_some() {
                self.new = s;
            } else if self.loc.is_none() {
                self.new = s;
            } else {
                // from here on it is a working copy
                self.edit();
            }
        }
        if self.search.is_some() {
            self.end_search();
        }
        self.cursor = self.text().len();
    }

    fn up(&mut self) {
        if self.search.is_some() {
            return self.step_search(false);
        }
        self.work = None;
        if self.new.is_empty() {
            self.loc = match self.loc {
                None if self.hist.is_empty() => None,
                None => Some(self.hist.len() - 1),
                Some(i) => Some(i.saturating_sub(1)),
            };
        } else {
            match self.place {
                Some(p) => {
                    let p = p.saturating_sub(1);
                    self.place = Some(p);
                    self.loc = Some(self.order[p]);
                }
                None => {
                    let t = self.new.clone();
                    let longer = |h: &Line| extends(h, &t);
                    let inside = |h: &Line| contains(h, &t) && !extends(h, &t) && *h != t;
                    let pick = |f: &dyn Fn(&Line) -> bool| -> Vec<usize> {
                        (0..self.hist.len()).filter(|&i| f(&self.hist[i])).collect()
                    };
                    // visited from the end
                    let mut order = pick(&inside);
                    order.extend(pick(&longer));
                    if !order.is_empty() {
                        self.place = Some(order.len() - 1);
                        self.loc = Some(order[order.len() - 1]);
                    }
                    self.order = order;
                }
            }
        }
        self.cursor = self.text().len();
    }

    fn down(&mut self) {
        if self.search.is_some() {
            return self.step_search(true);
        }
        self.work = None;
        if self.new.is_empty() {
            self.loc = match self.loc {
                Some(i) if i + 1 < self.hist.len() => Some(i + 1),
                _ => None,
            };
        } else if let Some(p) = self.place {
            if p + 1 < self.order.len() {
                self.place = Some(p + 1);
                self.loc = Some(self.order[p + 1]);
            } else {
                self.place = None;
                self.loc = None;
                self.order.clear();
            }
        }
        self.cursor = self.text().len();
    }

    fn oldest(&mut self) {
        if self.search.is_some() {
            self.end_search();
        }
        self.work = None;
        if self.hist.is_empty() {
            self.loc = None;
        } else {
            self.loc = Some(0);
            if !self.new.is_empty() {
                self.order = (0..self.hist.len()).collect();
                self.place = Some(0);
            }
            self.cursor = self.text().len();
        }
    }

    fn newest(&mut self) {
        if self.search.is_some() {
            self.end_search();
        }
        self.work = None;
        if self.loc.take().is_some() {
            self.place = None;
            self.order.clear();
            self.cursor = self.text().len();
        }
    }

    fn insert(&mut self, cs: &[char]) {
        let c = self.cursor;
        self.splice(c, c, cs);
        self.cursor += cs.len();
    }
    fn backspace(&mut self) {
        if self.cursor > 0 {
            let c = self.cursor;
            self.splice(c - 1, c, &[]);
            self.cursor -= 1;
        }
    }
    fn delete(&mut self) {
        let c = self.cursor;
        // even if there is nothing to delete this makes a working copy of a recalled entry
        if c < self.edit().len() {
            self.splice(c, c + 1, &[]);
        }
    }

    /// The part of the word before the cursor.
    pub fn words(&self) -> Vec<(usize, usize)> {
        match self.divide {
            Some(d) => d.1(self.text()),
            None => words(self.text()),
        }
    }

    pub fn word_part(&self) -> usize {
        self.words()
            .iter()
            .find(|(s, e)| *s < self.cursor && self.cursor <= *e)
            .map(|(s, _)| *s)
            .unwrap_or(self.cursor)
    }

    fn tab(&mut self, answer: Answer) {
        if let Some((cands, i)) = self.hint.take() {
            let (from, next) = match i {
                Some(i) => (
                    self.cursor - cands[i].chars().count(),
                    (i + 1) % cands.len(),
                ),
                None => (self.word_part(), 0),
            };
            let c = self.cursor;
            self.splice(from, c, &line(&cands[next]));
            self.cursor = from + cands[next].chars().count();
            self.hint = Some((cands, Some(next)));
            return;
        }
        let from = self.word_part();
        let word: String = self.text()[from..self.cursor].iter().collect();
        self.asked.push(word.clone());
        let mut cands = answer(&word);
        cands.sort();
        cands.dedup();
        let c = self.cursor;
        if cands.is_empty() {
            self.edit();
        } else if cands.len() == 1 {
            self.splice(from, c, &line(&cands[0]));
            self.cursor = from + cands[0].chars().count();
        } else {
            let first = line(&cands[0]);
            let mut n = first.len();
            for x in &cands {
                let x = line(x);
                n = n.min(first.iter().zip(&x).take_while(|(a, b)| a == b).count());
            }
            let common = &first[..n];
            let part = self.text()[from..c].to_vec();
            if extends(common, &part) || part.is_empty() && n > 0 {
                self.splice(from, c, common);
                self.cursor = from + n;
            } else {
                self.edit();
                self.hint = Some((cands, None));
            }
        }
    }

    /// One key, as the library's `KeyMap::handle_key` gets it.
    pub fn key(&mut self, key: Key, answer: Answer) -> Out {
        let key = if key == Key::Ctrl('h') {
            Key::Backspace
        } else {
            key
        };
        let at_end = self.at_end();
        let has_suggestion = self.suggestion().is_some();
        match key {
            Key::Ctrl('c') => return self.finish(Out::Interrupted),
            Key::Ctrl('d') if self.text().is_empty() => return self.finish(Out::Eof),
            Key::Char('\t') => self.tab(answer),
            Key::Char('\n') => {
                if self.search.is_some() {
                    self.accept();
                    self.settle();
                }
                if self.hint.take().is_some() {
                    return Out::Go;
                }
                if self.cursor > 0 && self.text()[self.cursor - 1] == '\\' {
                    self.insert(&['\n']);
                } else {
                    return self.finish(Out::Done(String::new()));
                }
            }
            Key::Ctrl('f') if has_suggestion => {
                self.hint = None;
                self.accept();
            }
            Key::Right if has_suggestion && at_end => {
                self.hint = None;
                self.accept();
            }
            Key::Ctrl('r') => {
                self.hint = None;
                self.start_search(false);
            }
            Key::Ctrl('s') => {
                self.hint = None;
                self.start_search(true);
            }
            _ => {
                match self.km {
                    KmSt::Emacs(_) => self.emacs(key),
                    KmSt::Vi(_) => self.vi_key(key),
                    KmSt::Bound(..) => self.bound(),
                }
                self.hint = None;
            }
        }
        self.settle();
        Out::Go
    }

    fn finish(&mut self, o: Out) -> Out {
        if self.search.is_some() {
            self.accept();
        }
        self.hint = None;
        self.cursor = self.text().len();
        self.settle();
        match o {
            Out::Done(_) => Out::Done(self.string()),
            o => o,
        }
    }

    fn bound(&mut self) {
        let acts = match &mut self.km {
            KmSt::Bound(a, _) => std::mem::take(a),
            _ => unreachable!(),
        };
        let snaps = acts.iter().map(|a| self.act(a)).collect();
        self.km = KmSt::Bound(vec![], snaps);
    }

    /// One of the editor's operations, as its documentation says.
    pub fn act(&mut self, a: &Act) -> Snap {
        let c = self.cursor;
        let n = self.text().len();
        let mut got = None;
        match a {
            Act::Insert(x) => self.insert(&[*x]),
            Act::InsertStr(x) => self.insert(&line(x)),
            Act::InsertChars(x) => self.insert(x),
            Act::DeleteBefore => self.backspace(),
            Act::DeleteAfter => self.delete(),
            Act::DeleteAllBefore => {
                self.splice(0, c, &[]);
                self.cursor = 0;
            }
            Act::DeleteAllAfter => self.splice(c, n, &[]),
            Act::DeleteUntil(p) => {
                let p = (*p).min(n);
                self.splice(c.min(p), c.max(p), &[]);
                self.cursor = c.min(p);
            }
            Act::DeleteUntilInclusive(p) => {
                let p = (*p).min(n);
                self.splice(c.min(p), (c.max(p) + 1).min(n), &[]);
                self.cursor = c.min(p);
            }
            Act::DeleteWord(spaces) => {
                let s = if *spaces {
                    self.words().iter().map(|w| w.0).filter(|s| *s < c).max()
                } else {
                    Some(self.word_part()).filter(|s| *s < c)
                };
                if let Some(s) = s {
                    self.splice(s, c, &[]);
                    self.cursor = s;
                }
            }
            Act::Left(k) => self.cursor = c.saturating_sub(*k),
            Act::Right(k) => self.cursor = c.saturating_add(*k).min(n),
            Act::To(p) => self.cursor = (*p).min(n),
            Act::Start => self.cursor = 0,
            Act::End => self.cursor = n,
            Act::Up => self.up(),
            Act::Down => self.down(),
            Act::Oldest => self.oldest(),
            Act::Newest => self.newest(),
            Act::Search(fwd) => self.start_search(*fwd),
            Act::Accept => self.accept(),
            Act::Clear => {
                self.hint = None;
                if self.search.is_some() {
                    self.end_search();
                }
            }
            Act::Display | Act::Flush => {}
            Act::SkipHint => self.hint = None,
            Act::Bell => {}
            Act::Newline => {
                if self.search.is_some() {
                    self.accept();
                    self.settle();
                }
                let done = if self.hint.take().is_some() {
                    false
                } else if self.cursor > 0 && self.text()[self.cursor - 1] == '\\' {
                    self.insert(&['\n']);
                    false
                } else {
                    self.cursor = self.text().len();
                    true
                };
                got = Some(done.to_string());
            }
            Act::BufInsert(i, x) => {
                let i = i % (n + 1);
                self.splice(i, i, &line(x));
            }
            Act::BufRemove(i, j) => {
                let (i, j) = (i % (n + 1), j % (n + 1));
                self.splice(i.min(j), i.max(j), &[]);
            }
            Act::Take => {
                got = Some(self.string());
                self.edit().clear();
                self.cursor = 0;
            }
            Act::Undo | Act::Redo | Act::Revert => {}
            Act::NoEol(b) => self.no_eol = *b,
            Act::ShowNormal(b) => self.show_normal = *b,
            Act::Push(x) => {
                let x = line(x);
                if self.hist.last() != Some(&x) {
                    self.hist.push(x);
                }
            }
        }
        self.settle();
        Snap {
            text: self.string(),
            cursor: self.cursor,
            loc: self.loc,
            at_end: self.at_end(),
            suggestion: match (self.loc, &self.work) {
                (Some(i), Some(w)) if *w == self.hist[i] => None,
                _ => Some(self.suggestion().is_some()),
            },
            got,
        }
    }

    /// Keys with the same meaning in both key maps.
    fn common(&mut self, key: Key) {
        match key {
            Key::Ctrl('l') => {
                if self.search.is_some() {
                    self.end_search();
                }
            }
            Key::Left => self.cursor = self.cursor.saturating_sub(1),
            Key::Right => self.cursor += 1,
            Key::Up => self.up(),
            Key::Down => self.down(),
            Key::Home => self.cursor = 0,
            Key::End => self.cursor = self.text().len(),
            Key::Backspace => self.backspace(),
            Key::Delete => self.delete(),
            _ => {}
        }
    }

    fn emacs(&mut self, key: Key) {
        let fetch = match &mut self.km {
            KmSt::Emacs(f) => f.take(),
            _ => unreachable!(),
        };
        let c = self.cursor;
        let before = |m: &Model| m.words().iter().map(|w| w.0).filter(|s| *s < c).max();
        match key {
            Key::Char(ch) => self.insert(&[ch]),
            Key::Ctrl('a') => self.cursor = 0,
            Key::Ctrl('e') => self.cursor = self.text().len(),
            Key::Ctrl('b') => self.cursor = c.saturating_sub(1),
            Key::Ctrl('f') => self.cursor = c + 1,
            Key::Ctrl('d') => self.delete(),
            Key::Ctrl('p') => self.up(),
            Key::Ctrl('n') => self.down(),
            Key::Ctrl('u') => {
                self.splice(0, c, &[]);
                self.cursor = 0;
            }
            Key::Ctrl('k') => {
                let n = self.text().len();
                self.splice(c, n, &[]);
            }
            Key::Ctrl('w') | Key::Alt('\x7f') => {
                if let Some(s) = before(self) {
                    self.splice(s, c, &[]);
                    self.cursor = s;
                }
            }
            Key::Alt('b') => {
                if let Some(s) = before(self) {
                    self.cursor = s;
                }
            }
            Key::Alt('f') => {
                if let Some(e) = self.words().iter().map(|w| w.1).filter(|e| *e > c).min() {
                    self.cursor = e;
                }
            }
            Key::Alt('<') => self.oldest(),
            Key::Alt('>') => self.newest(),
            Key::Alt('.') => self.fetch(fetch),
            Key::Ctrl(c) if c != 'l' => {}
            Key::Alt(_) => {}
            k => self.common(k),
        }
    }

    fn fetch(&mut self, last: Option<Fetch>) {
        if self.hist.is_empty() {
            return;
        }
        let last = last.filter(|f| f.text == *self.text() && f.cursor == self.cursor);
        let idx = match &last {
            // the oldest entry stays
            Some(f) if f.idx == 0 => {
                self.km = KmSt::Emacs(last);
                return;
            }
            Some(f) => f.idx - 1,
            None => self.loc.unwrap_or(self.hist.len() - 1),
        };
        let arg = last_arg(&self.hist[idx]);
        let c = self.cursor;
        let from = c - last.as_ref().map(|f| f.len).unwrap_or(0);
        if last.is_some() || !arg.is_empty() {
            self.splice(from, c, &arg);
        }
        self.cursor = from + arg.len();
        self.km = KmSt::Emacs(Some(Fetch {
            idx,
            len: arg.len(),
            text: self.text().clone(),
            cursor: self.cursor,
        }));
    }

    fn v(&mut self) -> &mut ViSt {
        match &mut self.km {
            KmSt::Vi(v) => v,
            _ => unreachable!(),
        }
    }

    fn vi_key(&mut self, key: Key) {
        if self.v().ins.is_some() {
            self.vi_insert(key)
        } else {
            self.vi_normal(key)
        }
    }

    fn type_key(&mut self, key: Key) {
        match key {
            Key::Char(c) => self.insert(&[c]),
            Key::Backspace => self.backspace(),
            Key::Delete => self.delete(),
            _ => unreachable!(),
        }
    }

    fn vi_insert(&mut self, key: Key) {
        match key {
            Key::Esc | Key::Ctrl('[') => {
                let mut s = self.v().ins.clone().unwrap();
                for _ in 1..s.rep {
                    for k in s.keys.clone() {
                        self.type_key(k);
                    }
                }
                if s.how.repeats() {
                    s.n = s.rep;
                }
                self.cursor = self.cursor.saturating_sub(1);
                let changed = *self.text() != s.before;
                let v = self.v();
                v.ins = None;
                v.change = Change::Ins {
                    how: s.how,
                    keys: s.keys,
                };
                v.change_count = s.n;
                v.dot_ok = changed;
            }
            Key::Char(_) | Key::Backspace | Key::Delete => {
                let now = self.text().clone();
                let s = self.v().ins.as_mut().unwrap();
                if s.moved {
                    // a new insertion at the new place
                    *s = Inserting {
                        how: How::I,
                        keys: vec![],
                        moved: false,
                        rep: 0,
                        n: 0,
                        before: now,
                    };
                }
                s.keys.push(key);
                self.type_key(key);
            }
            Key::Left | Key::Right | Key::Home | Key::End | Key::Up | Key::Down => {
                let s = self.v().ins.as_mut().unwrap();
                s.moved = true;
                s.rep = 0;
                if s.how.repeats() {
                    s.n = 0;
                }
                self.common(key);
                if matches!(key, Key::Up | Key::Down) {
                    self.edit();
                }
            }
            k => self.common(k),
        }
    }

    fn vi_normal(&mut self, key: Key) {
        let pend = self.v().pend;
        let count = self.v().count;
        match pend {
            Pend::None => self.vi_command(key),
            Pend::Replace => {
                self.v().pend = Pend::None;
                self.v().count = 0;
                if let Key::Char(c) = key {
                    self.replace(c, count);
                }
            }
            Pend::G(op) => {
                let m = match key {
                    Key::Char('e') => Motion::Ge(false),
                    Key::Char('E') => Motion::Ge(true),
                    _ => return self.cancel(),
                };
                self.motion(m, op, count);
            }
            Pend::Find(fk, op) => match key {
                Key::Char(c) => {
                    self.v().find = Some((c, fk));
                    self.motion(Motion::Find(c, fk), op, count);
                }
                _ => self.cancel(),
            },
            Pend::Op(op, n1) => {
                let both = |n2: u32| -> u32 {
                    match (n1, n2) {
                        (0, n) | (n, 0) => n,
                        (a, b) => a.saturating_mul(b),
                    }
                };
                match key {
                    Key::Char('0') if count == 0 => {
                        self.motion(Motion::Start, Some((op, n1)), 0);
                    }
                    Key::Char(d @ '0'..='9') => self.digit(d),
                    Key::Char('d') if op == Op::D => self.whole_line(op),
                    Key::Char('c') if op == Op::C => self.whole_line(op),
                    Key::Char('g') => {
                        self.v().count = both(count);
                        self.v().pend = Pend::G(Some((op, n1)));
                    }
                    Key::Char(k @ ('f' | 'F' | 't' | 'T')) => {
                        self.v().count = both(count);
                        self.v().pend = Pend::Find(find_kind(k), Some((op, n1)));
                    }
                    k => match simple_motion(k) {
                        Some(m) => {
                            self.motion(m, Some((op, n1)), both(count));
                        }
                        None => self.cancel(),
                    },
                }
            }
        }
    }

    fn digit(&mut self, d: char) {
        let v = self.v();
        v.count = v
            .count
            .saturating_mul(10)
            .saturating_add(d.to_digit(10).unwrap());
    }

    fn cancel(&mut self) {
        let v = self.v();
        v.pend = Pend::None;
        v.count = 0;
    }

    fn begin(&mut self, how: How, rep: u32, n: u32, before: Line) {
        let v = self.v();
        v.pend = Pend::None;
        v.count = 0;
        v.ins = Some(Inserting {
            how,
            keys: vec![],
            moved: false,
            rep,
            n,
            before,
        });
    }

    fn changed(&mut self, c: Change, n: u32, before: &Line) {
        let ok = self.text() != before;
        let v = self.v();
        v.change = c;
        v.change_count = n;
        v.dot_ok = ok;
    }

    /// Performs a motion, or an operator with it. False if it fails.
    fn motion(&mut self, m: Motion, op: Option<(Op, u32)>, n: u32) -> bool {
        let find = self.v().find;
        let t = target(self.text(), self.cursor, m, n, find);
        self.cancel();
        let (to, incl) = match t {
            Some(x) => x,
            None => return false,
        };
        match op {
            None => self.cursor = to,
            Some((op, _)) => {
                let before = self.text().clone();
                let (a, b) = (self.cursor.min(to), self.cursor.max(to));
                let b = (b + incl as usize).min(before.len());
                self.splice(a, b, &[]);
                self.cursor = a;
                match op {
                    Op::D => self.changed(Change::Del(m), n, &before),
                    Op::C => self.begin(How::Motion(m), 0, n, before),
                }
            }
        }
        true
    }

    fn whole_line(&mut self, op: Op) {
        let before = self.text().clone();
        self.cancel();
        self.splice(0, before.len(), &[]);
        self.cursor = 0;
        match op {
            Op::D => self.changed(Change::DelLine, 0, &before),
            Op::C => self.begin(How::Line, 0, 0, before),
        }
    }

    fn replace(&mut self, c: char, n: u32) {
        let k = n.max(1) as usize;
        let before = self.text().clone();
        if self.cursor + k <= before.len() {
            let cur = self.cursor;
            self.splice(cur, cur + k, &vec![c; k]);
            self.cursor = cur + k - 1;
            // replacing a character by itself is a change all the same
            let v = self.v();
            v.change = Change::Replace(c);
            v.change_count = n;
            v.dot_ok = true;
        }
    }

    fn x(&mut self, n: u32) {
        let before = self.text().clone();
        let end = (self.cursor + n.max(1) as usize).min(before.len());
        let c = self.cursor;
        self.splice(c, end, &[]);
        self.changed(Change::X, n, &before);
    }

    fn tilde(&mut self, n: u32) {
        let before = self.text().clone();
        let end = (self.cursor + n.max(1) as usize).min(before.len());
        let mut with: Line = vec![];
        for c in &before[self.cursor..end] {
            if c.is_lowercase() {
                with.extend(c.to_uppercase());
            } else if c.is_uppercase() {
                with.extend(c.to_lowercase());
            } else {
                with.push(*c);
            }
        }
        let c = self.cursor;
        if before[c..end] != with[..] {
            self.splice(c, end, &with);
        } else {
            // nothing to change, yet a recalled entry is being changed now
            self.edit();
        }
        self.cursor = c + with.len();
        self.changed(Change::Tilde, n, &before);
    }

    fn vi_command(&mut self, key: Key) {
        let n = self.v().count;
        let before = self.text().clone();
        match key {
            Key::Esc => self.v().count = 0,
            Key::Char('i') => {
                self.edit();
                self.begin(How::I, n, n, before)
            }
            Key::Char('a') => {
                self.edit();
                self.begin(How::A, n, n, before);
                self.cursor += 1;
            }
            Key::Char('I') => {
                self.edit();
                self.begin(How::StartI, n, n, before);
                self.cursor = 0;
            }
            Key::Char('A') => {
                self.edit();
                self.begin(How::EndA, n, n, before);
                self.cursor = self.text().len();
            }
            Key::Char('s') => {
                let end = (self.cursor + n.max(1) as usize).min(before.len());
                let c = self.cursor;
                self.splice(c, end, &[]);
                self.begin(How::S, 0, n, before);
            }
            Key::Char('C') => {
                let c = self.cursor;
                self.splice(c, before.len(), &[]);
                self.begin(How::Rest, 0, 0, before);
            }
            Key::Char('D') => {
                let c = self.cursor;
                self.splice(c, before.len(), &[]);
                self.v().count = 0;
                self.changed(Change::DelRest, 0, &before);
            }
            Key::Char('r') => self.v().pend = Pend::Replace,
            Key::Char(k @ ('d' | 'c')) => {
                if k == 'c' {
                    // the line is about to be changed
                    self.edit();
                }
                let v = self.v();
                v.pend = Pend::Op(if k == 'd' { Op::D } else { Op::C }, n);
                v.count = 0;
            }
            Key::Char('x') | Key::Delete => {
                self.v().count = 0;
                self.x(n)
            }
            Key::Char('~') => {
                self.v().count = 0;
                self.tilde(n)
            }
            Key::Char('g') => self.v().pend = Pend::G(None),
            Key::Char(k @ ('f' | 'F' | 't' | 'T')) => {
                self.v().pend = Pend::Find(find_kind(k), None)
            }
            Key::Char('0') if n == 0 => self.cursor = 0,
            Key::Char(d @ '0'..='9') => self.digit(d),
            Key::Char('.') => self.dot(n),
            Key::Char('k') | Key::Up => {
                self.v().count = 0;
                self.up()
            }
            Key::Char('j') | Key::Down => {
                self.v().count = 0;
                self.down()
            }
            Key::Ctrl('l') => self.common(key),
            k => {
                if let Some(m) = simple_motion(k) {
                    self.motion(m, None, n);
                }
            }
        }
    }

    fn dot(&mut self, given: u32) {
        let v = self.v();
        let n = if given > 0 { given } else { v.change_count };
        v.count = 0;
        let change = v.change.clone();
        let before = self.text().clone();
        match change.clone() {
            Change::X => self.x(n),
            Change::DelRest => {
                let c = self.cursor;
                self.splice(c, before.len(), &[]);
                self.changed(change, 0, &before);
            }
            Change::DelLine => self.whole_line(Op::D),
            Change::Del(m) => {
                if let Motion::Find(c, k) = m {
                    self.v().find = Some((c, k));
                }
                if !self.motion(m, Some((Op::D, 0)), n) {
                    self.v().dot_ok &= given == 0;
                }
            }
            Change::Replace(c) => {
                if self.cursor + n.max(1) as usize > before.len() {
                    self.v().dot_ok &= given == 0;
                }
                self.replace(c, n)
            }
            Change::Tilde => self.tilde(n),
            Change::Ins { how, keys } => {
                match how {
                    How::I => self.vi_command(Key::Char('i')),
                    How::A => self.vi_command(Key::Char('a')),
                    How::StartI => self.vi_command(Key::Char('I')),
                    How::EndA => self.vi_command(Key::Char('A')),
                    How::S => {
                        self.v().count = n;
                        self.vi_command(Key::Char('s'))
                    }
                    How::Rest => self.vi_command(Key::Char('C')),
                    How::Line => self.whole_line(Op::C),
                    How::Motion(m) => {
                        if let Motion::Find(c, k) = m {
                            self.v().find = Some((c, k));
                        }
                        self.edit();
                        if !self.motion(m, Some((Op::C, 0)), n) {
                            self.v().dot_ok &= given == 0;
                            return;
                        }
                    }
                }
                if how.repeats() {
                    self.v().ins.as_mut().unwrap().rep = n;
                }
                let len = self.text().len();
                self.cursor = self.cursor.min(len);
                for k in keys {
                    self.vi_insert(k);
                }
                let n2 = self.v().ins.as_ref().unwrap().n;
                self.vi_insert(Key::Esc);
                if !how.repeats() {
                    self.v().change_count = n2;
                }
            }
        }
    }

    /// Whether what this key does here is laid down by the properties. Keys it is false for are
    /// left out of the workloads; the reasons are in DESIGN.md.
    pub fn settled(&self, key: Key) -> bool {
        let v = match self.vi() {
            // what is fetched first takes away what was fetched last: two changes of the text
            None => {
                // an entry still unchanged may or may not count as a suggestion
                if let (Some(i), Some(w)) = (self.loc, &self.work) {
                    if *w == self.hist[i]
                        && (key == Key::Ctrl('f')
                            || key == Key::Right && matches!(self.km, KmSt::Bound(..)))
                    {
                        return false;
                    }
                }
                return !(self.search.is_some() && matches!(key, Key::Char('\t') | Key::Alt('.')));
            }
            Some(v) => v,
        };
        if self.search.is_some() && (v.ins.is_none() || matches!(key, Key::Esc | Key::Ctrl('['))) {
            return false;
        }
        if v.ins.is_some() {
            if let Some(s) = &v.ins {
                // bounded work
                if s.rep as usize * (s.keys.len() + 1) > 400 || s.keys.len() > 100 {
                    return matches!(key, Key::Esc);
                }
            }
            // an entry still unchanged may or may not count as a suggestion
            if let (Key::Ctrl('f'), Some(i), Some(w)) = (key, self.loc, &self.work) {
                if *w == self.hist[i] {
                    return false;
                }
            }
            return !(self.search.is_some() && key == Key::Char('\t'));
        }
        let pend = v.pend != Pend::None;
        let long = self.text().len() > 300;
        match key {
            Key::Char('\t') => false,
            // a continuation within an operator
            Key::Char('\n') if pend => self.cursor == 0 || self.text()[self.cursor - 1] != '\\',
            Key::Ctrl('r') | Key::Ctrl('s') => false,
            // after c the entry may or may not still count as a suggestion
            Key::Right | Key::Ctrl('f')
                if self.suggestion().is_some() || pend && self.loc.is_some() =>
            {
                !pend && v.count == 0 || key == Key::Right && self.cursor + 2 < self.text().len()
            }
            Key::Up | Key::Down | Key::Char('k') | Key::Char('j')
                if !pend || matches!(v.pend, Pend::Op(..)) =>
            {
                v.count == 0
            }
            Key::Char('i' | 'a' | 'I' | 'A' | 's' | 'C') if !pend => !long,
            Key::Char('.') if !pend => {
                let n = if v.count > 0 { v.count } else { v.change_count } as usize;
                let size = match &v.change {
                    Change::Ins { keys, .. } => keys.len(),
                    _ => 0,
                };
                let ge = match &v.change {
                    Change::Del(Motion::Ge(b))
                    | Change::Ins {
                        how: How::Motion(Motion::Ge(b)),
                        ..
                    } => {
                        let t = self.text();
                        (0..self.cursor).any(|i| is_word_end(t, i, *b))
                    }
                    _ => true,
                };
                v.dot_ok && n.max(1) * size <= 400 && !long && ge
            }
            Key::Char('e' | 'E') if matches!(v.pend, Pend::G(Some(_))) => {
                let big = key == Key::Char('E');
                let t = self.text();
                (0..self.cursor).any(|i| is_word_end(t, i, big))
            }
            Key::Char('0'..='9') => v.count < 30,
            _ => true,
        }
    }
}

fn find_kind(c: char) -> FK {
    match c {
        'f' => FK::F,
        't' => FK::T,
        'F' => FK::BackF,
        _ => FK::BackT,
    }
}
