//! C08 the terminal after every key; C09 submitting, interrupting, clearing; C10 suggestions.
use std::collections::BTreeSet;

use liner::Key;

use crate::{ensure, violation};
use crate::fw::{Case, Check, Stats, Tier, R};
use crate::gen::{enlarge, history, sig, steps, Alpha, PLAIN, WORDS};
use crate::lock::Lock;
use crate::model::{Model, Out, Pend};
use crate::render::{frame_of, Frame, Screen, Tag};
use crate::rng::Rng;
use crate::sess::{key_str, keys_str, Cfg};
use crate::tty::MockTty;
use crate::vt::Vt;

pub struct C08;
pub struct C09;
pub struct C10;
pub struct C27;

/// A key for a live session, mostly one that does something in the state the session is in.
pub fn live_key(r: &mut Rng, m: &Model, a: &Alpha) -> Key {
    let vi = m.vi().is_some();
    if vi && !m.inserting() {
        return match r.below(40) {
            0..=5 => Key::Char(*r.pick(&['i', 'a', 'A', 'I'])),
            6..=15 => Key::Char(*r.pick(&[
                'h', 'l', 'w', 'b', 'e', 'B', 'W', 'E', '0', '$', '^', ';', ',', ' ',
            ])),
            16 | 17 => Key::Char(*r.pick(&['f', 'F', 't', 'T'])),
            18 => Key::Char(a.ch(r)),
            19..=21 => Key::Char(*r.pick(&['x', '~', 'D'])),
            22 | 23 => Key::Char(*r.pick(&['d', 'c', 'C', 's'])),
            24 => Key::Char('r'),
            25 => Key::Char('.'),
            26 | 27 => Key::Char((b'1' + r.below(4) as u8) as char),
            28 => Key::Esc,
            29 | 30 => *r.pick(&[Key::Up, Key::Char('k')]),
            31 => *r.pick(&[Key::Down, Key::Char('j')]),
            32 => Key::Ctrl('l'),
            33 => Key::Ctrl('f'),
            34 => Key::Right,
            35 => *r.pick(&[Key::Left, Key::Home, Key::End]),
            36 => Key::Ctrl('d'),
            37 => Key::Char('g'),
            _ => Key::Char('i'),
        };
    }
    match r.below(40) {
        0..=15 => Key::Char(a.ch(r)),
        16 => Key::Char('\\'),
        17 if m.text().last() == Some(&'\\') => Key::Char('\n'),
        18 | 19 => Key::Backspace,
        20 => Key::Delete,
        21 | 22 => Key::Left,
        23 => Key::Right,
        24 => Key::Home,
        25 => Key::End,
        26 | 27 => Key::Up,
        28 => Key::Down,
        29 => *r.pick(&[Key::Ctrl('f'), Key::Right, Key::Ctrl('l')]),
        30 | 31 => Key::Char('\t'),
        32 => *r.pick(&[Key::Ctrl('r'), Key::Ctrl('s')]),
        33 if vi => Key::Esc,
        33..=36 if !vi => *r.pick(&[
            Key::Ctrl('a'),
            Key::Ctrl('e'),
            Key::Ctrl('b'),
            Key::Ctrl('w'),
            Key::Ctrl('u'),
            Key::Ctrl('k'),
            Key::Ctrl('d'),
            Key::Ctrl('p'),
            Key::Ctrl('n'),
            Key::Alt('b'),
            Key::Alt('f'),
            Key::Alt('.'),
            Key::Alt('<'),
            Key::Alt('>'),
            Key::F(3),
        ]),
        37 => *r.pick(&[Key::Ctrl('h'), Key::Null, Key::PageUp]),
        _ => Key::Char(a.ch(r)),
    }
}

/// Keys that would end the session.
pub fn ends(m: &Model, k: Key) -> bool {
    match k {
        Key::Ctrl('c') => true,
        Key::Ctrl('d') => m.text().is_empty(),
        Key::Char('\n') => {
            let mut m = m.clone();
            m.key(k, &|_| vec![]) != Out::Go
        }
        _ => false,
    }
}

/// A lock-step session and the emulated terminal it is shown on.
pub struct Shown {
    pub l: Lock,
    pub scr: Screen,
    pub base: String,
    pub status: Option<(String, String)>,
    pub w: usize,
    pub h: usize,
    /// The list ended by the last key that was not followed by a redraw yet.
    lingering: Option<Vec<String>>,
    /// What has to be shown is higher than the screen; nothing more can be said.
    pub over: bool,
    /// All that is ever completed.
    list: Vec<String>,
}

pub struct Look {
    pub cfg: Cfg,
    pub last_line: String,
    pub earlier: Vec<String>,
}

/// Prompts: (what is before the last line, last line).
pub fn look(r: &mut Rng, vi: bool, width: usize) -> Look {
    let mut cfg = Cfg::plain(vi);
    cfg.width = width;
    let last_line = match r.below(15) {
        0 => String::new(),
        6 => "\x1b(B\x1b[mhost\x1b[1m%\x1b(B\x1b[m ".into(),
        7 => "\x1b]8;;http://x/y\x1b\\link\x1b]8;;\x1b\\> ".into(),
        8 => "\x1b[K\x1b[?25hcleared\x1b[5 q> ".into(),
        10 => "\x1b%G\x1b]2;C:\\dir [m~@\x07\x1b[2 q\x1b=\x1b[1;4mC:\\dir\x1b[m\x1b*B> ".into(),
        9 => "漢字\u{301}é😀 \x1b[0;38;5;208m> ".into(),
        1 => "\x1b[1;32muser\x1b[0m:\x1b[34m~/dir\x1b[0m$ ".into(),
        2 => "\x1b]0;a title\x07[1] ".into(),
        3 => "λ é> ".into(),
        4 => "漢> ".into(),
        5 => "a rather long prompt, with a comma> ".into(),
        _ => "$ ".into(),
    };
    let earlier: Vec<String> = match r.below(6) {
        0 => vec!["first line".into()],
        2 => vec!["a first line of a prompt that is longer than a narrow terminal is wide".into()],
        1 => vec![
            "\x1b[33mfirst\x1b[0m".into(),
            String::new(),
            "third line of it".into(),
        ],
        _ => vec![],
    };
    let mut p = String::new();
    for e in &earlier {
        p.push_str(e);
        p.push('\n');
    }
    p.push_str(&last_line);
    cfg.prompt = p;
    if r.chance(1, 3) {
        cfg.status = Some(
            r.pick(&[("[N] ", "[I] "), ("\x1b[31mN\x1b[0m ", "I "), ("", "ins ")])
                .to_owned(),
        )
        .map(|(a, b)| (a.to_string(), b.to_string()));
    }
    if r.chance(1, 3) {
        cfg.colour = Some(match r.below(3) {
            0 => Box::new(|s: &str| format!("\x1b[36m{s}\x1b[39m")),
            1 => Box::new(|s: &str| s.to_string()),
            _ => Box::new(|s: &str| {
                s.chars()
                    .map(|c| {
                        if c == 'a' {
                            format!("\x1b[38;5;9m{c}\x1b[0m")
                        } else {
                            c.to_string()
                        }
                    })
                    .collect()
            }),
        });
    }
    Look {
        cfg,
        last_line,
        earlier,
    }
}

impl Shown {
    pub fn start(
        r: &mut Rng,
        look: Look,
        answer: impl Fn(&str) -> Vec<String> + Clone + 'static,
        st: &mut Stats,
    ) -> R<Shown> {
        let w = look.cfg.width;
        let h = r.range(40, 90);
        let list = answer("");
        let mut vt = Vt::new(w, h);
        // what is on the terminal already
        let rows = *r.pick(&[0, 1, 3, h - 1, h + 20]);
        for i in 0..rows {
            vt.feed(format!("{}\r\n", &"earlier output"[..(i % 14).min(w)]).as_bytes());
        }
        if r.chance(1, 4) {
            let n = r.range(1, (w - 1).max(1)).min(w - 1);
            vt.feed("no line feed here ........................................................................................................................."[..n.min(100)].as_bytes());
        }
        if r.chance(1, 3) {
            // so did an earlier program
            vt.feed(b"\x1b[?1h\x1b[?1000h");
            st.inc("keys_and_mouse_reported_otherwise");
        }
        let tty = MockTty::new(w);
        let status = look.cfg.status.clone();
        let l = Lock::start_on(tty, look.cfg, answer)?;
        l.describe(st);
        let mut scr = Screen::new(vt);
        let out = l.s.tty.take_out();
        let earlier: Vec<&str> = look.earlier.iter().map(|s| s.as_str()).collect();
        scr.started(&out, &earlier)?;
        let mut s = Shown {
            l,
            scr,
            base: look.last_line,
            status,
            w,
            h,
            lingering: None,
            over: false,
            list,
        };
        let f = s.frame();
        s.over = f.page.rows.len() + s.room() > h;
        if s.over {
            st.inc("too_high_for_the_screen");
        } else {
            s.scr.expect(&f, None, false)?;
        }
        Ok(s)
    }

    pub fn frame(&self) -> Frame {
        frame_of(&self.l.m, &self.base, self.status.as_ref(), self.w)
    }

    /// Rows to keep for a list of completions.
    fn room(&self) -> usize {
        let each = self.list.iter().map(|c| crate::render::width(c));
        let longest = each.clone().max().unwrap_or(0);
        let rows = match self.w / (longest + 6) {
            0 | 1 => each.map(|n| 1 + (n + 2) / self.w).sum(),
            cols => self.list.len().div_ceil(cols),
        };
        (rows + 2).max(14)
    }

    /// Whether the screen will still be large enough, whatever the next key is.
    pub fn fits(&self) -> bool {
        // lines after the first are moved to the right of the prompt, however long it is
        let indent = self.base.chars().count();
        let longest = self
            .l
            .m
            .hist
            .iter()
            .map(|h| h.len() + h.iter().filter(|c| **c == '\n').count() * (self.w + indent))
            .max()
            .unwrap_or(0);
        let now = self.frame().page.rows.len();
        // a search shows the line twice, and some more
        let more = (2 * longest / self.w).max(now + 24 / self.w);
        !self.over && now + more + self.room() - 2 < self.h
    }

    /// One key that does not end the session; then everything is looked at.
    pub fn key(&mut self, k: Key, st: &mut Stats) -> R {
        let had = self.l.m.hint.clone();
        let clear = self.clears(k);
        self.l.key(k, st)?;
        self.look_at(k, clear, had.map(|h| h.0), st)
    }

    /// A key of a key map of the application, which may clear the screen.
    pub fn bound_key(&mut self, k: Key, clear: bool, st: &mut Stats) -> R {
        let had = self.l.m.hint.clone();
        self.l.key(k, st)?;
        let clear =
            clear && matches!(&self.l.m.km, crate::model::KmSt::Bound(left, _) if left.is_empty());
        self.look_at(k, clear, had.map(|h| h.0), st)
    }

    /// The application changes the prompt.
    pub fn set_prompt(&mut self, r: &mut Rng, st: &mut Stats) -> R {
        let look = look(r, self.l.m.vi().is_some(), self.w);
        let status = match (&self.status, look.cfg.status.clone()) {
            (Some(_), Some(s)) => Some(s),
            (s, _) => s.clone(),
        };
        let mut cfg = look.cfg;
        cfg.status = status;
        let p = cfg.prompt_value();
        st.desc
            .push_str(&format!(" set_prompt({:?} {:?})", cfg.prompt, cfg.status));
        self.l.s.ed.set_prompt(p);
        // all of it is shown now, while only the last line of a first prompt is shown again
        self.base = cfg.prompt.clone();
        self.status = cfg.status;
        if let Err(e) = self.l.s.ed.display() {
            crate::violation!("redrawing failed: {e}");
        }
        st.inc("prompts_changed");
        if !look.earlier.is_empty() {
            st.inc("prompts_changed_to_several_lines");
        }
        let had = self.l.m.hint.clone();
        self.look_at(Key::Null, false, had.map(|h| h.0), st)
    }

    /// The window becomes wider or narrower, while nothing on it is cut off or wraps around.
    pub fn resize(&mut self, r: &mut Rng, st: &mut Stats) {
        let f = self.frame();
        if f.page.r > 0 {
            return;
        }
        let vt = &mut self.scr.vt;
        let full = (0..vt.rows.len())
            .map(|i| crate::render::width(&vt.row_text(i)))
            .max()
            .unwrap_or(0);
        let least = full.max(vt.col).max(f.page.c) + 2;
        if least > self.w || self.l.m.hint.is_some() || self.lingering.is_some() {
            return;
        }
        let w = match r.below(4) {
            0 => r.range(20, 200).max(least),
            1 => r.range(least, self.w),
            _ => least + r.below(8),
        }
        .max(4);
        let old = self.w;
        self.w = w;
        if w == old || self.room() > 18 || !self.fits() {
            self.w = old;
            return;
        }
        let vt = &mut self.scr.vt;
        vt.w = w;
        for row in &mut vt.rows {
            row.truncate(w);
        }
        self.l.s.tty.0.borrow_mut().width = w;
        let n = self.l.keys.len();
        self.l.head.push_str(&format!(" width={w} after {n} keys"));
        self.l.describe(st);
        st.inc(if w > old { "made_wider" } else { "made_narrower" });
    }

    /// An undo: the library says what the line is now.
    pub fn undo(&mut self, k: Key, st: &mut Stats) -> R {
        let had = self.l.m.hint.clone();
        self.l.adopting(k, st)?;
        self.look_at(k, false, had.map(|h| h.0), st)
    }

    /// Ctrl-L, unless it is an unknown key to a command begun.
    fn clears(&self, k: Key) -> bool {
        let waiting = self.l.m.vi().map(|v| v.pend != Pend::None).unwrap_or(false);
        k == Key::Ctrl('l') && !waiting
    }

    fn look_at(&mut self, k: Key, clear: bool, had: Option<Vec<String>>, st: &mut Stats) -> R {
        let out = self.l.s.tty.take_out();
        let redraws = out.windows(3).filter(|b| *b == b"\x1b[J").count();
        let redrawn = redraws > 0;
        let top = self.scr.vt.top;
        if redrawn && self.l.keys.len() % 8 == 5 {
            // another program was at it
            self.scr.vt.feed(b"\x1b[?1h\x1b[?1000h");
        }
        self.scr.vt.feed(&out);
        if redrawn {
            self.lingering = None;
        }
        if self.l.m.hint.is_none() && had.is_some() {
            self.lingering = had;
        }
        if clear {
            self.lingering = None;
            self.scr.origin = self.scr.vt.top;
            self.scr.above.truncate(self.scr.vt.top);
        }
        let mut f = self.frame();
        self.over |= f.page.rows.len() + self.room() > self.h;
        if self.over {
            st.inc("too_high_for_the_screen");
            return Ok(());
        }
        if self.l.m.pending() && self.status.is_some() {
            // c shows insert mode while it waits for a motion already
            let g = {
                let i = self.status.clone().unwrap().1;
                frame_of(&self.l.m, &self.base, Some(&(i.clone(), i)), self.w)
            };
            if self.scr.compare(&g, self.scr.origin, true).is_ok() {
                f = g;
            }
        }
        let r = match (&self.l.m.hint, &self.lingering) {
            (Some((c, _)), _) => {
                let c = c.clone();
                self.scr.expect(&f, Some(&c), false)
            }
            (None, Some(c)) => {
                let c = c.clone();
                self.scr.expect(&f, Some(&c), true)
            }
            _ => self.scr.expect(&f, None, false),
        };
        // what one redraw scrolls away has made room for its last row
        let r = r.and_then(|()| {
            if self.scr.vt.top > top && redraws == 1 && !clear {
                st.inc("scrolled");
                let last = self.scr.at + f.last_row.max(f.cursor.0);
                let bottom = self.scr.vt.top + self.h - 1;
                ensure!(
                    last >= bottom,
                    "scrolled by {}, which leaves {} empty rows at the bottom\n{}",
                    self.scr.vt.top - top,
                    bottom - last,
                    self.scr.vt.dump()
                );
            }
            Ok(())
        });
        st.inc("screens_compared");
        if f.page.r > 0 {
            st.inc("screens_of_several_rows");
        }
        if self.l.m.hint.is_some() {
            st.inc("screens_with_list");
        }
        if self.l.m.search.is_some() {
            st.inc("screens_in_search");
        }
        if f.page.c == self.w {
            st.inc("screens_line_fills_row");
        }
        if self.l.m.search.is_none() && self.l.m.loc.is_none() && self.l.m.suggestion().is_some() {
            st.inc("screens_with_suggestion");
        }
        r.map_err(|e| match e {
            crate::fw::Stop::Violation(v) => crate::fw::Stop::Violation(format!(
                "after key {} ({}), line {:?}, cursor {}: {v}",
                self.l.keys.len(),
                key_str(k),
                self.l.m.string(),
                self.l.m.cursor
            )),
            e => e,
        })
    }
}

/// The configuration and keys of a session to look at.
/// Instead of a key's seed: Tab, while there is a list.
pub const TAB: u64 = u64::MAX;

pub struct Plan {
    pub look: Look,
    pub cands: Vec<String>,
    pub seeds: Vec<u64>,
    pub alpha: Alpha,
}

pub fn plan(r: &mut Rng, vi: bool, wide_ok: bool) -> Plan {
    let many = if r.chance(1, 300) { r.range(60, 400) } else { 0 };
    let width = match r.below(6) {
        _ if many > 0 => r.range(200, 400),
        0 => r.range(4, 12),
        1 | 2 => r.range(8, 30),
        3 => 80,
        4 => r.range(20, 100),
        // some are very wide
        _ if r.chance(1, 3) => r.range(100, 400),
        _ => r.range(60, 170),
    };
    let alpha = Alpha {
        space: 15,
        backslash: 4,
        newline: 0,
        odd: if wide_ok { *r.pick(&[0, 5, 30]) } else { 0 },
        small: r.range(1, 6),
    };
    let mut look = look(r, vi, width);
    let ha = Alpha {
        newline: *r.pick(&[0, 0, 6]),
        ..alpha
    };
    look.cfg.hist = history(r, 6, &ha);
    if r.chance(1, 3) {
        // lines about as long as the terminal is wide
        let mut n = width.saturating_sub(r.below(8)).max(1);
        if r.chance(1, 20) {
            // several times that
            n += width * r.range(1, 8);
        }
        look.cfg.init = (0..n).map(|_| alpha.ch(r)).collect();
    } else if r.chance(1, 3) {
        look.cfg.init = ha.text(r, 12);
    }
    let cands: Vec<String> = match r.below(3) {
        _ if many > 0 => {
            let p = PLAIN.text1(r, 3);
            (0..many).map(|i| format!("{p}{i}")).collect()
        }
        0 => vec![],
        1 => {
            let n = r.range(2, 12);
            let odd = if r.chance(1, 3) { 25 } else { 0 };
            let max = if r.chance(1, 8) { 30 } else { 7 };
            let mut v: Vec<String> = (0..n)
                .map(|_| Alpha { odd, ..PLAIN }.text1(r, max))
                .collect();
            // something of each has to be seen
            for c in &mut v {
                if c.chars().all(|x| "\u{301}\u{308} ".contains(x)) {
                    c.push('x');
                }
            }
            // the list has to fit into the window, too
            while max > 7
                && v.iter()
                    .map(|c| c.chars().count() * 2 / width + 1)
                    .sum::<usize>()
                    > 12
            {
                v.pop();
            }
            v
        }
        _ => {
            let p = PLAIN.text1(r, 3);
            (0..r.range(1, 4))
                .map(|i| format!("{p}{}", i * 7))
                .collect()
        }
    };
    let n = steps(r, 5, 40);
    let mut seeds: Vec<u64> = (0..n).map(|_| r.next() >> 1).collect();
    if many > 0 {
        // all the way round
        let at = r.below(n);
        let tabs = many + r.below(20);
        seeds.splice(at..at, (0..tabs).map(|_| TAB));
    }
    Plan {
        look,
        cands,
        seeds,
        alpha,
    }
}

fn answer(cands: Vec<String>) -> impl Fn(&str) -> Vec<String> + Clone + 'static {
    move |_: &str| cands.clone()
}

impl Check for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (120_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if at least five screens of more than one row, with a suggestion, a search or a list were compared; distinct by configuration and keys"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the terminal behaves like xterm: deferred wrap, cursor moves clamped to the window; prompt, line and list fit into the window",
            "no tabs or other control characters in the text",
            "the list of completions a key ends may stay until the next redraw",
        ]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "screens_compared",
            "screens_of_several_rows",
            "screens_with_list",
            "screens_in_search",
            "screens_with_suggestion",
            "screens_line_fills_row",
            "undos",
            "prompts_changed",
            "prompts_changed_to_several_lines",
            "made_wider",
            "made_narrower",
            "cleared",
            "scrolled",
            "keys_and_mouse_reported_otherwise",
            "tabs_through_long_lists",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let vi = r.chance(1, 2);
        let Plan {
            look,
            cands,
            seeds,
            alpha,
        } = plan(&mut r, vi, true);
        let mut r2 = Rng::new(r.next(), "c08", 0);
        let seeds = case.keep.filter(seeds);
        let mut s = Shown::start(&mut r2, look, answer(cands.clone()), st)?;
        s.l.head = format!("{} completions={cands:?}", s.l.head);
        let mut interesting = 0;
        for seed in seeds {
            let mut r = Rng::new(seed, "c08k", 0);
            if !s.fits() {
                break;
            }
            let free = seed != TAB && s.l.m.vi().map(|v| v.count == 0).unwrap_or(true);
            if free && r.chance(1, 20) && s.l.m.search.is_none() && (!vi || s.l.m.normal()) {
                st.inc("undos");
                s.undo(if vi { Key::Char('u') } else { Key::Ctrl('x') }, st)?;
                continue;
            }
            if seed != TAB && r.chance(1, 60) {
                s.set_prompt(&mut r, st)?;
                continue;
            }
            if seed != TAB && r.chance(1, 25) {
                s.resize(&mut r, st);
            }
            let mut k = if seed == TAB {
                st.inc("tabs_through_long_lists");
                Key::Char('\t')
            } else {
                live_key(&mut r, &s.l.m, &alpha)
            };
            if ends(&s.l.m, k) || !s.l.m.settled(k) {
                k = Key::Left;
                if !s.l.m.settled(k) {
                    continue;
                }
            }
            if k == Key::Ctrl('l') {
                st.inc("cleared");
            }
            s.key(k, st)?;
            if s.frame().page.r > 0
                || s.l.m.hint.is_some()
                || s.l.m.search.is_some()
                || s.l.m.suggestion().is_some()
            {
                interesting += 1;
            }
        }
        st.max("rows", s.scr.max_rows as u64);
        if interesting >= 5 {
            st.nontrivial(sig(&[&s.l.head, &keys_str(&s.l.keys)]));
        }
        st.sample(|| {
            format!(
                "{}\nkeys: {}\n{}",
                s.l.head,
                keys_str(&s.l.keys),
                s.scr.vt.dump()
            )
        });
        Ok(())
    }
}

impl Check for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (200_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if the line, when it was submitted, interrupted or cleared, filled more than one row, or had its cursor before its end, or a suggestion, search or list was shown; distinct by configuration and keys"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the terminal behaves like xterm; prompt, line and list fit into the window",
            "a line that exactly fills its last row may be followed by one more blank row",
            "a line that ends in a line feed may have the cursor on its last, empty row",
        ]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "submitted",
            "interrupted",
            "eof",
            "cleared",
            "several_rows",
            "cursor_inside",
            "with_suggestion",
            "with_search",
            "with_list",
            "line_fills_row",
            "made_wider",
            "made_narrower",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let vi = r.chance(1, 2);
        let Plan {
            look,
            cands,
            mut seeds,
            alpha,
        } = plan(&mut r, vi, true);
        seeds.truncate(16);
        let mut r2 = Rng::new(r.next(), "c09", 0);
        let how = r.below(8);
        let seeds = case.keep.filter(seeds);
        let mut s = Shown::start(&mut r2, look, answer(cands.clone()), st)?;
        s.l.head = format!("{} completions={cands:?}", s.l.head);
        for seed in seeds {
            let mut r = Rng::new(seed, "c09k", 0);
            if !s.fits() {
                break;
            }
            let k = live_key(&mut r, &s.l.m, &alpha);
            if ends(&s.l.m, k) || !s.l.m.settled(k) {
                continue;
            }
            if r.chance(1, 25) {
                s.resize(&mut r, st);
            }
            s.key(k, st)?;
        }
        if r2.chance(1, 8) {
            s.resize(&mut r2, st);
        }
        if !s.fits() {
            return Ok(());
        }
        let end = match how {
            0..=3 => Key::Char('\n'),
            4 => Key::Ctrl('c'),
            5 => {
                // empties the line for Ctrl-D
                let m = &s.l.m;
                if m.text().is_empty() {
                    Key::Ctrl('d')
                } else {
                    Key::Ctrl('c')
                }
            }
            _ => Key::Ctrl('l'),
        };
        if !s.l.m.settled(end) || end == Key::Ctrl('l') && !s.clears(end) {
            return Ok(());
        }
        let f = s.frame();
        let m = &s.l.m;
        let flags = [
            (f.page.r > 0, "several_rows"),
            (m.cursor < m.text().len(), "cursor_inside"),
            (
                m.suggestion().is_some() && m.search.is_none() && m.loc.is_none(),
                "with_suggestion",
            ),
            (m.search.is_some(), "with_search"),
            (m.hint.is_some(), "with_list"),
            (f.page.c == s.w, "line_fills_row"),
        ];
        let normal = m.normal();
        if end == Key::Ctrl('l') {
            let before = (s.l.s.text(), s.l.s.ed.cursor(), s.l.m.loc);
            let searching = s.l.m.search.is_some();
            s.key(end, st)?;
            if s.over {
                return Ok(());
            }
            st.inc("cleared");
            let after = (
                s.l.s.text(),
                s.l.s.ed.cursor(),
                s.l.s.ed.current_history_location(),
            );
            if !searching {
                ensure!(
                    before == after,
                    "Ctrl-L changed text, cursor and place from {before:?} to {after:?}"
                );
            }
            // nothing else in the window
            for row in s.scr.vt.top + s.frame().page.rows.len()..s.scr.vt.top + s.h {
                let t = s.scr.vt.row_text(row);
                ensure!(t.is_empty(), "Ctrl-L left {t:?} on the screen");
            }
        } else {
            let out = s.l.key(end, st)?;
            let bytes = s.l.s.tty.take_out();
            s.scr.vt.feed(&bytes);
            if out == Out::Go {
                // it was a continuation or put away a list
                return Ok(());
            }
            st.inc(match out {
                Out::Done(_) => "submitted",
                Out::Interrupted => "interrupted",
                _ => "eof",
            });
            self.ended(&mut s, normal)?;
        }
        for (b, n) in flags {
            if b {
                st.inc(n);
            }
        }
        if flags.iter().any(|f| f.0) {
            st.nontrivial(sig(&[&s.l.head, &keys_str(&s.l.keys)]));
        }
        st.sample(|| {
            format!(
                "{}\nkeys: {}\n{}",
                s.l.head,
                keys_str(&s.l.keys),
                s.scr.vt.dump()
            )
        });
        Ok(())
    }
}

impl C09 {
    fn ended(&self, s: &mut Shown, normal: bool) -> R {
        use crate::render::{frame, prompt_of};
        let m = &s.l.m;
        let (p, _) = prompt_of(m, &s.base, s.status.as_ref());
        let mut f = frame(&p, m.text(), m.text().len(), m.text().len(), s.w, None);
        if m.pending() && s.status.is_some() {
            let i = s.status.clone().unwrap().1;
            let (p, _) = prompt_of(m, &s.base, Some(&(i.clone(), i)));
            let g = frame(&p, m.text(), m.text().len(), m.text().len(), s.w, None);
            if s.scr.compare(&g, s.scr.origin, false).is_ok() {
                f = g;
            }
        }
        let text = m.string();
        s.scr.check_clean()?;
        let origin = s.scr.origin;
        let above: Vec<String> = s.scr.above.clone();
        for (r, t) in above.iter().enumerate() {
            ensure!(
                s.scr.vt.row_text(r) == *t,
                "row {r} above the prompt changed from {t:?}\n{}",
                s.scr.vt.dump()
            );
        }
        if let Err(e) = s.scr.compare(&f, origin, false) {
            crate::violation!(
                "after the end of the line {text:?}: {e}\n{}",
                s.scr.vt.dump()
            );
        }
        let (row, col) = s.scr.vt.cursor();
        let below = origin + f.page.r + 1;
        let ok = row == below
            || f.page.c == s.w && row == below + 1
            || normal
                && text.ends_with('\n')
                && row <= below
                && (row..below).all(|r| s.scr.vt.row_text(r).is_empty());
        ensure!(
            ok && col == 0,
            "after the end of the line {text:?} the cursor is at row {row} column {col}, not at the start of row {below}\n{}",
            s.scr.vt.dump()
        );
        Ok(())
    }
}

impl Check for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (240_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if suggestions of at least two different entries were shown or one was accepted; distinct by history and keys"
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "suggestion_shown",
            "no_suggestion",
            "accepted_right",
            "accepted_ctrl_f",
            "several_entries_extend",
            "only_equal_entry",
            "edited_recalled",
            "cursor_inside",
            "big_histories",
            "suggested_after_undo",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let vi = r.chance(1, 2);
        let a = Alpha {
            small: r.range(1, 3),
            odd: *r.pick(&[0, 6]),
            newline: 0,
            backslash: 2,
            ..WORDS
        };
        let mut lk = Look {
            cfg: Cfg::plain(vi),
            last_line: "$ ".into(),
            earlier: vec![],
        };
        lk.cfg.width = *r.pick(&[30, 150]);
        let newline = *r.pick(&[0, 5]);
        lk.cfg.hist = history(&mut r, 10, &Alpha { newline, ..a });
        if r.chance(1, 150) {
            enlarge(&mut r, &mut lk.cfg.hist, &a);
            st.inc("big_histories");
        }
        if r.chance(1, 4) && !lk.cfg.hist.is_empty() {
            // the beginning of an entry, or all of it
            let e: Vec<char> = r.pick(&lk.cfg.hist).chars().collect();
            lk.cfg.init = e[..r.below(e.len() + 1)].iter().collect();
        }
        let n = steps(&mut r, 4, 30);
        let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
        let mut r2 = Rng::new(r.next(), "c10", 0);
        let seeds = case.keep.filter(seeds);
        let mut s = Shown::start(&mut r2, lk, |_: &str| vec![], st)?;
        let mut shown: Vec<Vec<char>> = vec![];
        let mut accepted = false;
        for seed in seeds {
            let mut r = Rng::new(seed, "c10k", 0);
            if !s.fits() {
                break;
            }
            let free = s.l.m.vi().map(|v| v.count == 0).unwrap_or(true);
            let back = free
                && r.chance(1, 12)
                && s.l.m.search.is_none()
                && (!vi || s.l.m.normal());
            let m = &s.l.m;
            let k = match r.below(12) {
                0..=3 => {
                    // go on as some entry does
                    let t = m.text().clone();
                    let next: BTreeSet<char> = m
                        .hist
                        .iter()
                        .filter(|h| h.len() > t.len() && h[..t.len()] == t[..])
                        .map(|h| h[t.len()])
                        .filter(|c| *c != '\n')
                        .collect();
                    if next.is_empty() || !m.inserting() {
                        live_key(&mut r, m, &a)
                    } else {
                        let next: Vec<char> = next.into_iter().collect();
                        Key::Char(*r.pick(&next))
                    }
                }
                4 => Key::Right,
                5 => Key::Ctrl('f'),
                6 => *r.pick(&[Key::Left, Key::Home, Key::End]),
                _ => live_key(&mut r, m, &a),
            };
            if !back && (ends(m, k) || !m.settled(k) || k == Key::Char('\t')) {
                continue;
            }
            let was = m
                .suggestion()
                .cloned()
                .filter(|_| m.loc.is_none() && m.search.is_none() && !back);
            let at_end = m.cursor == m.text().len();
            if back {
                s.undo(if vi { Key::Char('u') } else { Key::Ctrl('x') }, st)?;
                if s.l.m.suggestion().is_some() {
                    st.inc("suggested_after_undo");
                }
            } else {
                s.key(k, st)?;
            }
            let m = &s.l.m;
            if let (Some(e), Key::Right | Key::Ctrl('f')) = (&was, k) {
                if m.text() == e && (at_end || k == Key::Ctrl('f')) {
                    accepted = true;
                    st.inc(if k == Key::Right {
                        "accepted_right"
                    } else {
                        "accepted_ctrl_f"
                    });
                }
            }
            if m.loc.is_some() && m.work.is_some() && m.work.as_ref() != m.loc.map(|i| &m.hist[i]) {
                st.inc("edited_recalled");
                ensure!(
                    !s.l.s.ed.is_currently_showing_autosuggestion(),
                    "a suggestion is shown for a changed entry of the history"
                );
            }
            if m.loc.is_none() && m.search.is_none() {
                let want = m.suggestion();
                ensure!(
                    s.l.s.ed.is_currently_showing_autosuggestion() == want.is_some(),
                    "for the line {:?} a suggestion is {}shown, it must be {:?}",
                    m.string(),
                    if want.is_some() { "not " } else { "" },
                    want.map(|w| w.iter().collect::<String>())
                );
                match want {
                    Some(w) => {
                        st.inc("suggestion_shown");
                        if m.cursor < m.text().len() {
                            st.inc("cursor_inside");
                        }
                        if m.hist
                            .iter()
                            .filter(|h| crate::model::extends(h, &m.new))
                            .count()
                            > 1
                        {
                            st.inc("several_entries_extend");
                        }
                        if !shown.contains(w) {
                            shown.push(w.clone());
                        }
                    }
                    None => {
                        st.inc("no_suggestion");
                        if !m.new.is_empty() && m.hist.contains(&m.new) {
                            st.inc("only_equal_entry");
                        }
                    }
                }
            }
        }
        if shown.len() >= 2 || accepted {
            st.nontrivial(sig(&[&s.l.head, &keys_str(&s.l.keys)]));
        }
        st.sample(|| {
            format!(
                "{}\nkeys: {}\n{}",
                s.l.head,
                keys_str(&s.l.keys),
                s.scr.vt.dump()
            )
        });
        Ok(())
    }
}

impl C27 {
    /// What is not part of the line is told apart; `chosen` is the completion in the line.
    fn looks(&self, s: &Shown, own: bool, seen: &mut [Option<(u16, u16)>; 2], st: &mut Stats) -> R {
        let vt = &s.scr.vt;
        let f = s.frame();
        let m = &s.l.m;
        let found = m.search.as_ref().map(|s| s.pos.is_some());
        let mut sought = None;
        let mut extra = None;
        let mut list = vec![];
        for r in 0..f.page.rows.len() {
            for (c, (x, tag)) in f.page.rows[r].iter().zip(&f.page.tags[r]).enumerate() {
                let cell = match vt.rows.get(s.scr.at + r).and_then(|l| l.get(c)) {
                    Some(cell) if !matches!(x.base(), None | Some(' ' | '\u{a0}' | '\u{3000}')) => cell,
                    _ => continue,
                };
                let have = (cell.fg, cell.bg);
                let odd = |what: &str| -> R {
                    violation!(
                        "{what}: {x:?} in row {r}, column {c} from the prompt has the colours {have:?}\n{}",
                        vt.dump()
                    )
                };
                match tag {
                    Tag::Text if own => {
                        if have != (39, 49) {
                            odd("text of the line is not plain")?;
                        }
                        st.inc("cells_of_text");
                    }
                    Tag::Suggestion => {
                        if have == (39, 49) || *extra.get_or_insert(have) != have {
                            odd("a suggestion must be in a colour of its own")?;
                        }
                        st.inc("cells_of_suggestions");
                        if r > 0 {
                            st.inc("suggestions_below");
                        }
                    }
                    Tag::Match if own && found == Some(true) => {
                        if have == (39, 49) || *extra.get_or_insert(have) != have {
                            odd("a match must be in a colour of its own")?;
                        }
                        st.inc("cells_of_matches");
                    }
                    Tag::Sought => {
                        if *sought.get_or_insert(have) != have {
                            odd("the text to search for must be in one colour")?;
                        }
                        st.inc("cells_sought");
                    }
                    _ => {}
                }
            }
        }
        if let (Some(found), Some(have)) = (found, sought) {
            let (mine, other) = (found as usize, !found as usize);
            let was = *seen[mine].get_or_insert(have);
            ensure!(
                was == have && seen[other] != Some(have),
                "the text to search for is in the colours {have:?} if {}; before, it was {seen:?} (none found, found)",
                if found { "something is found" } else { "nothing is found" }
            );
            if seen[other].is_some() {
                st.inc("searches_told_apart");
            }
        }
        if let Some((cands, i)) = &m.hint {
            for row in s.scr.origin..s.scr.at {
                for cell in vt.rows.get(row).map(|l| &l[..]).unwrap_or(&[]) {
                    for ch in cell.s.chars() {
                        if crate::render::seen(ch) {
                            list.push((cell.fg, cell.bg));
                        }
                    }
                }
            }
            let mut at = 0;
            let mut plain = None;
            let mut high = None;
            for (k, cand) in cands.iter().enumerate() {
                for _ in cand.chars().filter(|c| crate::render::seen(*c)) {
                    let have = list.get(at).copied().unwrap_or((0, 0));
                    at += 1;
                    let slot = if Some(k) == *i { &mut high } else { &mut plain };
                    let was = *slot.get_or_insert(have);
                    ensure!(
                        was == have,
                        "of the completions {cands:?}, {} in the line, {cand:?} has the colours {have:?}, where {was:?} were seen\n{}",
                        i.map_or("none".into(), |i| format!("number {i}")),
                        vt.dump()
                    );
                    st.inc("cells_of_lists");
                }
            }
            if let (Some(a), Some(b)) = (plain, high) {
                ensure!(
                    a != b,
                    "the completion in the line looks like the others, {a:?}\n{}",
                    vt.dump()
                );
                st.inc("chosen_told_apart");
            }
        }
        ensure!(
            (vt.fg, vt.bg) == (39, 49),
            "the colours {:?} are left in force",
            (vt.fg, vt.bg)
        );
        Ok(())
    }
}

impl Check for C27 {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (120_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if suggestions, matches or chosen completions were looked at on five screens; distinct by configuration and keys"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["prompts and colourings reset their own colours; which colours are used is left open"]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "cells_of_text",
            "cells_of_suggestions",
            "suggestions_below",
            "cells_of_matches",
            "cells_sought",
            "searches_told_apart",
            "cells_of_lists",
            "chosen_told_apart",
            "tabs_through_long_lists",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let vi = r.chance(1, 3);
        let Plan {
            mut look,
            cands,
            seeds,
            alpha,
        } = plan(&mut r, vi, true);
        let mut parts = vec![look.last_line.clone(), look.cfg.prompt.clone()];
        if let Some((a, b)) = &look.cfg.status {
            parts.extend([a.clone(), b.clone()]);
        }
        let leaves = |p: &String| {
            let mut scratch = Vt::new(500, 50);
            scratch.feed(p.as_bytes());
            (scratch.fg, scratch.bg) != (39, 49)
        };
        if parts.iter().any(leaves) {
            look.last_line = "$ ".into();
            look.cfg.prompt = "$ ".into();
            look.cfg.status = None;
            look.earlier = vec![];
        }
        let own = look.cfg.colour.is_none();
        let mut r2 = Rng::new(r.next(), "c27", 0);
        let seeds = case.keep.filter(seeds);
        let mut s = Shown::start(&mut r2, look, answer(cands.clone()), st)?;
        s.l.head = format!("{} completions={cands:?}", s.l.head);
        let mut n = 0;
        let mut seen = [None, None];
        for seed in seeds {
            let mut r = Rng::new(seed, "c27k", 0);
            if !s.fits() {
                break;
            }
            let k = match r.below(12) {
                _ if seed == TAB => {
                    st.inc("tabs_through_long_lists");
                    Key::Char('\t')
                }
                0..=2 => Key::Char('\t'),
                3 if s.l.m.search.is_none() => *r.pick(&[Key::Ctrl('r'), Key::Ctrl('s')]),
                4..=6 if s.l.m.inserting() => {
                    // as some entry begins or goes on
                    let t = s.l.m.text().clone();
                    let next: Vec<char> = s
                        .l
                        .m
                        .hist
                        .iter()
                        .filter(|h| h.len() > t.len() && h[..t.len()] == t[..])
                        .map(|h| h[t.len()])
                        .filter(|c| *c != '\n')
                        .collect();
                    if next.is_empty() {
                        live_key(&mut r, &s.l.m, &alpha)
                    } else {
                        Key::Char(*r.pick(&next))
                    }
                }
                _ => live_key(&mut r, &s.l.m, &alpha),
            };
            if ends(&s.l.m, k) || !s.l.m.settled(k) {
                continue;
            }
            s.key(k, st)?;
            if s.over {
                break;
            }
            s.l.describe(st);
            let m = &s.l.m;
            // c shows insert mode while it waits, and a list may linger: where things are is C08's
            if m.pending() || s.lingering.is_some() {
                continue;
            }
            self.looks(&s, own, &mut seen, st)?;
            let m = &s.l.m;
            if m.search.is_some() || m.hint.is_some() || m.loc.is_none() && m.suggestion().is_some() {
                n += 1;
            }
        }
        if n >= 5 {
            st.nontrivial(sig(&[&s.l.head, &crate::sess::keys_str(&s.l.keys)]));
        }
        Ok(())
    }
}
