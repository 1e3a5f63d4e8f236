//! C01 no panic or hang; C02 outcome of a session; C03 Emacs keys.
use std::io;

use liner::{EditorContext, Key};

use crate::fw::{Case, Check, Stats, Tier, R};
use crate::gen::{enlarge, history, long, sig, steps, Alpha, PLAIN, WORDS};
use crate::lock::{describe, Lock};
use crate::model::{Model, Out, DIVIDERS};
use crate::rng::Rng;
use crate::sess::{key_str, keys_str, Cfg, Comp, Sess};
use crate::tty::MockTty;
use crate::{ensure, violation};

pub struct C01;
pub struct C02;
pub struct C03;

/// Any key there is, with those that mean something drawn most often.
pub fn any_key(r: &mut Rng, vi: bool, a: &Alpha) -> Key {
    match r.below(100) {
        0..=29 => Key::Char(a.ch(r)),
        30..=54 if vi => Key::Char(*r.pick(&[
            'h', 'l', 'w', 'W', 'b', 'B', 'e', 'E', 'g', '0', '^', '$', 'f', 'F', 't', 'T', ';',
            ',', 'i', 'a', 'I', 'A', 'x', 'D', 'C', 's', 'r', '~', 'd', 'c', '.', 'u', 'j', 'k',
            '1', '2', '3', '9', ' ',
        ])),
        55..=62 if vi => Key::Esc,
        30..=44 => Key::Ctrl(*r.pick(&[
            'a', 'b', 'e', 'f', 'd', 'h', 'k', 'l', 'n', 'p', 'u', 'w', 'x', 'r', 's',
        ])),
        45..=54 => Key::Alt(*r.pick(&['<', '>', 'b', 'f', 'r', '.', '\x7f'])),
        55..=62 => *r.pick(&[Key::Up, Key::Down, Key::Left, Key::Right]),
        63..=66 => Key::Char('\t'),
        67..=69 => Key::Char('\n'),
        70..=74 => *r.pick(&[Key::Ctrl('r'), Key::Ctrl('s')]),
        75..=88 => *r.pick(&[
            Key::Up,
            Key::Down,
            Key::Left,
            Key::Right,
            Key::Home,
            Key::End,
            Key::Backspace,
            Key::Delete,
        ]),
        89..=91 => *r.pick(&[
            Key::PageUp,
            Key::PageDown,
            Key::Insert,
            Key::BackTab,
            Key::Null,
            Key::F(5),
            Key::Esc,
        ]),
        92..=94 => Key::Ctrl((b'a' + r.below(26) as u8) as char),
        95..=96 => Key::Alt((33 + r.below(94) as u8) as char),
        97 => Key::Ctrl(*r.pick(&['[', '\\', ']', '^', '_'])),
        _ => Key::Char('\\'),
    }
}

/// Keeps counts below a hundred, whatever is pressed between their digits.
#[derive(Default)]
pub struct Digits(usize);

impl Digits {
    pub fn ok(&mut self, k: Key) -> bool {
        match k {
            Key::Char('0'..='9') => {
                self.0 += 1;
                self.0 <= 2
            }
            Key::Esc | Key::Ctrl('c') => {
                self.0 = 0;
                true
            }
            Key::Char('h' | 'l' | 'x' | 'w' | 'b' | '$') => {
                // these use a count up, in normal mode; elsewhere there is none
                self.0 = self.0.min(2);
                true
            }
            _ => true,
        }
    }
}

/// Normal-mode commands with counts of many digits, none of which repeats an insert.
fn huge_counts(r: &mut Rng, a: &Alpha) -> Vec<Key> {
    let mut v = vec![];
    let typed = |v: &mut Vec<Key>, r: &mut Rng, n: usize| {
        for _ in 0..r.range(0, n) {
            // after a change that failed these are commands
            let c = a.ch(r);
            v.push(Key::Char(if c.is_ascii_digit() { 'k' } else { c }));
        }
    };
    typed(&mut v, r, 20);
    v.push(Key::Esc);
    for _ in 0..r.range(2, 10) {
        let num = |v: &mut Vec<Key>, r: &mut Rng| {
            let n = *r.pick(&[0, 1, 4, 5, 6, 9, 10, 11, 24]);
            for i in 0..n {
                let d = if i == 0 { r.range(1, 9) } else { r.below(10) };
                v.push(Key::Char((b'0' + d as u8) as char));
            }
        };
        num(&mut v, r);
        let motion = |v: &mut Vec<Key>, r: &mut Rng| match r.below(12) {
            0 => v.extend([Key::Char('g'), Key::Char(*r.pick(&['e', 'E', 'g']))]),
            1 => v.extend([
                Key::Char(*r.pick(&['f', 'F', 't', 'T'])),
                Key::Char(a.ch(r)),
            ]),
            2 => v.push(*r.pick(&[Key::Left, Key::Right, Key::Home, Key::End, Key::Backspace])),
            _ => v.push(Key::Char(*r.pick(&[
                'h', 'l', 'w', 'W', 'b', 'B', 'e', 'E', '$', '^', ';', ',', ' ',
            ]))),
        };
        match r.below(10) {
            0 | 1 => motion(&mut v, r),
            2 | 3 => {
                v.push(Key::Char('d'));
                num(&mut v, r);
                motion(&mut v, r);
            }
            4 => {
                v.push(Key::Char('c'));
                num(&mut v, r);
                motion(&mut v, r);
                typed(&mut v, r, 5);
                v.push(Key::Esc);
                v.push(Key::Esc);
            }
            5 => v.extend([Key::Char('r'), *r.pick(&[Key::Char('q'), Key::Esc])]),
            6 => {
                v.push(Key::Char(*r.pick(&['s', 'C'])));
                typed(&mut v, r, 5);
                v.extend([Key::Esc, Key::Esc]);
            }
            7 => v.push(Key::Char(*r.pick(&['x', 'D', '~', 'u', 'j', 'k']))),
            8 => v.push(*r.pick(&[Key::Delete, Key::Up, Key::Down, Key::Home, Key::Esc])),
            _ => {
                // without a count: an insert, or the last change again
                v.push(Key::Esc);
                if r.chance(1, 2) {
                    v.push(Key::Char('.'));
                } else {
                    v.push(Key::Char(*r.pick(&['i', 'a', 'A', 'I'])));
                    typed(&mut v, r, 5);
                    v.push(Key::Esc);
                }
            }
        }
    }
    v
}

fn odd_prompt(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "one\ntwo\n> ".into(),
        2 => "\x1b[31mred\x1b[0m$ ".into(),
        3 => "\x1b]0;title\x07漢字> ".into(),
        4 => "\n".into(),
        5 => "a long prompt that is wider than most of the terminals here: ".into(),
        6 => "\x1b[".into(),
        _ => "$ ".into(),
    }
}

impl Check for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (480_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if it reached at least three of: a recalled line, a search, a suggestion, a list of completions, a multi-line text, a non-empty undo; distinct by the keys pressed"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "terminal width at least 1; counts of vi commands that repeat an insert below about a hundred, others of up to 24 digits; lines up to a few thousand characters",
            "built with overflow checks and debug assertions",
        ]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "keys",
            "saw_recalled",
            "saw_suggestion",
            "saw_multiline",
            "saw_ended",
            "narrow_terminals",
            "saw_list",
            "huge_counts",
            "big_cases",
            "long_sessions",
        ]
    }
    fn case_cpu_limit(&self) -> f64 {
        20.0
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let vi = r.chance(1, 2);
        let a = Alpha {
            space: 15,
            backslash: 5,
            newline: 0,
            odd: r.below(15),
            small: r.range(1, 8),
        };
        let mut hist_a = a;
        hist_a.newline = r.below(6);
        let width = if r.chance(1, 3) {
            r.range(1, 12)
        } else {
            r.range(13, 120)
        };
        let mut cfg = Cfg {
            vi,
            prompt: odd_prompt(&mut r),
            status: if r.chance(1, 3) {
                Some(("[N] ".into(), "[I] ".into()))
            } else {
                None
            },
            width,
            hist: history(&mut r, 12, &hist_a),
            init: if r.chance(1, 3) {
                hist_a.text(&mut r, 30)
            } else {
                String::new()
            },
            colour: if r.chance(1, 4) {
                Some(Box::new(|s: &str| format!("\x1b[32m{s}\x1b[0m")))
            } else {
                None
            },
            divide: r.chance(1, 4).then(|| *r.pick(DIVIDERS)),
        };
        let n = steps(&mut r, 5, 70);
        let mut ks: Vec<Key> = vec![];
        let mut d = Digits::default();
        while ks.len() < n {
            let k = any_key(&mut r, vi, &a);
            // a long session must not end early
            if n > 70 && matches!(k, Key::Char('\n') | Key::Ctrl('c' | 'd')) {
                continue;
            }
            if d.ok(k) {
                ks.push(k);
            }
        }
        if n > 70 {
            st.inc("long_sessions");
        }
        if vi && r.chance(1, 5) {
            ks = huge_counts(&mut r, &a);
            st.inc("huge_counts");
        }
        let mut cands: Vec<String> = (0..r.below(5)).map(|_| a.text(&mut r, 6)).collect();
        if r.chance(1, 300) {
            st.inc("big_cases");
            match r.below(3) {
                0 => enlarge(&mut r, &mut cfg.hist, &hist_a),
                1 => cfg.init = long(&mut r, &hist_a),
                _ => {
                    for _ in 0..r.range(100, 600) {
                        let c = a.text(&mut r, 12);
                        cands.push(c);
                    }
                }
            }
        }
        let widths: Vec<usize> = (0..4).map(|_| r.range(1, 40)).collect();
        let change_width = r.chance(1, 4);
        let ks = case.keep.filter(ks);
        if width < 8 {
            st.inc("narrow_terminals");
        }
        st.desc = format!(
            "{} completions={cands:?}{}\nkeys: ",
            describe(&cfg),
            if change_width {
                format!(" then widths {widths:?}")
            } else {
                String::new()
            }
        );
        let comp = if r.chance(1, 2) {
            Comp::fixed(cands)
        } else {
            Comp::prefix(cands)
        };
        let desc0 = st.desc.clone();
        let mut s = match Sess::start(cfg, comp) {
            Ok(s) => s,
            Err(e) => violation!("starting the editor failed: {e}"),
        };
        let mut seen = [false; 6];
        for (i, k) in ks.iter().enumerate() {
            st.desc.push(' ');
            st.desc.push_str(&key_str(*k));
            if change_width && i % 8 == 7 {
                s.tty.0.borrow_mut().width = widths[(i / 8) % 4];
            }
            st.inc("keys");
            let res = s.key(*k);
            let (t, c) = (s.text(), s.ed.cursor());
            ensure!(
                c <= t.chars().count(),
                "after key {} the cursor {c} is outside the line {t:?}",
                i + 1
            );
            seen[0] |= s.ed.current_history_location().is_some();
            seen[1] |= s.ed.is_currently_showing_autosuggestion();
            seen[2] |= t.contains('\n');
            let out = s.tty.take_out();
            let o = String::from_utf8_lossy(&out);
            seen[3] |= o.contains("(search)");
            seen[4] |= o.contains("\x1b[47m") || o.contains("\x1b[48;5;7m");
            seen[5] |= matches!(k, Key::Ctrl('x') | Key::Char('u'));
            match res {
                Ok(false) => {}
                Ok(true) => {
                    st.inc("saw_ended");
                    break;
                }
                Err(e)
                    if e.kind() == io::ErrorKind::Interrupted
                        || e.kind() == io::ErrorKind::UnexpectedEof =>
                {
                    st.inc("saw_ended");
                    break;
                }
                Err(e) => violation!("key {} ({}) gave the error {e}", i + 1, key_str(*k)),
            }
            if t.chars().count() > 3000 {
                break;
            }
        }
        for (b, name) in seen.iter().zip([
            "saw_recalled",
            "saw_suggestion",
            "saw_multiline",
            "saw_search",
            "saw_list",
            "saw_undo",
        ]) {
            if *b {
                st.inc(name);
            }
        }
        if seen.iter().filter(|b| **b).count() >= 3 {
            st.nontrivial(sig(&[&desc0, &keys_str(&ks)]));
        }
        st.sample(|| format!("{desc0}{}", keys_str(&ks)));
        // ending the session in whatever state it is in
        let _: String = s.ed.into();
        Ok(())
    }
}

/// Keys for whole sessions whose meaning the model knows, with ways of ending mixed in.
fn session_key(r: &mut Rng, vi: bool, normal: bool, a: &Alpha) -> Key {
    match r.below(30) {
        0..=8 if !normal => Key::Char(a.ch(r)),
        0..=4 => Key::Char(*r.pick(&['i', 'a', 'A', 'I'])),
        5..=8 => Key::Char(*r.pick(&['h', 'l', 'w', 'b', '0', '$', 'x', 'D'])),
        9 => Key::Char('\\'),
        10 => Key::Backspace,
        11 => *r.pick(&[Key::Left, Key::Right]),
        12 => *r.pick(&[Key::Home, Key::End]),
        13 | 14 => Key::Up,
        15 => Key::Down,
        16 => Key::Ctrl('r'),
        17 => Key::Ctrl('s'),
        18 => Key::Ctrl('f'),
        19 => Key::Char('\t'),
        20 | 21 if vi => Key::Esc,
        20 => Key::Ctrl('u'),
        21 => Key::Ctrl('k'),
        22 => Key::Ctrl('l'),
        23 => Key::Ctrl('d'),
        24 => Key::Delete,
        25..=27 => Key::Char('\n'),
        28 => Key::Ctrl('c'),
        _ => Key::Char(a.ch(r)),
    }
}

impl Check for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (1_200_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if the session ended with a non-empty line, or was interrupted, or ended by a failing or exhausted terminal after at least one edit; distinct by configuration and keys"
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "ended_enter",
            "ended_interrupted",
            "ended_eof",
            "ended_keys_exhausted",
            "ended_read_error",
            "enter_after_backslash",
            "enter_dismissed_list",
            "ended_on_recalled",
            "ended_in_search",
            "multi_line_result",
            "big_cases",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let vi = r.chance(1, 2);
        let a = Alpha {
            backslash: 8,
            odd: 2,
            newline: 0,
            ..WORDS
        };
        let mut cfg = Cfg {
            vi,
            prompt: "$ ".into(),
            status: None,
            width: *r.pick(&[20, 80, 200]),
            hist: history(&mut r, 6, &Alpha { newline: 4, ..a }),
            init: if r.chance(1, 4) {
                Alpha { newline: 4, ..a }.text(&mut r, 8)
            } else {
                String::new()
            },
            colour: None,
            divide: None,
        };
        let mut cands: Vec<String> = (0..r.range(2, 3)).map(|_| PLAIN.text1(&mut r, 4)).collect();
        if r.chance(1, 300) {
            st.inc("big_cases");
            let ha = Alpha { newline: 4, ..a };
            match r.below(3) {
                0 => enlarge(&mut r, &mut cfg.hist, &ha),
                1 => cfg.init = long(&mut r, &ha),
                _ => {
                    for _ in 0..r.range(100, 600) {
                        let c = PLAIN.text1(&mut r, 9);
                        cands.push(c);
                    }
                }
            }
        }
        let read_error = r.chance(1, 5);
        // The keys are drawn with the model at hand, and all handed over at once afterwards.
        let mut m = Model::new(vi, &cfg.hist, &cfg.init);
        let c2 = cands.clone();
        let answer = move |_: &str| c2.clone();
        let n = steps(&mut r, 0, 25);
        let mut drawn = vec![];
        {
            let mut m2 = m.clone();
            let mut tries = 0;
            while drawn.len() < n && tries < 200 + 4 * n {
                tries += 1;
                let k = session_key(&mut r, vi, !m2.inserting(), &a);
                let early = matches!(k, Key::Char('\n') | Key::Ctrl('c' | 'd')) && n > 25;
                if !m2.settled(k) || early && r.chance(19, 20) {
                    continue;
                }
                drawn.push(k);
                if m2.key(k, &answer) != Out::Go {
                    break;
                }
            }
        }
        let ks = case.keep.filter(drawn);
        // a key left out may have given another one a meaning that is not laid down
        let mut used = vec![];
        let mut want = Out::Go;
        let (mut lists, mut cont) = (0, 0);
        for k in ks {
            if !m.settled(k) {
                continue;
            }
            let had_list = m.hint.is_some();
            let len = m.text().len();
            if k == Key::Char('\n') {
                if m.search.is_some() {
                    st.inc("enter_in_search");
                }
                if m.loc.is_some() {
                    st.inc("enter_on_recalled");
                }
            }
            let (in_search, recalled) = (m.search.is_some(), m.loc.is_some());
            used.push(k);
            want = m.key(k, &answer);
            if k == Key::Char('\n') && want == Out::Go {
                if had_list {
                    lists += 1;
                } else if m.text().len() > len || in_search {
                    cont += 1;
                }
            }
            if want != Out::Go {
                if in_search {
                    st.inc("ended_in_search");
                }
                if recalled {
                    st.inc("ended_on_recalled");
                }
                break;
            }
        }
        st.add("enter_dismissed_list", lists);
        st.add("enter_after_backslash", cont);
        let kinds = [
            io::ErrorKind::Other,
            io::ErrorKind::BrokenPipe,
            io::ErrorKind::Interrupted,
            io::ErrorKind::InvalidData,
            io::ErrorKind::UnexpectedEof,
        ];
        let kind = *r.pick(&kinds);
        st.desc = format!(
            "{} completions={cands:?} read_line\nkeys: {}{}",
            describe(&cfg),
            keys_str(&used),
            if want != Out::Go {
                "".into()
            } else if read_error {
                format!(" then reading a key fails with {kind:?}")
            } else {
                " then no more keys".to_string()
            }
        );
        let tty = MockTty::new(cfg.width);
        {
            let mut t = tty.0.borrow_mut();
            t.keys = used.iter().map(|k| Ok(*k)).collect();
            if want == Out::Go && read_error {
                t.keys.push_back(Err(kind));
            } else if want != Out::Go {
                // more keys that must not be read
                t.keys.push_back(Ok(Key::Char('Q')));
            }
        }
        let mut ctx = crate::sess::context(&tty, &cfg.hist);
        if vi {
            ctx.key_bindings = liner::KeyBindings::Vi;
        }
        let mut comp = Comp::fixed(cands.clone());
        let prompt = cfg.prompt_value();
        let got = if cfg.init.is_empty() && r.chance(1, 2) {
            (&mut ctx).read_line(prompt, None, &mut comp)
        } else {
            (&mut ctx).read_line_with_init_buffer(prompt, &mut comp, None, cfg.init.as_str())
        };
        let left = tty.0.borrow().keys.len();
        match &want {
            Out::Done(t) => {
                st.inc("ended_enter");
                if t.contains('\n') {
                    st.inc("multi_line_result");
                }
                match &got {
                    Ok(g) => ensure!(g == t, "Enter returned {g:?}, the line is {t:?}"),
                    Err(e) => violation!("Enter gave the error {e:?}, the line is {t:?}"),
                }
            }
            Out::Interrupted | Out::Eof => {
                let k = if want == Out::Eof {
                    st.inc("ended_eof");
                    io::ErrorKind::UnexpectedEof
                } else {
                    st.inc("ended_interrupted");
                    io::ErrorKind::Interrupted
                };
                match &got {
                    Err(e) if e.kind() == k => {}
                    g => violation!("the session must end with {k:?}, it ended with {g:?}"),
                }
            }
            Out::Go if read_error => {
                st.inc("ended_read_error");
                match &got {
                    Err(e) if e.kind() == kind && e.to_string() == crate::tty::FAULT_MSG => {}
                    g => violation!(
                        "the error {kind:?} of reading a key must be returned, got {g:?}"
                    ),
                }
            }
            Out::Go => {
                st.inc("ended_keys_exhausted");
                let t = m.string();
                match &got {
                    Ok(g) => ensure!(
                        *g == t,
                        "at the end of the keys {g:?} was returned, the line is {t:?}"
                    ),
                    Err(e) => violation!("at the end of the keys there was the error {e:?}"),
                }
            }
        }
        ensure!(
            left == (want != Out::Go) as usize,
            "{left} keys were left unread"
        );
        if !m.text().is_empty() || want == Out::Interrupted {
            st.nontrivial(sig(&[&st.desc.clone()]));
        }
        st.add("keys", used.len() as u64);
        let d = st.desc.clone();
        st.sample(|| format!("{d} -> {got:?}"));
        Ok(())
    }
}

impl Check for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (600_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if at least five of its keys changed the line or the cursor; distinct by configuration and keys"
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "key_A-.",
            "key_C-w",
            "key_A-f",
            "key_A-b",
            "key_C-u",
            "key_C-k",
            "fetch_repeated",
            "fetch_on_recalled",
            "no_effect",
            "multi_line",
            "other_dividers",
            "big_cases",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let a = Alpha {
            backslash: 6,
            newline: 0,
            ..WORDS
        };
        // entries that no text typed here is the beginning of: suggestions are another property
        let mut hist: Vec<String> = (0..r.below(6))
            .map(|_| {
                if r.chance(1, 6) {
                    "   ".into()
                } else {
                    format!("\u{2318}{}", a.text(&mut r, 14))
                }
            })
            .collect();
        let big = r.chance(1, 300);
        if big && r.chance(1, 2) {
            st.inc("big_cases");
            enlarge(&mut r, &mut hist, &a);
            for h in &mut hist {
                h.insert(0, '\u{2318}');
            }
        }
        let recall = !hist.is_empty() && r.chance(1, 4);
        let init = if recall || r.chance(1, 4) {
            String::new()
        } else {
            format!("~{}", Alpha { newline: 4, ..a }.text(&mut r, 24))
        };
        let init = if big && !init.is_empty() {
            st.inc("big_cases");
            format!("~{}", long(&mut r, &Alpha { newline: 2, ..a }))
        } else {
            init
        };
        let mut cfg = Cfg::plain(false);
        cfg.hist = hist.clone();
        cfg.init = init;
        cfg.width = *r.pick(&[10, 80, 300]);
        if r.chance(1, 4) {
            cfg.divide = Some(*r.pick(DIVIDERS));
            st.inc("other_dividers");
        }
        let mut ks: Vec<Key> = vec![];
        if recall {
            for _ in 0..r.range(1, hist.len()) {
                ks.push(Key::Up);
            }
        } else if cfg.init.is_empty() {
            ks.push(Key::Char('~'));
        }
        let n = steps(&mut r, 4, 40);
        let mut fetching = false;
        for _ in 0..n {
            if fetching && big && r.chance(1, 3) {
                for _ in 0..r.range(20, 400) {
                    ks.push(Key::Alt('.'));
                }
            }
            if fetching && r.chance(1, 2) {
                ks.push(Key::Alt('.'));
                continue;
            }
            fetching = false;
            ks.push(match r.below(40) {
                0..=11 => Key::Char(a.ch(&mut r)),
                12 => Key::Ctrl('a'),
                13 => Key::Ctrl('e'),
                14 => Key::Ctrl('b'),
                15 => Key::Ctrl('f'),
                16 => Key::Ctrl('d'),
                17 => Key::Ctrl('h'),
                18 => Key::Backspace,
                19 => Key::Delete,
                20 => Key::Left,
                21 => Key::Right,
                22 => Key::Home,
                23 => Key::End,
                24 if r.chance(1, 2) => Key::Ctrl('u'),
                25 if r.chance(1, 2) => Key::Ctrl('k'),
                26 | 27 => Key::Ctrl('w'),
                28 => Key::Alt('\x7f'),
                29..=31 => Key::Alt('f'),
                32..=34 => Key::Alt('b'),
                35..=37 => {
                    fetching = true;
                    Key::Alt('.')
                }
                38 => *r.pick(&[
                    Key::Null,
                    Key::F(1),
                    Key::Insert,
                    Key::PageUp,
                    Key::Esc,
                    Key::BackTab,
                    Key::Alt('q'),
                    Key::Alt('z'),
                    Key::Ctrl('o'),
                    Key::Ctrl('t'),
                    Key::Ctrl('y'),
                    Key::Ctrl('g'),
                    Key::Ctrl('v'),
                ]),
                _ => *r.pick(&[Key::Left, Key::Right, Key::Char(' ')]),
            });
        }
        let ks = case.keep.filter(ks);
        let mut l = Lock::start(cfg)?;
        let mut effects = 0;
        let mut prev = None;
        for k in ks {
            // an empty line would suggest nothing but bring Ctrl-D's other meaning
            if k == Key::Ctrl('d') && l.m.text().is_empty() {
                continue;
            }
            let before = (l.m.text().clone(), l.m.cursor);
            if l.m.loc.is_some() && k == Key::Alt('.') {
                st.inc("fetch_on_recalled");
            }
            l.key(k, st)?;
            if before != (l.m.text().clone(), l.m.cursor) {
                effects += 1;
            } else {
                st.inc("no_effect");
            }
            if k == Key::Alt('.') && prev == Some(k) {
                st.inc("fetch_repeated");
            }
            if l.m.text().contains(&'\n') {
                st.inc("multi_line");
            }
            match k {
                Key::Alt(_) | Key::Ctrl(_) => st.inc(&format!(
                    "key_{}",
                    key_str(k).trim_matches(|c| c == '<' || c == '>')
                )),
                _ => {}
            }
            prev = Some(k);
        }
        if effects >= 5 {
            st.nontrivial(sig(&[&l.head, &keys_str(&l.keys)]));
        }
        st.sample(|| {
            format!(
                "{}\nkeys: {} -> {:?}",
                l.head,
                keys_str(&l.keys),
                l.m.string()
            )
        });
        Ok(())
    }
}
