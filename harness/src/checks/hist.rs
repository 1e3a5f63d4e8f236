//! C11 browsing; C12 incremental search; C13 the stored history stays as it is.
use liner::{Buffer, EditorContext, Key};

use crate::checks::keys::{any_key, Digits};
use crate::checks::screen::{ends, live_key, Look, Shown};
use crate::fw::{Case, Check, Stats, Stop, Tier, R};
use crate::gen::{enlarge, history, long, sig, steps, Alpha, PLAIN, WORDS};
use crate::lock::{describe, Lock};
use crate::model::{Model, Out};
use crate::rng::Rng;
use crate::sess::{key_str, keys_str, Cfg, Comp, Sess};
use crate::tty::MockTty;
use crate::{ensure, violation};

pub struct C11;
pub struct C12;
pub struct C13;

fn browse_key(r: &mut Rng, m: &Model, a: &Alpha) -> Key {
    let vi = m.vi().is_some();
    match r.below(20) {
        0..=6 if vi => {
            if m.inserting() || r.chance(1, 2) {
                Key::Up
            } else {
                Key::Char('k')
            }
        }
        0..=6 => *r.pick(&[Key::Up, Key::Up, Key::Ctrl('p')]),
        7..=10 if vi => {
            if m.inserting() || r.chance(1, 2) {
                Key::Down
            } else {
                Key::Char('j')
            }
        }
        7..=10 => *r.pick(&[Key::Down, Key::Down, Key::Ctrl('n')]),
        11 | 12 if !vi => *r.pick(&[Key::Alt('<'), Key::Alt('>')]),
        13 => Key::Ctrl('l'),
        14 => *r.pick(&[Key::Right, Key::Ctrl('f')]),
        _ => live_key(r, m, a),
    }
}

impl Check for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (480_000, 60.0),
            Tier::Thorough => (30_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if at least three different entries were visited and the new line was come back to; distinct by history and keys"
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "visited_all",
            "visited_by_prefix",
            "visited_by_substring",
            "stayed_at_oldest",
            "back_to_new_line",
            "change_dropped",
            "cleared_on_entry",
            "accepted_on_entry",
            "jump_oldest",
            "jump_newest",
            "no_entry_matches",
            "big_histories",
            "long_ways",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let vi = r.chance(1, 2);
        let a = Alpha {
            small: r.range(1, 4),
            odd: 3,
            newline: 0,
            backslash: 2,
            ..WORDS
        };
        let mut cfg = Cfg::plain(vi);
        cfg.width = *r.pick(&[20, 100]);
        let newline = *r.pick(&[0, 5]);
        cfg.hist = history(&mut r, 12, &Alpha { newline, ..a });
        let big = r.chance(1, 200);
        if big {
            enlarge(&mut r, &mut cfg.hist, &a);
            st.inc("big_histories");
        }
        if r.chance(1, 2) && !cfg.hist.is_empty() {
            // part of an entry, from its beginning or not
            let e: Vec<char> = r.pick(&cfg.hist).chars().collect();
            let i = if r.chance(1, 2) {
                0
            } else {
                r.below(e.len() + 1)
            };
            let j = r.range(i, (i + 3).min(e.len()));
            cfg.init = e[i..j].iter().collect();
        }
        let n = steps(&mut r, 6, 40);
        let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
        let seeds = case.keep.filter(seeds);
        let before = cfg.hist.clone();
        let mut l = Lock::start(cfg)?;
        l.describe(st);
        let mut visited = vec![];
        let mut back = false;
        for seed in seeds {
            let mut r = Rng::new(seed, "c11k", 0);
            let mut k = browse_key(&mut r, &l.m, &a);
            if ends(&l.m, k) || !l.m.settled(k) || k == Key::Char('\t') {
                if l.m.vi().is_some() && !l.m.inserting() && l.m.pending() {
                    k = Key::Esc;
                } else {
                    continue;
                }
            }
            let was = (l.m.loc, l.m.work.clone(), l.m.search.is_some());
            l.key(k, st)?;
            if big && matches!(k, Key::Up | Key::Down | Key::Ctrl('p' | 'n')) && r.chance(1, 4) {
                // a long way
                for _ in 0..r.range(1, 2 * l.m.hist.len()) {
                    if !l.m.settled(k) {
                        break;
                    }
                    l.key(k, st)?;
                }
                st.inc("long_ways");
            }
            let m = &l.m;
            if let Some(i) = m.loc {
                if !visited.contains(&i) {
                    visited.push(i);
                }
                if was.0 != m.loc && m.search.is_none() {
                    let e = &m.hist[i];
                    st.inc(if m.new.is_empty() {
                        "visited_all"
                    } else if crate::model::extends(e, &m.new) {
                        "visited_by_prefix"
                    } else {
                        "visited_by_substring"
                    });
                }
                if k == Key::Up && was.0 == m.loc {
                    st.inc("stayed_at_oldest");
                }
                if k == Key::Ctrl('l') {
                    st.inc("cleared_on_entry");
                }
                if matches!(k, Key::Right | Key::Ctrl('f')) && was.0 == m.loc && was.1.is_none() {
                    st.inc("accepted_on_entry");
                }
                if k == Key::Alt('<') {
                    st.inc("jump_oldest");
                }
            } else {
                if was.0.is_some() && !was.2 {
                    back = true;
                    st.inc("back_to_new_line");
                }
                if k == Key::Alt('>') && was.0.is_some() {
                    st.inc("jump_newest");
                }
                if k == Key::Up && was.0.is_none() && !m.new.is_empty() && m.search.is_none() {
                    st.inc("no_entry_matches");
                }
            }
            if let (Some(i), Some(w)) = (was.0, &was.1) {
                if l.m.loc != was.0 && *w != l.m.hist[i] {
                    st.inc("change_dropped");
                }
            }
        }
        ensure!(
            l.s.hist() == before,
            "browsing changed the history to {:?}",
            l.s.hist()
        );
        if visited.len() >= 3 && back {
            st.nontrivial(sig(&[&l.head, &keys_str(&l.keys)]));
        }
        st.sample(|| {
            format!(
                "{}\nkeys: {} -> {:?}",
                l.head,
                keys_str(&l.keys),
                l.m.string()
            )
        });
        Ok(())
    }
}

impl Check for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (240_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if a search with at least two matches was stepped through and its text changed; distinct by history and keys"
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "screens_in_search",
            "no_match",
            "several_matches",
            "stepped_older",
            "stepped_newer",
            "wrapped_around",
            "text_changed",
            "started_on_entry",
            "forward",
            "ended_enter",
            "ended_accept",
            "match_kept",
            "big_histories",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let vi = r.chance(1, 3);
        let a = Alpha {
            small: r.range(1, 3),
            odd: *r.pick(&[0, 4]),
            newline: 0,
            backslash: 1,
            space: 10,
        };
        let mut lk = Look {
            cfg: Cfg::plain(vi),
            last_line: "$ ".into(),
            earlier: vec![],
        };
        lk.cfg.width = *r.pick(&[40, 120]);
        if r.chance(1, 3) {
            lk.cfg.status = Some(("[N] ".into(), "[I] ".into()));
        }
        let newline = *r.pick(&[0, 5]);
        lk.cfg.hist = history(&mut r, 12, &Alpha { newline, ..a });
        let big = r.chance(1, 200);
        if big {
            enlarge(&mut r, &mut lk.cfg.hist, &a);
            st.inc("big_histories");
        }
        if r.chance(1, 4) && !lk.cfg.hist.is_empty() {
            let e: Vec<char> = r.pick(&lk.cfg.hist).chars().collect();
            let i = r.below(e.len() + 1);
            lk.cfg.init = e[i..e.len().min(i + 2)]
                .iter()
                .filter(|c| **c != '\n')
                .collect();
        }
        let n = steps(&mut r, 4, 30);
        let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
        let end = r.below(4);
        let mut r2 = Rng::new(r.next(), "c12", 0);
        let seeds = case.keep.filter(seeds);
        let hist = lk.cfg.hist.clone();
        let mut s = Shown::start(&mut r2, lk, |_: &str| vec![], st)?;
        let (mut stepped, mut edited) = (false, false);
        for seed in seeds {
            let mut r = Rng::new(seed, "c12k", 0);
            if !s.fits() {
                return Ok(());
            }
            let m = &s.l.m;
            let searching = m.search.is_some();
            let k = if searching {
                match r.below(24) {
                    0..=3 => Key::Ctrl('r'),
                    4..=6 => Key::Ctrl('s'),
                    7 => Key::Up,
                    8 => Key::Down,
                    9..=14 => {
                        // mostly something that leaves a match
                        match m.suggestion() {
                            Some(e) if r.chance(2, 3) && !e.is_empty() => {
                                let i = (0..=e.len() - m.new.len().min(e.len()))
                                    .find(|&i| e[i..].starts_with(&m.new))
                                    .unwrap_or(0);
                                match e.get(i + m.new.len()) {
                                    Some(c) if *c != '\n' => Key::Char(*c),
                                    _ => Key::Backspace,
                                }
                            }
                            _ => Key::Char(a.ch(&mut r)),
                        }
                    }
                    15..=17 => Key::Backspace,
                    18 => *r.pick(&[Key::Left, Key::Home, Key::End]),
                    19 => Key::Delete,
                    20 => *r.pick(&[Key::Right, Key::Ctrl('f')]),
                    21 => *r.pick(&[Key::Ctrl('l'), Key::Alt('>'), Key::Alt('<')]),
                    22 if !vi => *r.pick(&[Key::Ctrl('w'), Key::Ctrl('u'), Key::Ctrl('k')]),
                    _ => Key::Char(a.ch(&mut r)),
                }
            } else {
                match r.below(8) {
                    0..=3 => *r.pick(&[Key::Ctrl('r'), Key::Ctrl('r'), Key::Ctrl('s')]),
                    4 => Key::Up,
                    5 => Key::Down,
                    6 => Key::Backspace,
                    _ => Key::Char(a.ch(&mut r)),
                }
            };
            if ends(m, k) || !m.settled(k) || k == Key::Char('\t') {
                continue;
            }
            let was = m.search.clone();
            let text = m.new.clone();
            let placed = m.place.is_some();
            s.key(k, st)?;
            if s.over {
                return Ok(());
            }
            let m = &s.l.m;
            match (&was, &m.search) {
                (None, Some(x)) => {
                    if x.fwd {
                        st.inc("forward");
                    }
                    if placed {
                        st.inc("started_on_entry");
                    }
                }
                (Some(b), Some(x)) => {
                    if m.new != text {
                        st.inc("text_changed");
                        edited = true;
                        if let (Some(p), Some(q)) = (b.pos, x.pos) {
                            if b.matches[p] == x.matches[q] && b.matches.len() != x.matches.len() {
                                st.inc("match_kept");
                            }
                        }
                    } else if let (Some(p), Some(q)) = (b.pos, x.pos) {
                        if x.matches.len() > 1 && p != q {
                            stepped = true;
                            let older = matches!(k, Key::Ctrl('r') | Key::Up);
                            st.inc(if older {
                                "stepped_older"
                            } else {
                                "stepped_newer"
                            });
                            if older == (q > p) {
                                st.inc("wrapped_around");
                            }
                        }
                    }
                }
                (Some(_), None) => st.inc("ended_accept"),
                _ => {}
            }
            if let Some(x) = &m.search {
                st.inc(match x.matches.len() {
                    0 => "no_match",
                    1 => "one_match",
                    _ => "several_matches",
                });
            }
        }
        if s.l.m.search.is_some() && end < 3 {
            // the match, as it is, must be submitted
            let want = s.l.m.shown();
            let bs = want.last() == Some(&'\\');
            match s.l.key(Key::Char('\n'), st)? {
                Out::Done(t) => {
                    st.inc("ended_enter");
                    ensure!(
                        t.chars().collect::<Vec<_>>() == want,
                        "Enter returned {t:?}, the match shown is {:?}",
                        want.iter().collect::<String>()
                    );
                }
                o => ensure!(bs, "Enter gave {o:?}"),
            }
        }
        ensure!(s.l.s.hist() == hist, "the search changed the history");
        if stepped && edited {
            st.nontrivial(sig(&[&s.l.head, &keys_str(&s.l.keys)]));
        }
        st.sample(|| {
            format!(
                "{}\nkeys: {}\n{}",
                s.l.head,
                keys_str(&s.l.keys),
                s.scr.vt.dump()
            )
        });
        Ok(())
    }
}

/// Edits a buffer so that it can undo and redo; its text stays.
fn edit_to(b: &mut Buffer) {
    let t: Vec<char> = b.chars().cloned().collect();
    let n = t.len();
    b.remove(n / 2, n);
    b.insert(0, &['x', 'y']);
    b.insert(2 + n / 2, &t[n / 2..]);
    b.remove(0, 2);
    // what may be redone
    b.insert(0, &['z']);
    b.undo();
}

impl Check for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (700_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if the session changed a recalled entry or took the line out of the editor; distinct by configuration and keys"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["history sharing is off, or nobody else changes the file"]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "recalled",
            "changed_recalled",
            "taken_out",
            "taken_out_recalled",
            "with_file",
            "read_line",
            "failing_terminal",
            "big_histories",
            "entries_with_undo",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let vi = r.chance(1, 2);
        let a = Alpha {
            space: 15,
            backslash: 4,
            newline: 0,
            odd: 3,
            small: r.range(1, 5),
        };
        let with_file = r.chance(1, 20);
        let mut cfg = Cfg::plain(vi);
        cfg.width = *r.pick(&[10, 80]);
        let newline = if with_file { 0 } else { r.below(6) };
        cfg.hist = history(&mut r, 10, &Alpha { newline, ..a });
        if r.chance(1, 300) {
            if r.chance(1, 3) {
                enlarge(&mut r, &mut cfg.hist, &a);
            } else {
                let e = long(&mut r, &a);
                cfg.hist.push(e);
            }
            st.inc("big_histories");
        }
        if with_file {
            cfg.hist.retain(|h| !h.starts_with('#') && !h.is_empty());
        }
        if r.chance(1, 4) {
            cfg.init = a.text(&mut r, 8);
        }
        let n = steps(&mut r, 5, 60);
        // the entries were edited before they came into the history
        let edited = !with_file && r.chance(1, 3);
        let mut ks = vec![];
        let mut d = Digits::default();
        while ks.len() < n {
            let k = if r.chance(1, 5) {
                *r.pick(&[Key::Up, Key::Up, Key::Down, Key::Backspace, Key::Ctrl('f')])
            } else if edited && r.chance(1, 8) {
                *r.pick(if vi {
                    &[Key::Esc, Key::Char('u'), Key::Char('u'), Key::Ctrl('r')]
                } else {
                    &[Key::Ctrl('x'), Key::Ctrl('z'), Key::Alt('r'), Key::Ctrl('x')]
                })
            } else {
                any_key(&mut r, vi, &a)
            };
            if d.ok(k) {
                ks.push(k);
            }
        }
        let cands: Vec<String> = (0..r.below(4)).map(|_| PLAIN.text(&mut r, 5)).collect();
        let share = r.chance(1, 2);
        let inc = r.chance(1, 2);
        let dups = r.chance(1, 2);
        let load_dups = r.chance(1, 2);
        if !cfg.hist.is_empty() && r.chance(1, 4) {
            // what is typed is in the history already
            cfg.init = r.pick(&cfg.hist).clone();
        }
        // 0: keys one by one; 1: through read_line; 2: one by one with a terminal that fails
        let mode = r.below(4);
        let fail_at = r.below(400) as u64;
        let take = r.chance(1, 3);
        let path = case.scratch.join("c13-history");
        let ks = case.keep.filter(ks);
        st.desc = format!(
            "{} completions={cands:?} edited={edited} file={with_file} share={share} inc_append={inc} dups={dups}/{load_dups} mode={mode} fail_at={fail_at} take={take}\nkeys: {}",
            describe(&cfg),
            keys_str(&ks)
        );
        let tty = MockTty::new(cfg.width);
        let mut ctx = crate::sess::context(&tty, &[]);
        ctx.history.append_duplicate_entries = dups;
        ctx.history.load_duplicates = load_dups;
        ctx.history.inc_append = inc;
        if vi {
            ctx.key_bindings = liner::KeyBindings::Vi;
        }
        let mut file = vec![];
        if with_file {
            st.inc("with_file");
            ctx.history.share = share;
            file = cfg
                .hist
                .iter()
                .map(|h| format!("{h}\n"))
                .collect::<String>()
                .into_bytes();
            std::fs::write(&path, &file)
                .map_err(|e| Stop::Inconclusive(format!("writing: {e}")))?;
            if let Err(e) = ctx.history.set_file_name_and_load_history(&path) {
                violation!("loading the history failed: {e}");
            }
        } else {
            ctx.history.buffers = cfg.hist.iter().map(|h| Buffer::from(h.as_str())).collect();
            if edited {
                st.inc("entries_with_undo");
                for b in &mut ctx.history.buffers {
                    edit_to(b);
                }
            }
        }
        let hist = |h: &liner::History| -> Vec<String> {
            h.buffers.iter().map(|b| b.to_string()).collect()
        };
        let before = hist(&ctx.history);
        // With several lines of the file the same and duplicates not to be loaded, an entry may go
        // when the file is read: it is, once, before the session.
        let want = before.clone();
        let check = |h: &liner::History, when: &str| -> R {
            let now = hist(h);
            ensure!(
                now == want,
                "{when} the history is {now:?}, it was {want:?}"
            );
            if with_file {
                let f = std::fs::read(&path).unwrap_or_default();
                ensure!(f == file, "{when} the history file has changed");
            }
            Ok(())
        };
        let comp = Comp::fixed(cands);
        let mut changed = false;
        if mode == 1 {
            st.inc("read_line");
            let mut rest = ks.clone();
            let mut comp = comp;
            for _ in 0..3 {
                tty.0.borrow_mut().keys = rest.iter().map(|k| Ok(*k)).collect();
                let mut c = &mut ctx;
                let _ = c.read_line_with_init_buffer(
                    cfg.prompt_value(),
                    &mut comp,
                    None,
                    cfg.init.as_str(),
                );
                check(&ctx.history, "after reading a line")?;
                let left = tty.0.borrow().keys.len();
                rest = rest.split_off(rest.len() - left);
                if rest.is_empty() {
                    break;
                }
            }
        } else {
            let mut s = match Sess::start_with(ctx, tty.clone(), cfg, comp) {
                Ok(s) => s,
                Err(e) => violation!("starting the editor failed: {e}"),
            };
            if mode == 2 {
                st.inc("failing_terminal");
                let mut t = tty.0.borrow_mut();
                t.fail_at = Some(t.ops + fail_at);
                t.fail_sticky = fail_at % 2 == 0;
            }
            for (i, k) in ks.iter().enumerate() {
                let res = s.key(*k);
                st.inc("keys");
                let when = format!("after key {} ({})", i + 1, key_str(*k));
                check(&s.ed.context().history, &when)?;
                if let Some(i) = s.ed.current_history_location() {
                    st.inc("recalled");
                    if s.text() != before[i] {
                        st.inc("changed_recalled");
                        changed = true;
                    }
                }
                if matches!(res, Ok(true)) || res.is_err() && mode != 2 {
                    break;
                }
                if s.text().chars().count() > 2000 {
                    break;
                }
            }
            if take {
                st.inc("taken_out");
                changed = true;
                let t = s.text();
                if s.ed.current_history_location().is_some() {
                    st.inc("taken_out_recalled");
                }
                let got = s.ed.take_exec_buffer();
                ensure!(got == t, "the line taken out is {got:?}, it was {t:?}");
                check(&s.ed.context().history, "after taking the line out")?;
                ensure!(
                    s.text().is_empty(),
                    "after taking the line out {:?} is left",
                    s.text()
                );
                let _ = s.key(Key::Char('q'));
                let _ = s.key(Key::Up);
                check(
                    &s.ed.context().history,
                    "after taking the line out and two keys",
                )?;
            }
            let h = hist(&s.ed.context().history);
            let _: String = s.ed.into();
            ensure!(h == want, "the history is {h:?}");
        }
        if changed {
            st.nontrivial(sig(&[&st.desc.clone()]));
        }
        let d = st.desc.clone();
        st.sample(|| d);
        Ok(())
    }
}
