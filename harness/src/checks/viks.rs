//! C04 vi motions and modes; C05 operators and edits; C06 counts and dot.
use liner::Key;

use crate::ensure;
use crate::fw::{Case, Check, Stats, Tier, R};
use crate::gen::{big, history, long, set_big, sig, steps, Alpha, WORDS};
use crate::lock::Lock;
use crate::model::{Change, Model, Pend};
use crate::rng::Rng;
use crate::sess::{keys_str, Cfg};
use crate::vt::Vt;

pub struct C04;
pub struct C05;
pub struct C06;

pub fn ch(c: char) -> Key {
    Key::Char(c)
}

pub fn count(r: &mut Rng) -> Vec<Key> {
    let n = match r.below(10) {
        0..=4 => return vec![],
        5..=8 => r.range(1, 5),
        _ if big() => *r.pick(&[120, 255, 256, 257, 300, 511, 700, 1000, 1025, 5000]),
        _ => *r.pick(&[7, 10, 20, 40, 100]),
    };
    n.to_string().chars().map(Key::Char).collect()
}

/// A motion; characters to look for mostly occur in the line.
pub fn motion(r: &mut Rng, m: &Model, a: &Alpha) -> Vec<Key> {
    match r.below(26) {
        0 => vec![ch('h')],
        1 => vec![ch('l')],
        2 | 3 => vec![ch('w')],
        4 => vec![ch('W')],
        5 | 6 => vec![ch('b')],
        7 => vec![ch('B')],
        8 | 9 => vec![ch('e')],
        10 => vec![ch('E')],
        11 => vec![ch('g'), ch('e')],
        12 => vec![ch('g'), ch('E')],
        13 => vec![ch('0')],
        14 => vec![ch('^')],
        15 => vec![ch('$')],
        16..=20 => {
            let t = m.text();
            let c = if !t.is_empty() && r.chance(7, 8) {
                *r.pick(t)
            } else {
                a.ch(r)
            };
            let c = if c == '\n' || c == '\t' { 'a' } else { c };
            vec![ch(*r.pick(&['f', 'F', 't', 'T'])), ch(c)]
        }
        21 | 22 => vec![ch(';')],
        23 => vec![ch(',')],
        24 => vec![*r.pick(&[Key::Left, Key::Right, Key::Home, Key::End])],
        _ => vec![*r.pick(&[Key::Backspace, ch(' ')])],
    }
}

pub fn typed(r: &mut Rng, a: &Alpha, edits: bool, moves: bool) -> Vec<Key> {
    let n = r.range(0, 5);
    let mut v = vec![];
    for _ in 0..n {
        match r.below(14) {
            0 if edits => v.push(Key::Backspace),
            1 if edits => v.push(Key::Delete),
            2 if moves => v.push(*r.pick(&[
                Key::Left,
                Key::Right,
                Key::Home,
                Key::End,
                Key::Up,
                Key::Down,
            ])),
            _ => v.push(ch(a.ch(r))),
        }
    }
    v
}

/// Presses the keys of one command; a key with a meaning not laid down ends it.
pub fn press(l: &mut Lock, ks: &[Key], st: &mut Stats) -> R {
    for k in ks {
        if l.m.settled(*k) {
            l.key(*k, st)?;
        } else {
            st.inc("unsettled_keys_left_out");
            if l.m.vi().map(|v| v.pend != Pend::None || v.count > 0) == Some(true)
                || l.m.inserting()
            {
                l.key(Key::Esc, st)?;
            }
            break;
        }
    }
    if big() && l.m.text().len() > 3000 {
        // a large count once more would make it huge
        set_big(false);
    }
    Ok(())
}

fn vi_cfg(r: &mut Rng, a: &Alpha, rare: usize) -> Cfg {
    let mut cfg = Cfg::plain(true);
    cfg.width = *r.pick(&[12, 80, 300]);
    set_big(r.chance(1, rare));
    cfg.init = match r.below(8) {
        0..=3 if big() => long(r, a),
        0 => String::new(),
        1 => a.text(r, 3),
        _ => a.text(r, 40),
    };
    cfg
}

fn bounds(l: &Lock) -> R {
    let (t, c) = (l.s.text(), l.s.ed.cursor());
    let n = t.chars().count();
    ensure!(c <= n, "the cursor {c} is outside the line {t:?}");
    if l.m.normal() && n > 0 {
        ensure!(
            c < n,
            "in normal mode the cursor {c} is not on a character of {t:?}"
        );
    }
    Ok(())
}

impl Check for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (300_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if at least four of its motions moved the cursor; distinct by text and keys"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["keys whose meaning the statement leaves open (listed in DESIGN.md) are not pressed"]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "moved",
            "stayed",
            "with_count",
            "mode_switches",
            "find_repeated",
            "big_cases",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let a = Alpha {
            newline: if r.chance(1, 4) { 4 } else { 0 },
            ..WORDS
        };
        let ta = Alpha { newline: 0, ..a };
        let mut cfg = vi_cfg(&mut r, &a, 1500);
        cfg.width = 400;
        cfg.status = Some(("[N] ".into(), "[I] ".into()));
        let custom = r.chance(1, 3);
        if custom {
            cfg.status = Some(("<cmd>".into(), "<ins>".into()));
        }
        let (ni, ii) = cfg.status.clone().unwrap();
        let n = steps(&mut r, 4, 26);
        // what to do is drawn now, how exactly when the state is known
        let plan: Vec<(usize, u64)> = (0..n).map(|_| (r.below(10), r.next())).collect();
        let plan = case.keep.filter(plan);
        let mut l = Lock::start(cfg)?;
        let mut moves = 0;
        let mut vt = Vt::new(400, if big() { 9000 } else { 30 });
        l.describe(st);
        if big() {
            st.inc("big_cases");
        }
        press(&mut l, &[Key::Esc], st)?;
        for (what, seed) in plan {
            let mut r = Rng::new(seed, "c04", 0);
            let text = l.m.text().clone();
            let cur = l.m.cursor;
            match what {
                0 => {
                    let how = *r.pick(&['i', 'a', 'I', 'A']);
                    press(&mut l, &[ch(how)], st)?;
                    bounds(&l)?;
                    indicator(&mut vt, &l, &ni, &ii)?;
                    let t = typed(&mut r, &ta, false, true);
                    press(&mut l, &t, st)?;
                    indicator(&mut vt, &l, &ni, &ii)?;
                    press(&mut l, &[Key::Esc], st)?;
                    st.inc("mode_switches");
                }
                _ => {
                    let c = count(&mut r);
                    let mk = motion(&mut r, &l.m, &ta);
                    if !c.is_empty() {
                        st.inc("with_count");
                    }
                    if matches!(mk[0], Key::Char(';' | ',')) && l.m.vi().unwrap().find.is_some() {
                        st.inc("find_repeated");
                    }
                    press(&mut l, &c, st)?;
                    press(&mut l, &mk, st)?;
                    ensure!(
                        l.s.text().chars().collect::<Vec<_>>() == text,
                        "the motion {} changed the line from {:?} to {:?}",
                        keys_str(&mk),
                        text.iter().collect::<String>(),
                        l.s.text()
                    );
                    if l.m.cursor != cur {
                        moves += 1;
                        st.inc("moved");
                    } else {
                        st.inc("stayed");
                    }
                }
            }
            bounds(&l)?;
            indicator(&mut vt, &l, &ni, &ii)?;
        }
        if moves >= 4 {
            st.nontrivial(sig(&[&l.head, &keys_str(&l.keys)]));
        }
        st.sample(|| {
            format!(
                "{}\nkeys: {} -> cursor {}",
                l.head,
                keys_str(&l.keys),
                l.m.cursor
            )
        });
        Ok(())
    }
}

fn indicator(vt: &mut Vt, l: &Lock, normal: &str, insert: &str) -> R {
    let out = l.s.tty.take_out();
    vt.feed(&out);
    if l.m.pending() {
        return Ok(());
    }
    let want = if l.m.inserting() { insert } else { normal };
    let row = vt.row_text(0);
    ensure!(
        row.starts_with(want),
        "the prompt shows {row:?}, its mode indicator must be {want:?}"
    );
    Ok(())
}

/// An editing command, without what is typed after it.
fn edit_cmd(r: &mut Rng, m: &Model, a: &Alpha) -> Vec<Key> {
    let mut v = count(r);
    match r.below(20) {
        0 | 1 => v.push(ch('x')),
        2 => v.push(Key::Delete),
        3 => v.push(ch('D')),
        4 => v.push(ch('C')),
        5 => v.push(ch('s')),
        6 | 7 => {
            v.push(ch('r'));
            v.push(ch(a.ch(r)));
        }
        8 | 9 => v.push(ch('~')),
        10 => v.extend([ch('d'), ch('d')]),
        11 => v.extend([ch('c'), ch('c')]),
        k => {
            v.push(ch(if k < 17 { 'd' } else { 'c' }));
            v.extend(count(r));
            v.extend(motion(r, m, a));
        }
    }
    v
}

impl Check for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (600_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if at least three of its commands changed the line; distinct by text and keys"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["keys whose meaning the statement leaves open (listed in DESIGN.md) are not pressed"]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "changed",
            "unchanged",
            "cancelled",
            "entered_insert",
            "case_changed",
            "big_cases",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let a = Alpha {
            newline: if r.chance(1, 4) { 4 } else { 0 },
            ..WORDS
        };
        let ta = Alpha { newline: 0, ..a };
        let cfg = vi_cfg(&mut r, &a, 400);
        let n = steps(&mut r, 3, 20);
        let plan: Vec<(usize, u64)> = (0..n).map(|_| (r.below(12), r.next())).collect();
        let plan = case.keep.filter(plan);
        let mut l = Lock::start(cfg)?;
        l.describe(st);
        if big() {
            st.inc("big_cases");
        }
        press(&mut l, &[Key::Esc], st)?;
        let mut changes = 0;
        for (what, seed) in plan {
            let mut r = Rng::new(seed, "c05", 0);
            let text = l.m.text().clone();
            match what {
                // go somewhere
                0..=2 => {
                    let mk = motion(&mut r, &l.m, &ta);
                    press(&mut l, &mk, st)?;
                }
                // an operator given up
                3 => {
                    if l.m.pending() || l.m.inserting() {
                        // a zero meant as a motion was taken for a digit
                        press(&mut l, &[Key::Esc], st)?;
                    }
                    let mut v = count(&mut r);
                    v.push(ch(*r.pick(&['d', 'c'])));
                    v.extend(count(&mut r));
                    v.push(*r.pick(&[Key::Esc, ch('q'), ch('p'), ch('x'), ch('z'), Key::Insert]));
                    press(&mut l, &v, st)?;
                    ensure!(
                        l.s.text().chars().collect::<Vec<_>>() == text,
                        "the cancelled operator {} changed the line",
                        keys_str(&v)
                    );
                    st.inc("cancelled");
                }
                // make the line longer again
                4 => {
                    let mut v = vec![ch(*r.pick(&['i', 'a', 'I', 'A']))];
                    v.extend(a_line(&mut r, &ta));
                    v.push(Key::Esc);
                    press(&mut l, &v, st)?;
                }
                _ => {
                    let v = edit_cmd(&mut r, &l.m, &ta);
                    press(&mut l, &v, st)?;
                    if v.contains(&ch('~')) && text != *l.m.text() {
                        st.inc("case_changed");
                    }
                    if l.m.inserting() {
                        st.inc("entered_insert");
                        bounds(&l)?;
                        let t = typed(&mut r, &ta, true, false);
                        press(&mut l, &t, st)?;
                        press(&mut l, &[Key::Esc], st)?;
                    }
                    if text != *l.m.text() {
                        changes += 1;
                        st.inc("changed");
                    } else {
                        st.inc("unchanged");
                    }
                }
            }
            bounds(&l)?;
        }
        if changes >= 3 {
            st.nontrivial(sig(&[&l.head, &keys_str(&l.keys)]));
        }
        st.sample(|| {
            format!(
                "{}\nkeys: {} -> {:?}",
                l.head,
                keys_str(&l.keys),
                l.m.string()
            )
        });
        Ok(())
    }
}

fn a_line(r: &mut Rng, a: &Alpha) -> Vec<Key> {
    a.text1(r, 15).chars().map(Key::Char).collect()
}

impl Check for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (300_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if at least two dots changed the line; distinct by text and keys"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "dot is not pressed after a command that changed nothing: whether that is the last change is left open",
            "continuation newlines, completions and suggestions accepted while inserting are not part of the domain",
        ]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "dots",
            "dots_with_count",
            "counted_inserts",
            "dot_insert",
            "dot_x",
            "dot_delete",
            "dot_change",
            "dot_replace",
            "dot_tilde",
            "dot_line",
            "big_cases",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let a = WORDS;
        let ta = Alpha { newline: 0, ..a };
        let mut cfg = vi_cfg(&mut r, &a, 400);
        if r.chance(1, 3) {
            cfg.hist = history(&mut r, 5, &ta);
        }
        let n = steps(&mut r, 4, 18);
        let plan: Vec<(usize, u64)> = (0..n).map(|_| (r.below(17), r.next())).collect();
        let plan = case.keep.filter(plan);
        let mut l = Lock::start(cfg)?;
        l.describe(st);
        if big() {
            st.inc("big_cases");
        }
        if r.chance(1, 2) {
            // the first insertion needs no command
            let t = typed(&mut r, &ta, true, true);
            press(&mut l, &t, st)?;
        }
        press(&mut l, &[Key::Esc], st)?;
        let mut effective = 0;
        for (what, seed) in plan {
            let mut r = Rng::new(seed, "c06", 0);
            let text = l.m.text().clone();
            match what {
                16 => {
                    let mut v = if r.chance(1, 4) {
                        count(&mut r)
                    } else {
                        vec![]
                    };
                    v.push(*r.pick(&[Key::Up, Key::Down, ch('j'), ch('k')]));
                    press(&mut l, &v, st)?;
                }
                0..=3 => {
                    let mut mk = if r.chance(1, 4) {
                        count(&mut r)
                    } else {
                        vec![]
                    };
                    mk.extend(motion(&mut r, &l.m, &ta));
                    press(&mut l, &mk, st)?;
                }
                4..=6 => {
                    let mut v = count(&mut r);
                    if !v.is_empty() {
                        st.inc("counted_inserts");
                    }
                    v.push(ch(*r.pick(&['i', 'a', 'I', 'A'])));
                    let moves = r.chance(1, 3);
                    v.extend(typed(&mut r, &ta, true, moves));
                    v.push(Key::Esc);
                    press(&mut l, &v, st)?;
                }
                7..=10 => {
                    let v = edit_cmd(&mut r, &l.m, &ta);
                    press(&mut l, &v, st)?;
                    if l.m.inserting() {
                        let moves = r.chance(1, 4);
                        let t = typed(&mut r, &ta, true, moves);
                        press(&mut l, &t, st)?;
                        press(&mut l, &[Key::Esc], st)?;
                    }
                }
                _ => {
                    let mut v = if r.chance(1, 3) {
                        count(&mut r)
                    } else {
                        vec![]
                    };
                    let counted = !v.is_empty();
                    v.push(ch('.'));
                    let change = l.m.vi().unwrap().change.clone();
                    let dots = l.keys.len();
                    press(&mut l, &v, st)?;
                    if l.keys.len() > dots && l.keys.last() == Some(&ch('.')) {
                        st.inc("dots");
                        if counted {
                            st.inc("dots_with_count");
                        }
                        st.inc(match change {
                            Change::Ins { how, .. } => match how {
                                crate::model::How::Motion(_) => "dot_change",
                                crate::model::How::S | crate::model::How::Rest => "dot_subst",
                                crate::model::How::Line => "dot_line",
                                _ => "dot_insert",
                            },
                            Change::X => "dot_x",
                            Change::DelRest => "dot_rest",
                            Change::DelLine => "dot_line",
                            Change::Del(_) => "dot_delete",
                            Change::Replace(_) => "dot_replace",
                            Change::Tilde => "dot_tilde",
                        });
                        if text != *l.m.text() {
                            effective += 1;
                        }
                        bounds(&l)?;
                    }
                }
            }
        }
        if effective >= 2 {
            st.nontrivial(sig(&[&l.head, &keys_str(&l.keys)]));
        }
        st.sample(|| {
            format!(
                "{}\nkeys: {} -> {:?}",
                l.head,
                keys_str(&l.keys),
                l.m.string()
            )
        });
        Ok(())
    }
}
