//! C07 undo, redo and revert; C23 the buffer against a plain sequence of characters.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use liner::{Action, Buffer, EditorContext, Key};
use unicode_width::UnicodeWidthStr;

use crate::checks::screen::{ends, live_key};
use crate::fw::{Case, Check, Stats, Tier, R};
use crate::gen::{enlarge_one, history, long, sig, steps, Alpha};
use crate::lock::Lock;
use crate::model::{contains, extends, last_arg, line, Line, Pend};
use crate::rng::Rng;
use crate::sess::{context, key_str, Cfg};
use crate::tty::MockTty;
use crate::{ensure, violation};

pub struct C07;
pub struct C23;

/// One way the edits so far may have been recorded: the contents before each change still in
/// force, and those the next redo goes to.
#[derive(Clone, PartialEq, Debug)]
struct Trail {
    past: Vec<Line>,
    future: Vec<Line>,
}

/// Every way the edits may have been recorded: an edit that changed nothing may or may not count.
#[derive(Clone, Debug)]
pub struct Trails {
    now: Line,
    ways: Vec<Trail>,
}

impl Trails {
    pub fn new(base: &[char]) -> Trails {
        Trails {
            now: base.to_vec(),
            ways: vec![Trail {
                past: vec![],
                future: vec![],
            }],
        }
    }
    fn dedup(&mut self) {
        let mut v: Vec<Trail> = vec![];
        for w in self.ways.drain(..) {
            if !v.contains(&w) {
                v.push(w);
            }
        }
        self.ways = v;
    }
    pub fn many(&self) -> bool {
        self.ways.len() > 64
    }
    pub fn change(&mut self, to: &[char]) {
        for w in &mut self.ways {
            w.past.push(self.now.clone());
            w.future.clear();
        }
        self.now = to.to_vec();
        self.dedup();
    }
    /// Two changes, or one.
    fn double(&mut self, mid: &[char], to: &[char]) {
        let mut two = self.clone();
        two.change(mid);
        two.change(to);
        self.change(to);
        self.ways.append(&mut two.ways);
        self.dedup();
    }
    /// An edit that found nothing to change.
    fn nothing(&mut self) {
        let mut v = self.ways.clone();
        for w in &mut v {
            w.past.push(self.now.clone());
            w.future.clear();
        }
        self.ways.append(&mut v);
        self.dedup();
    }
    fn can_undo(&self) -> bool {
        self.ways.iter().all(|w| !w.past.is_empty())
    }
    fn can_redo(&self) -> bool {
        self.ways.iter().all(|w| !w.future.is_empty())
    }
    fn depth(&self) -> usize {
        self.ways.iter().map(|w| w.past.len()).max().unwrap_or(0)
    }
    /// `n` undos (or redos); keeps the ways that agree with what was observed.
    fn step(&mut self, redo: bool, n: usize, got: &[char], did: Option<bool>) -> R {
        let mut allowed = vec![];
        let mut v = vec![];
        for w in &self.ways {
            let mut w = w.clone();
            let mut now = self.now.clone();
            let mut any = false;
            for _ in 0..n {
                let (a, b) = if redo {
                    (&mut w.future, &mut w.past)
                } else {
                    (&mut w.past, &mut w.future)
                };
                match a.pop() {
                    Some(t) => {
                        b.push(std::mem::replace(&mut now, t));
                        any = true;
                    }
                    None => break,
                }
            }
            if now == got && did.map(|d| d == any).unwrap_or(true) {
                v.push(w);
            } else {
                allowed.push((now.iter().collect::<String>(), any));
            }
        }
        if v.is_empty() {
            allowed.dedup();
            violation!(
                "{} {} of {:?} gave {:?}{}; it must give {allowed:?}",
                n,
                if redo { "redo" } else { "undo" },
                self.now.iter().collect::<String>(),
                got.iter().collect::<String>(),
                match did {
                    Some(d) => format!(" and reported {d}"),
                    None => String::new(),
                },
            );
        }
        self.now = got.to_vec();
        self.ways = v;
        self.dedup();
        Ok(())
    }
    fn revert(&mut self, got: &[char], did: Option<bool>) -> R {
        let d = self.depth();
        // undoing until nothing is left
        self.step(false, d.max(1), got, did)
    }
}

fn chars(b: &Buffer) -> Line {
    b.chars().cloned().collect()
}

#[derive(Clone, Debug)]
enum BOp {
    Insert(usize, Line),
    Remove(usize, usize),
    Truncate(usize),
    Copy(Line),
    Append(Line),
    Open,
    Close,
    Undo,
    Redo,
    Revert,
    Forget,
    Clone,
    /// An action of its own, done and perhaps undone, neither of it recorded.
    Raw(bool, usize, usize, Line, bool),
}

fn bops(r: &mut Rng, a: &Alpha, n: usize) -> Vec<BOp> {
    (0..n)
        .map(|_| match r.below(42) {
            0..=11 => BOp::Insert(r.below(1000), line(&a.text(r, 4))),
            12..=17 => BOp::Remove(r.below(1000), r.below(1000)),
            18 => BOp::Truncate(r.below(1000)),
            19 => BOp::Copy(line(&a.text(r, 5))),
            20 => BOp::Append(line(&a.text(r, 3))),
            21..=24 => BOp::Open,
            25..=28 => BOp::Close,
            29..=33 => BOp::Undo,
            34..=37 => BOp::Redo,
            38 if r.chance(2, 3) => BOp::Revert,
            38 => BOp::Forget,
            39 => BOp::Clone,
            _ => BOp::Raw(
                r.chance(1, 2),
                r.below(1000),
                r.below(1000),
                line(&a.text(r, 4)),
                r.chance(1, 2),
            ),
        })
        .collect()
}

/// Undo and redo through the buffer itself, with groups.
fn through_buffer(case: &mut Case, r: &mut Rng, st: &mut Stats) -> R {
    let a = Alpha {
        space: 10,
        backslash: 0,
        newline: 3,
        odd: 5,
        small: r.range(1, 6),
    };
    let n = steps(r, 4, 40);
    let mut ops = bops(r, &a, n);
    if r.chance(1, 300) {
        // groups in groups in groups
        st.inc("deep_groups");
        let deep = *r.pick(&[20, 140, 300, 700]);
        let deep = r.range(deep / 2, deep);
        let at = r.below(n);
        let mut v = vec![];
        for _ in 0..deep {
            v.push(BOp::Open);
            if r.chance(1, 2) {
                v.push(BOp::Insert(r.below(1000), vec![a.ch(r)]));
            }
        }
        for _ in 0..deep {
            if r.chance(1, 3) {
                v.push(BOp::Remove(r.below(1000), r.below(1000)));
            }
            v.push(BOp::Close);
        }
        v.push(BOp::Undo);
        ops.splice(at..at, v);
    }
    let init = a.text(r, 6);
    let ops = case.keep.filter(ops);
    let mut b = Buffer::from(init.as_str());
    let mut t = Trails::new(&line(&init));
    // contents when the outermost group was opened, and whether anything was done in it
    let mut depth = 0;
    let mut group: Option<(Line, bool)> = None;
    let mut said = vec![];
    let (mut undone, mut redone, mut groups) = (0, 0, 0);
    for op in ops {
        let len = b.num_chars();
        let before = chars(&b);
        let mut mid = None;
        let mut edited = false;
        said.push(match &op {
            BOp::Insert(i, cs) => {
                b.insert(i % (len + 1), cs);
                edited = true;
                format!("insert({}, {cs:?})", i % (len + 1))
            }
            BOp::Remove(i, j) => {
                let (i, j) = (i % (len + 1), j % (len + 1));
                b.remove(i.min(j), i.max(j));
                edited = true;
                format!("remove({}, {})", i.min(j), i.max(j))
            }
            BOp::Truncate(i) => {
                b.truncate(i % (len + 1));
                edited = true;
                format!("truncate({})", i % (len + 1))
            }
            BOp::Copy(cs) => {
                b.copy_buffer(&cs.iter().cloned().collect());
                edited = true;
                // empties the buffer and fills it again
                mid = Some(vec![]);
                format!("copy_buffer({cs:?})")
            }
            BOp::Append(cs) => {
                let mut whole = before.clone();
                whole.extend(cs);
                b.insert_from_buffer(&whole.iter().cloned().collect());
                edited = true;
                format!("insert_from_buffer({whole:?})")
            }
            BOp::Open => {
                b.start_undo_group();
                if depth == 0 {
                    group = Some((before.clone(), false));
                } else {
                    st.inc("nested_groups");
                }
                depth += 1;
                "start_undo_group()".into()
            }
            BOp::Close if depth > 0 => {
                b.end_undo_group();
                depth -= 1;
                if depth == 0 {
                    let (t0, any) = group.take().unwrap();
                    groups += 1;
                    if t0 != before {
                        t.change(&before);
                    } else if any {
                        t.nothing();
                    } else {
                        st.inc("empty_groups");
                    }
                }
                "end_undo_group()".into()
            }
            BOp::Undo if depth == 0 => {
                let could = t.can_undo();
                let did = b.undo();
                said.push("undo()".into());
                st.desc = format!("{init:?}: {}", said.join("; "));
                t.step(false, 1, &chars(&b), Some(did))?;
                undone += could as u64;
                continue;
            }
            BOp::Redo if depth == 0 => {
                let could = t.can_redo();
                let did = b.redo();
                said.push("redo()".into());
                st.desc = format!("{init:?}: {}", said.join("; "));
                t.step(true, 1, &chars(&b), Some(did))?;
                redone += could as u64;
                continue;
            }
            BOp::Revert if depth == 0 => {
                let did = b.revert();
                said.push("revert()".into());
                st.desc = format!("{init:?}: {}", said.join("; "));
                t.revert(&chars(&b), Some(did))?;
                st.inc("reverts");
                continue;
            }
            BOp::Forget if depth == 0 => {
                b.clear_actions();
                t = Trails::new(&before);
                "clear_actions()".into()
            }
            BOp::Clone => {
                b = b.clone();
                "clone()".into()
            }
            _ => continue,
        });
        st.inc("buffer_ops");
        if edited {
            let after = chars(&b);
            match &mut group {
                Some(g) => g.1 = true,
                None => match mid {
                    Some(m) => t.double(&m, &after),
                    None if after != before => t.change(&after),
                    None => t.nothing(),
                },
            }
        } else if chars(&b) != before {
            st.desc = format!("{init:?}: {}", said.join("; "));
            violation!(
                "{} changed {before:?} to {:?}",
                said.last().unwrap(),
                chars(&b)
            );
        }
        if t.many() {
            break;
        }
    }
    st.add("groups", groups);
    st.add("undone", undone);
    st.add("redone", redone);
    if undone >= 2 && redone >= 1 && groups >= 1 {
        st.nontrivial(sig(&[&init, &said.join(";")]));
    }
    Ok(())
}

/// Entries changed by the application, which are all given back at once.
fn all_entries(case: &mut Case, r: &mut Rng, st: &mut Stats) -> R {
    let a = Alpha {
        space: 10,
        backslash: 0,
        newline: 3,
        odd: 5,
        small: r.range(1, 6),
    };
    let hist = history(r, 6, &a);
    let mut ctx = context(&MockTty::new(80), &hist);
    let hist: Vec<String> = ctx.history.buffers.iter().map(|b| b.to_string()).collect();
    if hist.is_empty() {
        return Ok(());
    }
    let n = steps(r, 1, 30);
    let ops: Vec<(usize, BOp)> = bops(r, &a, n)
        .into_iter()
        .map(|o| (r.below(hist.len()), o))
        .collect();
    let ops = case.keep.filter(ops);
    st.desc = format!("entries {hist:?}: {ops:?}, revert_all_history");
    let mut changed = std::collections::BTreeSet::new();
    for (i, op) in ops {
        let b = &mut ctx.history_mut()[i];
        let len = b.num_chars();
        match op {
            BOp::Insert(at, cs) => b.insert(at % (len + 1), &cs),
            BOp::Remove(i, j) => {
                let (i, j) = (i % (len + 1), j % (len + 1));
                b.remove(i.min(j), i.max(j));
            }
            BOp::Truncate(at) => b.truncate(at % (len + 1)),
            BOp::Copy(cs) => b.copy_buffer(&cs.iter().cloned().collect()),
            BOp::Undo => drop(b.undo()),
            BOp::Redo => drop(b.redo()),
            _ => continue,
        }
        if b.to_string() != hist[i] {
            changed.insert(i);
        }
    }
    let mut c = &mut ctx;
    if r.chance(1, 2) {
        c.revert_all_history();
    } else {
        EditorContext::revert_all_history(&mut c);
    }
    let now: Vec<String> = ctx.history.buffers.iter().map(|b| b.to_string()).collect();
    ensure!(
        now == hist,
        "after reverting all of it the history is {now:?}"
    );
    st.inc("histories_reverted");
    if changed.len() >= 2 {
        let d = st.desc.clone();
        st.nontrivial(sig(&[&d]));
    }
    Ok(())
}

/// The records of the new line and of the recalled entry being edited.
struct Watch {
    new: Trails,
    rec: Option<Trails>,
    /// Contents when the insertion going on began.
    ins: Option<Line>,
}

impl Watch {
    fn cur(&mut self) -> &mut Trails {
        self.rec.as_mut().unwrap_or(&mut self.new)
    }
    fn note(&mut self, from: &Line, to: &Line, edit: bool) {
        if from != to {
            self.cur().change(to);
        } else if edit {
            self.cur().nothing();
        }
    }
}

fn undo_key(r: &mut Rng, l: &Lock, a: &Alpha) -> Key {
    let vi = l.m.vi().is_some();
    if r.chance(1, 3) {
        if !vi {
            return Key::Ctrl('x');
        }
        if l.m.normal() {
            return Key::Char('u');
        }
        if l.m.inserting() && r.chance(1, 2) {
            return Key::Esc;
        }
    }
    live_key(r, &l.m, a)
}

/// Undo and redo through the keys of the two key maps.
fn through_keys(case: &mut Case, r: &mut Rng, st: &mut Stats) -> R {
    let vi = r.chance(3, 5);
    let a = Alpha {
        space: 15,
        backslash: 3,
        newline: 0,
        odd: 4,
        small: r.range(1, 6),
    };
    let mut cfg = Cfg::plain(vi);
    if r.chance(1, 2) {
        cfg.hist = history(r, 5, &a);
    }
    if r.chance(1, 2) {
        cfg.init = a.text(r, 10);
    }
    if enlarge_one(r, 300, &mut cfg.hist, &mut cfg.init, &mut vec![], &a) {
        st.inc("big_cases");
    }
    let n = steps(r, 8, 60);
    let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
    let seeds = case.keep.filter(seeds);
    let mut w = Watch {
        new: Trails::new(&line(&cfg.init)),
        rec: None,
        ins: if vi { Some(line(&cfg.init)) } else { None },
    };
    let mut l = Lock::start(cfg)?;
    l.describe(st);
    let (mut undone, mut redone) = (0, 0);
    for seed in seeds {
        let mut r = Rng::new(seed, "c07k", 0);
        let mut k = undo_key(&mut r, &l, &a);
        let m = &l.m;
        let moves = matches!(k, Key::Left | Key::Right | Key::Home | Key::End);
        let accepts = matches!(k, Key::Right | Key::Ctrl('f')) && m.suggestion().is_some();
        let nowhere = match k {
            Key::Left | Key::Home => m.cursor == 0,
            Key::Right | Key::End => m.cursor == m.text().len(),
            _ => false,
        };
        let moved = vi
            && m.vi()
                .unwrap()
                .ins
                .as_ref()
                .map(|i| i.moved)
                .unwrap_or(false);
        let undo = matches!(k, Key::Ctrl('x')) && !vi || k == Key::Char('u') && m.normal();
        if !undo
            && (ends(m, k)
                || !m.settled(k)
                || matches!(k, Key::Char('\t') | Key::Ctrl('r' | 's') | Key::Alt('.'))
                || accepts
                || vi && m.inserting() && moves && nowhere
                || k == Key::Char('\n') && moved)
        {
            if vi && !m.inserting() && m.pending() {
                k = Key::Esc;
            } else {
                continue;
            }
        }
        if undo {
            let n = m.vi().map(|v| v.count.max(1)).unwrap_or(1) as usize;
            // the key, or what the editor offers by itself
            let how = r.below(10);
            if n > 1 {
                st.inc("undo_with_count");
            }
            if w.rec.is_some() || m.loc.is_some() {
                st.inc("undone_on_recalled");
                if w.rec.is_none() {
                    let t = m.text().clone();
                    w.rec = Some(Trails::new(&t));
                }
            }
            let count = m.vi().map(|v| v.count).unwrap_or(0);
            let (was, was_at, normal) = (m.text().clone(), l.s.ed.cursor(), m.normal());
            let (redo, revert, did, what) = match how {
                0..=3 => {
                    l.adopting(k, st)?;
                    (false, false, None, key_str(k))
                }
                4 if count == 0 => {
                    let d = l.s.ed.undo();
                    (false, false, Some(d), "Editor::undo".into())
                }
                5 | 6 if vi => {
                    let d = l.s.core_key(Key::Ctrl('r')).map(|_| true);
                    if let Err(e) = d {
                        violation!("redo failed: {e}");
                    }
                    (true, false, None, "<C-r>".to_string())
                }
                5..=7 if count == 0 => {
                    let d = l.s.ed.redo();
                    (true, false, Some(d), "Editor::redo".into())
                }
                8 if count == 0 => {
                    let d = l.s.ed.revert();
                    (false, true, Some(d), "Editor::revert".into())
                }
                9 if !vi => {
                    l.adopting(Key::Alt('r'), st)?;
                    (false, true, None, key_str(Key::Alt('r')))
                }
                _ => continue,
            };
            let did = match did {
                Some(Ok(d)) => Some(d),
                Some(Err(e)) => violation!("{what} failed: {e}"),
                None => None,
            };
            if how > 3 && !(how == 9 && !vi) {
                st.desc.push_str(&format!(" {what}"));
            }
            let t = line(&l.s.text());
            ensure!(
                l.s.ed.cursor() <= t.len(),
                "after {what} the cursor is outside the line"
            );
            // to the end of the line, or nowhere
            let at = l.s.ed.cursor();
            if t != was || did == Some(true) {
                let end = if normal { t.len().saturating_sub(1) } else { t.len() };
                ensure!(
                    at == end,
                    "after {what} of {was:?} the cursor is at {at} in {t:?}"
                );
            } else if did == Some(false) {
                ensure!(
                    at == was_at,
                    "{what} did nothing, but moved the cursor from {was_at} to {at} in {t:?}"
                );
                st.inc("nothing_to_undo");
            }
            l.m.adopt(t.clone(), l.s.ed.cursor());
            let c = w.cur();
            let (can_undo, can_redo) = (c.can_undo(), c.can_redo());
            if revert {
                c.revert(&t, did)?;
                st.inc("reverts");
                undone += can_undo as u64;
            } else {
                c.step(redo, n, &t, did)?;
                if redo {
                    redone += can_redo as u64;
                } else {
                    undone += can_undo as u64;
                }
            }
            l.compare(&format!("after {what}"))?;
            continue;
        }
        // an ordinary key
        let was = l.m.text().clone();
        let was_loc = l.m.loc;
        let was_ins = l.m.inserting() && vi;
        let pend = l.m.vi().map(|v| v.pend).unwrap_or(Pend::None);
        l.key(k, st)?;
        let now = l.m.text().clone();
        let ins = vi && l.m.inserting();
        let browse = was_loc != l.m.loc
            || !was_ins && matches!(k, Key::Char('j' | 'k')) && vi && pend == Pend::None
            || matches!(
                k,
                Key::Up | Key::Down | Key::Ctrl('p' | 'n') | Key::Alt('<' | '>')
            ) && !(matches!(
                pend,
                Pend::Find(..) | Pend::Op(..) | Pend::Replace | Pend::G(_)
            ));
        if browse {
            if let Some(b) = w.ins.take() {
                w.note(&b, &was, b == was);
            }
            w.rec = None;
            if l.m.loc.is_some() {
                st.inc("recalled");
                w.rec = Some(Trails::new(&now));
            }
            w.ins = if ins { Some(now) } else { None };
            continue;
        }
        match (was_ins, ins) {
            (true, true) => {
                if moves {
                    let b = w.ins.replace(now.clone()).unwrap();
                    w.note(&b, &now, true);
                    st.inc("insertions_split");
                }
            }
            (true, false) => {
                let b = w.ins.take().unwrap();
                w.note(&b, &now, true);
                st.inc("insertions");
            }
            (false, true) => {
                w.ins = Some(was);
            }
            (false, false) => {
                // which keys edit, even if there may be nothing to do
                let edit = if vi {
                    pend != Pend::None
                        || matches!(k, Key::Char('x' | '~' | 'D' | '.') | Key::Delete)
                } else {
                    matches!(
                        k,
                        Key::Ctrl('u' | 'k' | 'w' | 'd' | 'h')
                            | Key::Alt('\x7f')
                            | Key::Delete
                            | Key::Backspace
                    )
                };
                w.note(&was, &now, edit);
            }
        }
        if w.cur().many() {
            break;
        }
    }
    st.add(if vi { "undone_vi" } else { "undone_emacs" }, undone);
    st.add(if vi { "redone_vi" } else { "redone_emacs" }, redone);
    if undone >= 2 && redone >= 1 {
        let d = st.desc.clone();
        st.nontrivial(sig(&[&d]));
        st.sample(|| d);
    }
    Ok(())
}

impl Check for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (600_000, 60.0),
            Tier::Thorough => (40_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if it took back at least two changes and reinstated one (and, on a bare buffer, closed a group); distinct by the starting text and the operations or keys"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "groups are balanced when undo is asked for",
            "an edit that finds nothing to change may count as a change that alters nothing",
            "taking over a suggestion, a completion or a fetched argument is left out: each is two edits of the text",
        ]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "buffer_ops",
            "groups",
            "nested_groups",
            "deep_groups",
            "empty_groups",
            "undone",
            "redone",
            "undone_vi",
            "redone_vi",
            "undone_emacs",
            "redone_emacs",
            "undo_with_count",
            "undone_on_recalled",
            "reverts",
            "nothing_to_undo",
            "insertions",
            "insertions_split",
            "histories_reverted",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        if r.chance(1, 20) {
            all_entries(case, &mut r, st)
        } else if r.chance(1, 3) {
            through_buffer(case, &mut r, st)
        } else {
            through_keys(case, &mut r, st)
        }
    }
}

fn hash(b: &Buffer) -> u64 {
    let mut h = DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}

fn s(t: &[char]) -> String {
    t.iter().collect()
}

fn widths(t: &[char]) -> Vec<usize> {
    s(t).split('\n').map(|l| l.width()).collect()
}

/// Every query of the buffer, against the plain characters.
fn queries(b: &Buffer, t: &[char], r: &mut Rng, a: &Alpha) -> R {
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {{
            let (got, want) = ($got, $want);
            ensure!(
                got == want,
                "{} of {:?} is {:?}, it must be {:?}",
                $what,
                s(t),
                got,
                want
            );
        }};
    }
    let n = t.len();
    same!("chars", chars(b), t.to_vec());
    same!("num_chars", b.num_chars(), n);
    same!("is_empty", b.is_empty(), n == 0);
    same!("num_bytes", b.num_bytes(), s(t).len());
    same!("as_bytes", b.as_bytes(), s(t).into_bytes());
    same!("to_string", b.to_string(), s(t));
    same!("String::from", String::from(b.clone()), s(t));
    same!("format", format!("{b}"), s(t));
    same!("width", b.width(), widths(t));
    same!(
        "lines",
        b.lines(),
        s(t).split('\n').map(String::from).collect::<Vec<_>>()
    );
    same!(
        "last_arg",
        b.last_arg().map(|x| x.to_vec()).unwrap_or_default(),
        last_arg(t)
    );
    same!(
        "last_arg is none",
        b.last_arg().is_none(),
        t.iter().all(|c| *c == ' ')
    );
    let mut out = vec![];
    let res = b.print(&mut out);
    same!("print", (res.is_ok(), out), (true, s(t).into_bytes()));
    let i = r.below(n + 2);
    same!(
        format!("char_before({i})"),
        b.char_before(i),
        if i == 0 { None } else { t.get(i - 1).cloned() }
    );
    same!(
        format!("char_after({i})"),
        b.char_after(i),
        t.get(i).cloned()
    );
    let mut out = vec![];
    let res = b.print_rest(&mut out, i);
    let rest = s(&t[i.min(n)..]);
    same!(
        format!("print_rest({i})"),
        (res.ok(), String::from_utf8_lossy(&out).into_owned()),
        (Some(rest.len()), rest)
    );
    let (i, j) = (r.below(n + 1), r.below(n + 1));
    let (i, j) = (i.min(j), i.max(j));
    same!(format!("range({i}, {j})"), b.range(i, j), s(&t[i..j]));
    same!(
        format!("range_chars({i}, {j})"),
        b.range_chars(i, j),
        t[i..j].to_vec()
    );
    same!(
        format!("range_width({i}, {j})"),
        b.range_width(i, j),
        widths(&t[i..j])
    );
    // another buffer: a part, an extension, or any text
    let o: Line = match r.below(5) {
        0 => t[..j].to_vec(),
        1 => t[i..j].to_vec(),
        2 => {
            let mut o = t.to_vec();
            o.extend(line(&a.text(r, 3)));
            o
        }
        3 => {
            let mut o = t[..j].to_vec();
            o.push(a.ch(r));
            o
        }
        _ => line(&a.text(r, 5)),
    };
    // reached by edits of its own
    let mut ob: Buffer = t[..i].iter().cloned().collect();
    ob.insert(0, &['q', 'q']);
    ob.undo();
    ob.copy_buffer(&o.iter().cloned().collect());
    let os = s(&o);
    same!(
        format!("starts_with({os:?})"),
        b.starts_with(&ob),
        extends(t, &o)
    );
    same!(
        format!("contains({os:?})"),
        b.contains(&ob),
        contains(t, &o)
    );
    same!(format!("== {os:?}"), *b == ob, t == &o[..]);
    same!(format!("!= {os:?}"), *b != ob, t != &o[..]);
    let plain = Buffer::from(s(t));
    same!("== the same text", *b == plain && plain == *b, true);
    same!("the hash", hash(b), hash(&plain));
    same!("a clone", chars(&b.clone()), t.to_vec());
    same!("From<&str>", Buffer::from(s(t).as_str()) == plain, true);
    Ok(())
}

impl Check for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (800_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if the buffer held a character of more than one byte, a newline and at least four characters at some time; distinct by the operations"
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "inserts",
            "removes",
            "copies",
            "appends",
            "truncates",
            "actions",
            "queries",
            "multi_line",
            "long_lines",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let a = Alpha {
            space: 20,
            backslash: 2,
            newline: r.below(10),
            odd: r.below(20),
            small: r.range(1, 8),
        };
        let n = steps(&mut r, 1, 16);
        let mut ops = bops(&mut r, &a, n);
        let mut init = a.text(&mut r, 12);
        if r.chance(1, 2000) {
            init = long(&mut r, &a);
            st.inc("long_lines");
        }
        let qseed = r.next();
        if r.chance(1, 3) {
            // other white space and control characters are characters like any other
            let x = *r.pick(&[
                '\t', '\u{3000}', '\u{a0}', '\u{b}', '\r', '\0', '\u{2028}', '\u{85}', '\u{2003}',
            ]);
            init = init.replace('a', &x.to_string());
            for o in &mut ops {
                if let BOp::Insert(_, cs)
                | BOp::Copy(cs)
                | BOp::Append(cs)
                | BOp::Raw(_, _, _, cs, _) = o
                {
                    for c in cs.iter_mut().filter(|c| **c == 'a') {
                        *c = x;
                    }
                }
            }
        }
        let ops = case.keep.filter(ops);
        let mut b = Buffer::from(init.as_str());
        let mut t = line(&init);
        let mut said: Vec<String> = vec![];
        let (mut bytes, mut lines) = (false, false);
        st.desc = format!("{init:?}");
        queries(&b, &t, &mut Rng::new(qseed, "q", 0), &a)?;
        for (q, op) in ops.into_iter().enumerate() {
            let len = t.len();
            said.push(format!("{op:?}"));
            st.desc = format!(
                "{init:?}: {} (positions modulo the length plus one)",
                said.join("; ")
            );
            match op {
                BOp::Insert(i, cs) => {
                    let i = i % (len + 1);
                    b.insert(i, &cs);
                    t.splice(i..i, cs);
                    st.inc("inserts");
                }
                BOp::Remove(i, j) => {
                    let (i, j) = (i % (len + 1), j % (len + 1));
                    let (i, j) = (i.min(j), i.max(j));
                    let n = b.remove(i, j);
                    t.drain(i..j);
                    ensure!(n == j - i, "remove({i}, {j}) reports {n} characters");
                    st.inc("removes");
                }
                BOp::Truncate(i) => {
                    b.truncate(i % (len + 1));
                    t.truncate(i % (len + 1));
                    st.inc("truncates");
                }
                BOp::Copy(cs) => {
                    let other: Buffer = cs.iter().cloned().collect();
                    b.copy_buffer(&other);
                    ensure!(chars(&other) == cs, "copying changed the source");
                    t = cs;
                    st.inc("copies");
                }
                BOp::Append(cs) => {
                    let whole: Line = t.iter().cloned().chain(cs.iter().cloned()).collect();
                    b.insert_from_buffer(&whole.iter().cloned().collect());
                    t = whole;
                    st.inc("appends");
                }
                BOp::Open => b.start_undo_group(),
                BOp::Close => b.end_undo_group(),
                BOp::Forget => b.clear_actions(),
                BOp::Clone => b = b.clone(),
                BOp::Raw(insert, i, j, cs, undone) => {
                    let (i, j) = (i % (len + 1), j % (len + 1));
                    let act = if insert {
                        Action::Insert {
                            start: i,
                            text: cs.clone(),
                        }
                    } else {
                        Action::Remove {
                            start: i.min(j),
                            text: t[i.min(j)..i.max(j)].to_vec(),
                        }
                    };
                    let mut after = t.clone();
                    if insert {
                        after.splice(i..i, cs);
                    } else {
                        after.drain(i.min(j)..i.max(j));
                    }
                    act.do_on(&mut b);
                    ensure!(
                        chars(&b) == after,
                        "{act:?} makes {:?} of {t:?}",
                        chars(&b)
                    );
                    if undone {
                        act.undo(&mut b);
                    } else {
                        t = after;
                    }
                    for group in [Action::StartGroup, Action::EndGroup] {
                        group.do_on(&mut b);
                        group.undo(&mut b);
                    }
                    st.inc("actions");
                }
                // the subject of C07
                BOp::Undo | BOp::Redo | BOp::Revert => continue,
            }
            st.inc("queries");
            bytes |= t.iter().any(|c| !c.is_ascii());
            lines |= t.contains(&'\n') && t.len() >= 4;
            queries(&b, &t, &mut Rng::new(qseed, "q", q as u64 + 1), &a)?;
        }
        if lines {
            st.inc("multi_line");
        }
        if bytes && lines {
            let d = st.desc.clone();
            st.nontrivial(sig(&[&d]));
            st.sample(|| d);
        }
        Ok(())
    }
}
