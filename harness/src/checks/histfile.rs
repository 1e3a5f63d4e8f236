//! C14 the history in memory; C15 saving and loading; C16 incremental append; C17 sharing.
use std::collections::BTreeSet;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Barrier};

use liner::{Buffer, Editor, EditorContext, Emacs, History, Key, KeyMap, Prompt, Vi};

use crate::fw::{Case, Check, Stats, Stop, Tier, R};
use crate::gen::{sig, steps, Alpha};
use crate::model::{contains, extends, line, Line};
use crate::rng::Rng;
use crate::sess::{key_str, Comp};
use crate::tty::MockTty;
use crate::{ensure, violation};

pub struct C14;
pub struct C15;
pub struct C16;
pub struct C17;

pub fn entries(h: &History) -> Vec<String> {
    h.buffers.iter().map(|b| b.to_string()).collect()
}

pub fn harness<T>(what: &str, r: std::io::Result<T>) -> R<T> {
    r.map_err(|e| Stop::Inconclusive(format!("{what}: {e}")))
}

/// Only the newest of each.
pub fn newest_only(v: &[String]) -> Vec<String> {
    let mut seen = BTreeSet::new();
    let mut n: Vec<String> = v.iter().rev().filter(|e| seen.insert(*e)).cloned().collect();
    n.reverse();
    n
}

pub fn last(v: &[String], n: usize) -> Vec<String> {
    v[v.len().saturating_sub(n)..].to_vec()
}

/// The entries of a history file: its lines without comments and without what is not UTF-8.
pub fn file_entries(bytes: &[u8]) -> Vec<String> {
    let mut v: Vec<&[u8]> = bytes.split(|b| *b == b'\n').collect();
    let rest = v.pop();
    for l in &mut v {
        // a carriage return belongs to the end of the line
        *l = l.strip_suffix(b"\r").unwrap_or(l);
    }
    v.extend(rest.filter(|l| !l.is_empty()));
    v.iter()
        .filter_map(|l| std::str::from_utf8(l).ok())
        .filter(|l| !l.starts_with('#'))
        .map(String::from)
        .collect()
}

pub fn one_line(r: &mut Rng, a: &Alpha, max: usize) -> String {
    let a = Alpha { newline: 0, ..*a };
    let s = a.text(r, max);
    if max > 3 && r.chance(1, 10) {
        // what looks like a comment further on is not one
        let before = *r.pick(&[" ", "\t", "  ", "a", "a ", "\u{feff}", "\\", "\"", "\u{a0}"]);
        return format!("{before}#{s}");
    }
    match s.strip_prefix('#') {
        Some(t) => t.into(),
        None => s,
    }
}

fn few(r: &mut Rng) -> Alpha {
    Alpha {
        space: r.below(15),
        backslash: 2,
        newline: 0,
        odd: r.below(8),
        small: r.range(1, 5),
    }
}

// ---------------------------------------------------------------------------------------------

impl Check for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (800_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if an entry was dropped at the limit, a duplicate was skipped and one was kept or removed; distinct by the operations"
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "pushed",
            "duplicate_skipped",
            "duplicate_kept",
            "dropped_at_limit",
            "duplicates_removed",
            "cleared",
            "prefix_found",
            "prefix_not_found",
            "subset_found",
            "search_found",
            "bulk",
            "over_ten_thousand",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let mut a = few(&mut r);
        a.newline = r.below(8);
        let (mut n, mut bulk) = (steps(&mut r, 5, 50), 0);
        if r.chance(1, 700) {
            bulk = *r.pick(&[1500, 3000, 25_000]);
            n = r.range(5, 14);
        }
        let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
        let seeds = case.keep.filter(seeds);
        let mut h = if r.chance(1, 2) {
            History::new()
        } else {
            History::default()
        };
        let mut m: Vec<String> = vec![];
        let mut limit = 1000;
        let mut dups = false;
        let mut said: Vec<String> = vec![];
        let (mut skipped, mut dropped, mut kept) = (0, 0, 0);
        for seed in seeds {
            let mut r = Rng::new(seed, "c14", 0);
            let text = match r.below(4) {
                0 if !m.is_empty() => r.pick(&m).clone(),
                1 if !m.is_empty() => m[m.len() - 1].clone(),
                _ => a.text(&mut r, 5),
            };
            if bulk > 0 && r.chance(1, 5) {
                // a great many at once
                let n = *r.pick(&[300, 1100, 1100, bulk]);
                let n = r.range(n / 2, n);
                if r.chance(1, 2) {
                    limit = *r.pick(&[100, 300, 1000, 1024, 5000, 9999, 12000, 30000]);
                    h.set_max_buffers_size(limit);
                }
                said.push(format!(
                    "with a limit of {limit} pushing {n} entries, {text:?} followed by their number"
                ));
                st.desc = said.join("; ");
                for i in 0..n {
                    let e = format!("{text}{i}");
                    let res = h.push(Buffer::from(e.as_str()));
                    ensure!(res.is_ok(), "push({e:?}) failed: {res:?}");
                    if dups || m.last() != Some(&e) {
                        m.push(e);
                    }
                }
                if m.len() > limit {
                    st.inc("dropped_at_limit");
                    dropped += 1;
                }
                m = last(&m, limit);
                st.inc("bulk");
                if m.len() > 10_000 {
                    st.inc("over_ten_thousand");
                }
            }
            match r.below(24) {
                0..=13 => {
                    said.push(format!("push({text:?})"));
                    st.desc = said.join("; ");
                    let res = h.push(Buffer::from(text.as_str()));
                    ensure!(res.is_ok(), "push({text:?}) failed: {res:?}");
                    let dup = m.last() == Some(&text);
                    if dup && !dups {
                        st.inc("duplicate_skipped");
                        skipped += 1;
                    } else {
                        if dup {
                            st.inc("duplicate_kept");
                            kept += 1;
                        }
                        st.inc("pushed");
                        m.push(text);
                        if m.len() > limit {
                            st.inc("dropped_at_limit");
                            dropped += 1;
                        }
                        m = last(&m, limit);
                    }
                }
                14 | 15 => {
                    limit = match r.below(6) {
                        0 => 0,
                        1..=3 if bulk > 0 => r.range(500, 20_000),
                        _ => r.range(1, 12),
                    };
                    said.push(format!("set_max_buffers_size({limit})"));
                    h.set_max_buffers_size(limit);
                }
                16 => {
                    dups = r.chance(1, 2);
                    said.push(format!("append_duplicate_entries = {dups}"));
                    h.append_duplicate_entries = dups;
                }
                17 if r.chance(1, 3) => {
                    said.push("clear_history()".into());
                    h.clear_history();
                    m.clear();
                    st.inc("cleared");
                }
                18 => {
                    said.push(format!("remove_duplicates({text:?})"));
                    h.remove_duplicates(&text);
                    if m.contains(&text) {
                        st.inc("duplicates_removed");
                        kept += 1;
                    }
                    m.retain(|e| *e != text);
                }
                19 => {
                    said.push("clone()".into());
                    h = h.clone();
                }
                _ => {
                    // look something up
                    let t: Line = match r.below(3) {
                        0 if !m.is_empty() => {
                            let e = line(r.pick(&m));
                            let i = r.below(e.len() + 1);
                            let j = r.range(i, e.len());
                            e[if r.chance(1, 2) { 0 } else { i }..j].to_vec()
                        }
                        _ => line(&text),
                    };
                    let s: String = t.iter().collect();
                    let b = Buffer::from(s.as_str());
                    let ls: Vec<Line> = m.iter().map(|e| line(e)).collect();
                    let pos = if r.chance(1, 3) {
                        None
                    } else {
                        Some(r.below(m.len() + 2))
                    };
                    said.push(format!("lookups of {s:?} from {pos:?}"));
                    st.desc = said.join("; ");
                    let got = h.get_newest_match(pos, &b);
                    let want = (0..pos.unwrap_or(m.len()).min(m.len()))
                        .rev()
                        .find(|&i| extends(&ls[i], &t));
                    ensure!(
                        got == want,
                        "get_newest_match({pos:?}, {s:?}) of {m:?} is {got:?}, it must be {want:?}"
                    );
                    st.inc(if want.is_some() {
                        "prefix_found"
                    } else {
                        "prefix_not_found"
                    });
                    let got = h.search_index(&b);
                    let want: Vec<usize> = (0..m.len()).filter(|&i| contains(&ls[i], &t)).collect();
                    ensure!(
                        got == want,
                        "search_index({s:?}) of {m:?} is {got:?}, it must be {want:?}"
                    );
                    if !want.is_empty() {
                        st.inc("search_found");
                    }
                    let got = h.get_history_subset(&b);
                    let mut want: Vec<usize> = (0..m.len())
                        .filter(|&i| contains(&ls[i], &t) && !extends(&ls[i], &t) && ls[i] != t)
                        .collect();
                    want.extend((0..m.len()).filter(|&i| extends(&ls[i], &t)));
                    ensure!(
                        got == want,
                        "get_history_subset({s:?}) of {m:?} is {got:?}, it must be {want:?}"
                    );
                    if want.len() > 1 {
                        st.inc("subset_found");
                    }
                }
            }
            st.inc("operations");
            st.desc = said.join("; ");
            let now = entries(&h);
            ensure!(
                now == m,
                "after {} the history is {now:?}, it must be {m:?}",
                said.last().unwrap()
            );
            ensure!(
                h.len() == m.len() && h.is_empty() == m.is_empty(),
                "len() is {} with {} entries",
                h.len(),
                m.len()
            );
            let it: Vec<String> = (&h).into_iter().map(|b| b.to_string()).collect();
            ensure!(it == m, "iteration gives {it:?} of {m:?}");
            for (i, e) in m.iter().enumerate() {
                ensure!(
                    h[i].to_string() == *e,
                    "entry {i} is {:?}, it must be {e:?}",
                    h[i].to_string()
                );
            }
        }
        if skipped > 0 && dropped > 0 && kept > 0 {
            let d = said.join("; ");
            st.nontrivial(sig(&[&d]));
            st.sample(|| d);
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------

fn file_content(r: &mut Rng, a: &Alpha) -> Vec<u8> {
    let mut v = vec![];
    let n = if r.chance(1, 600) {
        r.range(1000, 2500)
    } else if r.chance(1, 30) {
        r.range(100, 1200)
    } else {
        r.below(14)
    };
    let long = n < 200 && r.chance(1, 20);
    for _ in 0..n {
        match r.below(16) {
            0 => {
                v.push(b'#');
                v.extend(one_line(r, a, 6).bytes());
            }
            1 => {
                v.extend(one_line(r, a, 3).bytes());
                v.extend(*r.pick(&[&b"\xff"[..], b"\xc3", b"\xe6\xbc", b"\x80\x80"]));
                v.extend(one_line(r, a, 3).bytes());
                // a lone lead byte and what follows may form a character after all: an ASCII one
                // between them prevents it
                v.push(b'.');
            }
            2 => {}
            3 if long => {
                let n = r.range(4000, 20000);
                v.extend(std::iter::repeat_n(b'x', n));
                v.extend(one_line(r, a, 3).bytes());
            }
            4 if r.chance(1, 4) => {
                v.extend(one_line(r, a, 4).bytes());
                v.extend(*r.pick(&[&b"\r"[..], b"\rx"]));
            }
            _ => v.extend(one_line(r, a, 6).bytes()),
        }
        v.push(b'\n');
    }
    if r.chance(1, 6) && v.last() == Some(&b'\n') && !v.ends_with(b"\r\n") {
        v.pop();
    }
    v
}

fn short(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(400)]).into_owned();
    format!("{s:?}{}", if b.len() > 400 { "…" } else { "" })
}

impl Check for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (120_000, 60.0),
            Tier::Thorough => (4_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if entries were written and loaded again and a limit, a duplicate, a comment or a line that is not UTF-8 took effect; distinct by the operations"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["entries are single lines without carriage returns that do not start with #"]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "loaded",
            "loaded_after_others",
            "comments_skipped",
            "not_utf8_skipped",
            "limited",
            "duplicates_removed",
            "round_trips",
            "nothing_to_commit",
            "unusable_paths",
            "missing_file",
            "long_lines",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        if r.chance(1, 40) {
            return unusable(case, &mut r, st);
        }
        let a = few(&mut r);
        let n = steps(&mut r, 2, 12);
        let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
        let seeds = case.keep.filter(seeds);
        let p: Vec<PathBuf> = (0..3)
            .map(|i| case.scratch.join(format!("c15-{i}")))
            .collect();
        for f in &p {
            let _ = fs::remove_file(f);
        }
        let mut h = History::new();
        let mut m: Vec<String> = vec![];
        let mut named: Option<usize> = None;
        let mut max_file = 1000;
        let mut said: Vec<String> = vec![];
        let (mut trips, mut effects) = (0, 0);
        for i in 0..3 {
            if r.chance(2, 3) {
                let c = file_content(&mut r, &a);
                said.push(format!("file {i} := {}", short(&c)));
                harness("writing", fs::write(&p[i], c))?;
            }
        }
        if r.chance(1, 2) {
            max_file = r.range(1, 8);
            said.push(format!("set_max_file_size({max_file})"));
            h.set_max_file_size(max_file);
        }
        h.load_duplicates = r.chance(1, 2);
        h.append_duplicate_entries = r.chance(1, 2);
        said.push(format!(
            "load_duplicates={} append_duplicate_entries={}",
            h.load_duplicates, h.append_duplicate_entries
        ));
        // what loading this content gives
        let load =
            |now: &[String], m: &[String], bytes: &[u8], append: bool, max: usize, dups: bool| {
                if append && bytes.is_empty() && now == m {
                    // nothing to load, so nothing need be limited either
                    return m.to_vec();
                }
                let mut v = if append { m.to_vec() } else { vec![] };
                v.extend(file_entries(bytes));
                let v = last(&v, max);
                if dups {
                    v
                } else {
                    newest_only(&v)
                }
            };
        for seed in seeds {
            let mut r = Rng::new(seed, "c15", 0);
            let i = r.below(3);
            let mut what;
            let bytes = fs::read(&p[i]).ok();
            match r.below(20) {
                0..=2 => {
                    let c = file_content(&mut r, &a);
                    if c.len() > 4000 {
                        st.inc("long_lines");
                    }
                    what = format!("file {i} := {}", short(&c));
                    harness("writing", fs::write(&p[i], c))?;
                }
                3..=5 => {
                    let t = one_line(&mut r, &a, 6);
                    what = format!("push({t:?})");
                    if m.last() != Some(&t) || h.append_duplicate_entries {
                        m.push(t.clone());
                    }
                    let inc = h.inc_append;
                    h.inc_append = false;
                    let res = h.push(Buffer::from(t));
                    h.inc_append = inc;
                    ensure!(res.is_ok(), "{what} failed: {res:?}");
                    m = last(&m, 1000);
                }
                6 => {
                    max_file = match r.below(12) {
                        0..=3 => 1000,
                        4 => r.range(100, 6000),
                        _ => r.below(8),
                    };
                    what = format!("set_max_file_size({max_file})");
                    h.set_max_file_size(max_file);
                }
                7 => {
                    h.load_duplicates = r.chance(1, 2);
                    h.append_duplicate_entries = r.chance(1, 2);
                    h.inc_append = r.chance(1, 6);
                    what = format!(
                        "load_duplicates={} append_duplicate_entries={} inc_append={}",
                        h.load_duplicates, h.append_duplicate_entries, h.inc_append
                    );
                }
                8..=11 => {
                    let append = r.chance(1, 2);
                    what = format!("load_history_file({i}, {append})");
                    said.push(what.clone());
                    st.desc = said.join("; ");
                    let res = h.load_history_file(&p[i], append);
                    match &bytes {
                        None => {
                            ensure!(res.is_err(), "{what} of a file that is not there: {res:?}");
                            st.inc("missing_file");
                        }
                        Some(b) => {
                            ensure!(
                                res.as_ref().ok() == Some(&(b.len() as u64)),
                                "{what} of {} bytes gave {res:?}",
                                b.len()
                            );
                            let want =
                                load(&entries(&h), &m, b, append, max_file, h.load_duplicates);
                            note(st, &m, b, append, max_file, h.load_duplicates, &mut effects);
                            m = want;
                        }
                    }
                    said.pop();
                }
                12 | 13 => {
                    what = format!("set_file_name_and_load_history({i})");
                    said.push(what.clone());
                    st.desc = said.join("; ");
                    let res = h.set_file_name_and_load_history(&p[i]);
                    ensure!(res.is_ok(), "{what} failed: {res:?}");
                    named = Some(i);
                    ensure!(
                        h.file_name() == p[i].to_str(),
                        "the file name is {:?}",
                        h.file_name()
                    );
                    match &bytes {
                        // it is created
                        None => ensure!(
                            fs::read(&p[i]).map(|b| b.is_empty()).unwrap_or(false),
                            "{what} does not create the file"
                        ),
                        Some(b) => {
                            note(st, &m, b, false, max_file, h.load_duplicates, &mut effects);
                            m = load(&entries(&h), &m, b, false, max_file, h.load_duplicates);
                        }
                    }
                    said.pop();
                }
                14 => {
                    let append = r.chance(1, 2);
                    what = format!("load_history({append})");
                    let f = named.and_then(|i| fs::read(&p[i]).ok());
                    match (named, f) {
                        (Some(_), Some(f)) if f.len() as u64 != h.file_size => {
                            said.push(what.clone());
                            st.desc = said.join("; ");
                            let res = h.load_history(append);
                            ensure!(res.is_ok(), "{what} failed: {res:?}");
                            note(
                                st,
                                &m,
                                &f,
                                append,
                                max_file,
                                h.load_duplicates,
                                &mut effects,
                            );
                            m = load(&entries(&h), &m, &f, append, max_file, h.load_duplicates);
                            said.pop();
                        }
                        (None, _) => {
                            let res = h.load_history(append);
                            ensure!(res.is_err(), "{what} without a file: {res:?}");
                        }
                        _ => continue,
                    }
                }
                _ => {
                    // save, and load again
                    let by_name = named.is_some() && r.chance(1, 2);
                    let i = if by_name { named.unwrap() } else { i };
                    let bytes = fs::read(&p[i]).ok();
                    what = if by_name {
                        "commit_to_file()".to_string()
                    } else {
                        format!("commit_to_file_path({i})")
                    };
                    said.push(what.clone());
                    st.desc = said.join("; ");
                    if by_name {
                        h.commit_to_file();
                    } else {
                        let res = h.commit_to_file_path(&p[i]);
                        ensure!(res.is_ok(), "{what} failed: {res:?}");
                    }
                    let now = fs::read(&p[i]).ok();
                    if h.inc_append {
                        ensure!(
                            now == bytes,
                            "{what} with incremental append has changed the file"
                        );
                        st.inc("nothing_to_commit");
                    } else {
                        let keep = last(&m, max_file);
                        let want: String = keep.iter().map(|e| format!("{e}\n")).collect();
                        ensure!(
                            now.as_deref() == Some(want.as_bytes()),
                            "{what} of {m:?} (at most {max_file}) wrote {}",
                            short(&now.unwrap_or_default())
                        );
                        let mut h2 = History::new();
                        let res = h2.load_history_file(&p[i], r.chance(1, 2));
                        ensure!(res.is_ok(), "loading what was written failed: {res:?}");
                        let got = entries(&h2);
                        ensure!(
                            got == last(&keep, 1000),
                            "{keep:?} was written, {got:?} was loaded"
                        );
                        trips += !keep.is_empty() as u32;
                        if keep.len() < m.len() {
                            effects += 1;
                        }
                        st.inc("round_trips");
                        // what is in memory may be limited in the same way
                        let now = entries(&h);
                        ensure!(
                            now == m || now == keep,
                            "after {what} the history is {now:?}, it was {m:?}"
                        );
                        m = now;
                    }
                    said.pop();
                }
            }
            if what.len() > 500 {
                let mut k = 500;
                while !what.is_char_boundary(k) {
                    k -= 1;
                }
                what.truncate(k);
            }
            said.push(what);
            st.inc("operations");
            st.desc = said.join("; ");
            let now = entries(&h);
            ensure!(
                now == m,
                "after {} the history is {}, it must be {}",
                said.last().unwrap(),
                clip(&now),
                clip(&m)
            );
        }
        if trips > 0 && effects > 0 {
            let d = said.join("; ");
            st.nontrivial(sig(&[&d]));
            st.sample(|| d);
        }
        Ok(())
    }
}

/// A path that is no file and cannot be one: nothing is read, pushes still work.
fn unusable(case: &mut Case, r: &mut Rng, st: &mut Stats) -> R {
    let dir = case.scratch.join("c15-directory");
    let file = case.scratch.join("c15-a-file");
    let none = case.scratch.join("c15-missing");
    let gone = case.scratch.join("c15-dangling");
    harness("making a directory", fs::create_dir_all(&dir))?;
    harness("writing", fs::write(&file, "entry\n"))?;
    let _ = fs::remove_file(&gone);
    harness(
        "linking",
        std::os::unix::fs::symlink(none.join("nothing"), &gone),
    )?;
    let path = match r.below(4) {
        0 | 1 => dir,
        2 => [none.join("x"), file.join("x")][r.below(2)].clone(),
        _ => gone,
    };
    let is_dir = path.is_dir();
    let mut h = History::new();
    let (max, inc) = (r.range(1, 5), r.chance(1, 2));
    h.set_max_buffers_size(max);
    h.inc_append = inc;
    h.share = r.chance(1, 2);
    h.load_duplicates = r.chance(1, 2);
    let before = if r.chance(1, 2) { vec!["old"] } else { vec![] };
    for e in &before {
        let _ = h.push(Buffer::from(*e));
    }
    let mut said = vec![format!("{before:?}, unusable path {path:?}")];
    let mut m: Vec<String> = before.iter().map(|s| s.to_string()).collect();
    let n = r.range(1, 40);
    for i in 0..=n {
        let what;
        match if i == 0 { 1 } else { r.below(12) } {
            0 => {
                let append = r.chance(1, 2);
                what = format!("load_history_file(_, {append})");
                st.desc = format!("{}; {what}", said.join("; "));
                let res = h.load_history_file(&path, append);
                ensure!(is_dir || res.is_err(), "{what} gave {res:?}");
            }
            1 => {
                what = "set_file_name_and_load_history".to_string();
                st.desc = format!("{}; {what}", said.join("; "));
                let res = h.set_file_name_and_load_history(&path);
                ensure!(is_dir || res.is_err(), "{what} gave {res:?}");
            }
            2 => {
                let append = r.chance(1, 2);
                what = format!("load_history({append})");
                st.desc = format!("{}; {what}", said.join("; "));
                let _ = h.load_history(append);
            }
            3 => {
                what = "commit".to_string();
                st.desc = format!("{}; {what}", said.join("; "));
                let res = h.commit_to_file_path(&path);
                ensure!(inc || res.is_err(), "{what} gave {res:?}");
                h.commit_to_file();
            }
            _ => {
                let e = format!("e{i}");
                what = format!("push({e:?})");
                st.desc = format!("{}; {what}", said.join("; "));
                let res = h.push(Buffer::from(e.as_str()));
                ensure!(res.is_ok(), "{what} failed: {res:?}");
                let now = entries(&h);
                ensure!(
                    now.last() == Some(&e) && now.len() <= max,
                    "after {what} the history is {now:?}, at most {max}"
                );
                m.push(e);
                m = last(&m, max);
            }
        }
        said.push(what);
        let now = entries(&h);
        // replacing the entries by those of a directory leaves none
        if now.len() < m.len() && is_dir {
            m = last(&m, now.len());
        }
        ensure!(
            now == m,
            "after {} the history is {now:?}, it must be {m:?}",
            said.last().unwrap()
        );
    }
    st.inc("unusable_paths");
    Ok(())
}

fn clip(v: &[String]) -> String {
    let s = format!("{v:?}");
    if s.chars().count() > 600 {
        format!(
            "{} entries, {}…",
            v.len(),
            s.chars().take(600).collect::<String>()
        )
    } else {
        s
    }
}

fn note(
    st: &mut Stats,
    m: &[String],
    b: &[u8],
    append: bool,
    max: usize,
    dups: bool,
    effects: &mut u32,
) {
    st.inc("loaded");
    if append && !m.is_empty() {
        st.inc("loaded_after_others");
    }
    let f = file_entries(b);
    let mut e = 0;
    if b.split(|c| *c == b'\n').any(|l| l.starts_with(b"#")) {
        st.inc("comments_skipped");
        e += 1;
    }
    if b.split(|c| *c == b'\n')
        .any(|l| std::str::from_utf8(l).is_err())
    {
        st.inc("not_utf8_skipped");
        e += 1;
    }
    if f.len() + if append { m.len() } else { 0 } > max {
        st.inc("limited");
        e += 1;
    }
    let l = last(&f, max);
    if !dups && newest_only(&l).len() < l.len() {
        st.inc("duplicates_removed");
        e += 1;
    }
    *effects += e;
}

// ---------------------------------------------------------------------------------------------

/// Whether `new` is `old` and one more line, less some older duplicates and some of the oldest
/// entries beyond the limit, and whether anything was taken out.
pub fn compacted(old: &[String], new: &[String], max: usize) -> Result<bool, String> {
    // aligned from the end
    let mut j = new.len();
    let mut removed = false;
    for i in (0..old.len()).rev() {
        if j > 0 && new[j - 1] == old[i] {
            j -= 1;
            continue;
        }
        removed = true;
        let dup = old[i + 1..].contains(&old[i]);
        let beyond = old.len() - i > max;
        if !dup && !beyond && !old[i].starts_with('#') {
            return Err(format!("{:?} has been lost", old[i]));
        }
    }
    if j > 0 {
        return Err(format!("{:?} does not belong there", new[j - 1]));
    }
    Ok(removed)
}

pub fn lines_of(b: &[u8]) -> Vec<String> {
    let mut v: Vec<String> = b
        .split(|c| *c == b'\n')
        .map(|l| String::from_utf8_lossy(l).into_owned())
        .collect();
    if v.last().map(|l| l.is_empty()).unwrap_or(false) {
        v.pop();
    }
    v
}

fn sequential(case: &mut Case, r: &mut Rng, st: &mut Stats) -> R {
    let a = few(r);
    let p = case.scratch.join("c16");
    let long = r.chance(1, 10);
    let mut init: Vec<String> = (0..r.below(8)).map(|_| one_line(r, &a, 4)).collect();
    if r.chance(1, 8) {
        init.insert(0, "# a comment".into());
    }
    let many = r.chance(1, 150);
    if many {
        st.inc("big_files");
        let k = r.range(200, 3000);
        init.extend((0..k).map(|i| {
            if r.chance(1, 4) {
                one_line(r, &a, 4)
            } else {
                format!("earlier {i}")
            }
        }));
    }
    let max_file = if r.chance(1, 3) { 1000 } else { r.range(1, 60) };
    let max_mem = if r.chance(1, 2) { 1000 } else { r.range(1, 20) };
    let n = if many {
        r.range(60, 700)
    } else if r.chance(1, 2) {
        r.range(1, 30)
    } else {
        r.range(60, 130)
    };
    // pushes, from a pool or not
    let ops: Vec<String> = (0..n)
        .map(|_| {
            if long && r.chance(1, 12) {
                let n = r.range(3000, 70000);
                "é".repeat(n / 2)
            } else {
                one_line(r, &a, 4)
            }
        })
        .collect();
    let (share, load_dups, dups) = (r.chance(1, 2), r.chance(1, 3), r.chance(1, 3));
    let ops = case.keep.filter(ops);
    st.desc = format!(
        "share={share} load_duplicates={load_dups} append_duplicate_entries={dups} max_file={max_file} max_buffers={max_mem}\nfile: {}\npushes: {}",
        clip(&init),
        clip(&ops)
    );
    let content: String = init.iter().map(|l| format!("{l}\n")).collect();
    harness("writing", fs::write(&p, content))?;
    let mut h = History::new();
    h.inc_append = true;
    h.share = share;
    h.load_duplicates = load_dups;
    h.append_duplicate_entries = dups;
    h.set_max_file_size(max_file);
    h.set_max_buffers_size(max_mem);
    let res = h.set_file_name_and_load_history(&p);
    ensure!(res.is_ok(), "loading failed: {res:?}");
    let mut file = harness("reading", fs::read(&p))?;
    let mut compactions = 0;
    let mut accepted_pushes = 0;
    for (i, e) in ops.iter().enumerate() {
        let accepted = dups || entries(&h).last() != Some(e);
        let res = h.push(Buffer::from(e.as_str()));
        st.inc("pushes");
        let what = format!(
            "push {} ({:?})",
            i + 1,
            e.chars().take(40).collect::<String>()
        );
        ensure!(res.is_ok(), "{what} failed: {res:?}");
        let now = harness("reading", fs::read(&p))?;
        if !accepted {
            st.inc("duplicates_skipped");
            ensure!(
                now == file,
                "{what} is skipped as a duplicate and yet the file has changed"
            );
            continue;
        }
        let mut whole = file.clone();
        whole.extend(format!("{e}\n").bytes());
        if now != whole {
            ensure!(
                !load_dups,
                "after {what} the file is not what it was and the entry: {} bytes, it must be {}",
                now.len(),
                whole.len()
            );
            let (old, new) = (lines_of(&whole), lines_of(&now));
            ensure!(
                new.last() == Some(e) && now.last() == Some(&b'\n'),
                "after {what} the last line of the file is {:?}",
                new.last()
            );
            match compacted(&old, &new, max_file) {
                Ok(true) => {
                    compactions += 1;
                    st.inc("compactions");
                }
                Ok(false) => violation!("after {what} the file is {}", short(&now)),
                Err(x) => violation!(
                    "{x} from the file after {what}; it was {} and is {}",
                    clip(&old),
                    clip(&new)
                ),
            }
        }
        accepted_pushes += 1;
        if !load_dups && accepted_pushes >= 30 {
            // Lines that look like comments are not entries to the compaction.
            let l: Vec<String> = lines_of(&now)
                .into_iter()
                .filter(|l| !l.starts_with('#'))
                .collect();
            let distinct: BTreeSet<&String> = l.iter().collect();
            ensure!(
                l.len() <= max_file + 30,
                "after {what} there are {} entries in the file, the maximum is {max_file}",
                l.len()
            );
            ensure!(
                l.len() - distinct.len() <= 30,
                "after {what} there are {} older duplicates in the file",
                l.len() - distinct.len()
            );
            if l.len() > max_file || l.len() > distinct.len() {
                st.inc("kept_near_the_maximum");
            }
        }
        if e.len() > 8000 {
            st.inc("long_entries");
        }
        let mem = entries(&h);
        ensure!(
            mem.last() == Some(e) && mem.len() <= max_mem,
            "after {what} there are {} entries in memory, the newest is {:?}",
            mem.len(),
            mem.last()
        );
        file = now;
    }
    st.add("sequential_cases", 1);
    if ops.len() >= 30 || compactions > 0 {
        let d = st.desc.clone();
        st.nontrivial(sig(&[&d]));
        st.sample(|| d);
    }
    Ok(())
}

fn entry_of(id: usize, k: usize, r: &mut Rng) -> String {
    let n = match r.below(20) {
        0 => r.below(20_000),
        1..=4 => r.below(300),
        _ => r.below(12),
    };
    format!("s{id} e{k} {}", "abc é".repeat(n / 5 + 1))
}

fn appender(
    path: &Path,
    id: usize,
    n: usize,
    seed: u64,
    share: bool,
    start: impl FnOnce(),
) -> Result<(), String> {
    let mut h = History::new();
    h.inc_append = true;
    h.share = share;
    let mut r = Rng::new(seed, "append", id as u64);
    h.set_file_name_and_load_history(path)
        .map_err(|e| format!("session {id}: loading failed: {e}"))?;
    start();
    for k in 0..n {
        let e = entry_of(id, k, &mut r);
        h.push(Buffer::from(e))
            .map_err(|e| format!("session {id}: push failed: {e}"))?;
        if r.chance(1, 8) {
            std::thread::yield_now();
        }
        if share && r.chance(1, 10) {
            h.load_history(false)
                .map_err(|e| format!("session {id}: loading failed: {e}"))?;
        }
    }
    Ok(())
}

/// `lv append-child PATH ID N SEED`: a session in a process of its own.
pub fn append_child(path: &str, id: usize, n: usize, seed: u64) -> i32 {
    match appender(Path::new(path), id, n, seed, id % 2 == 0, || {}) {
        Ok(()) => 0,
        Err(e) => {
            eprintln!("{e}");
            1
        }
    }
}

fn concurrent(case: &mut Case, r: &mut Rng, st: &mut Stats, procs: bool) -> R {
    let p = case.scratch.join("c16-many");
    let init: Vec<String> = (0..r.below(5)).map(|i| format!("earlier {i}")).collect();
    let content: String = init.iter().map(|l| format!("{l}\n")).collect();
    harness("writing", fs::write(&p, content))?;
    let k = r.range(2, 6);
    let n = if procs {
        r.range(20, 120)
    } else {
        r.range(10, 60)
    };
    let seed = r.next();
    st.desc = format!(
        "{k} {} appending {n} entries each to one file (seed {seed})",
        if procs { "processes" } else { "threads" }
    );
    if procs {
        let exe = harness("own path", std::env::current_exe())?;
        let mut v = vec![];
        for id in 0..k {
            let c = std::process::Command::new(&exe)
                .args([
                    "append-child",
                    p.to_str().unwrap(),
                    &id.to_string(),
                    &n.to_string(),
                    &seed.to_string(),
                ])
                .stderr(std::process::Stdio::piped())
                .spawn();
            v.push(harness("starting a process", c)?);
        }
        for c in v {
            let o = harness("waiting", c.wait_with_output())?;
            ensure!(
                o.status.success(),
                "a session failed ({}): {}",
                o.status,
                String::from_utf8_lossy(&o.stderr)
            );
        }
        st.inc("process_cases");
    } else {
        let bar = Arc::new(Barrier::new(k));
        let hs: Vec<_> = (0..k)
            .map(|id| {
                let (bar, p) = (bar.clone(), p.clone());
                std::thread::spawn(move || {
                    appender(&p, id, n, seed, id % 2 == 0, || {
                        bar.wait();
                    })
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(Ok(())) => {}
                Ok(Err(e)) => violation!("{e}"),
                Err(_) => violation!("a session panicked"),
            }
        }
        st.inc("thread_cases");
    }
    // conservation and order, from the file alone
    let got = lines_of(&harness("reading", fs::read(&p))?);
    let mut want: Vec<Vec<String>> = (0..k)
        .map(|id| {
            let mut r = Rng::new(seed, "append", id as u64);
            (0..n)
                .map(|k| {
                    let e = entry_of(id, k, &mut r);
                    if r.chance(1, 8) {}
                    if id % 2 == 0 && r.chance(1, 10) {}
                    e
                })
                .collect::<Vec<_>>()
        })
        .map(|v| v.into_iter().rev().collect())
        .collect();
    ensure!(
        got.len() >= init.len() && got[..init.len()] == init[..],
        "what was in the file before is {}",
        clip(&got[..init.len().min(got.len())])
    );
    let mut switches = 0;
    let mut before = usize::MAX;
    for (i, l) in got[init.len()..].iter().enumerate() {
        match (0..k).find(|&id| want[id].last() == Some(l)) {
            Some(id) => {
                want[id].pop();
                if before != id {
                    switches += 1;
                }
                before = id;
            }
            None => violation!(
                "line {} of the file, {:?}, is torn, doubled or out of order",
                init.len() + i + 1,
                l.chars().take(80).collect::<String>()
            ),
        }
    }
    for w in &want {
        if let Some(e) = w.last() {
            violation!(
                "{} entries are missing from the file, the first of them {:?}",
                want.iter().map(|w| w.len()).sum::<usize>(),
                e.chars().take(60).collect::<String>()
            );
        }
    }
    st.add("concurrent_pushes", (k * n) as u64);
    st.add("session_switches", switches);
    st.max("session_switches_in_a_case", switches);
    if switches as usize > 2 * k {
        let order: String = got
            .iter()
            .map(|l| l.split(' ').next().unwrap_or("").to_string())
            .collect();
        st.nontrivial(sig(&[&order]));
        st.inc("interleaved_cases");
    }
    Ok(())
}

impl Check for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (20_000, 60.0),
            Tier::Thorough => (3_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a sequential case is non-trivial if it pushed at least thirty entries or a compaction took something out, distinct by configuration and pushes; a concurrent one if the file changed hands more than twice as often as there are sessions, distinct by the order of the sessions' lines in the file"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "entries are single lines, the file ends with a newline, and nobody removes it",
            "concurrent sessions allow duplicates to be loaded, so that none of them compacts the file",
            "a file system on which appending writes are atomic",
        ]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "pushes",
            "duplicates_skipped",
            "compactions",
            "kept_near_the_maximum",
            "big_files",
            "long_entries",
            "thread_cases",
            "process_cases",
            "interleaved_cases",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        match r.below(100) {
            0..=5 => concurrent(case, &mut r, st, false),
            6 | 7 => concurrent(case, &mut r, st, true),
            _ => sequential(case, &mut r, st),
        }
    }
}

// ---------------------------------------------------------------------------------------------

enum Map {
    Emacs(Emacs),
    Vi(Vi),
}

impl Check for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (150_000, 60.0),
            Tier::Thorough => (3_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if a session started browsing or searching at least twice after others had appended; distinct by configuration and events"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a change of the file changes its length (the library looks at nothing else)",
            "entries are single lines; limits on entries are the same in memory and in the file",
        ]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "browses",
            "searches",
            "appended_by_others",
            "saw_others",
            "saw_own",
            "file_shrank",
            "file_emptied",
            "file_removed",
            "former_length",
            "limited",
            "during_browsing",
            "big_files",
            "file_switched",
            "as_long_as_the_earlier",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let a = few(&mut r);
        let p = case.scratch.join("c17");
        let others = r.range(1, 3);
        let load_dups = r.chance(1, 2);
        let max = if load_dups && r.chance(1, 2) {
            r.range(1, 12)
        } else {
            1000
        };
        let dups = r.chance(1, 3);
        let vi = r.chance(1, 2);
        let mut init: Vec<String> = (0..r.below(6)).map(|_| one_line(&mut r, &a, 5)).collect();
        let big = r.chance(1, 150);
        if big {
            st.inc("big_files");
            // without duplicates the file must stay below the maximum, or it is rewritten
            let k = if load_dups {
                r.range(200, 3000)
            } else {
                r.range(100, 600)
            };
            init.extend((0..k).map(|i| format!("earlier {i}")));
        }
        let lines = steps(&mut r, 1, 4);
        let plan: Vec<(bool, u64)> = (0..lines)
            .flat_map(|_| {
                let mut v = vec![(true, 0)];
                for _ in 0..r.range(4, 20) {
                    v.push((false, r.next()));
                }
                v
            })
            .collect();
        let plan = case.keep.filter(plan);
        // the session has worked with another file before
        let switched = r.chance(1, 5);
        let earlier: Vec<String> = if switched {
            st.inc("file_switched");
            if r.chance(2, 3) {
                init.clear();
            }
            (0..r.range(1, 4)).map(|_| one_line(&mut r, &a, 5)).collect()
        } else {
            vec![]
        };
        let lines_of = |l: &[String]| -> String { l.iter().map(|l| format!("{l}\n")).collect() };
        let other = case.scratch.join("c17-earlier");
        if switched {
            harness("writing", fs::write(&other, lines_of(&earlier)))?;
        }
        if switched && init.is_empty() && r.chance(3, 4) {
            // the file is yet to be made
            let _ = fs::remove_file(&p);
        } else {
            harness("writing", fs::write(&p, lines_of(&init)))?;
        }
        let mut said: Vec<String> = vec![format!(
            "{} load_duplicates={load_dups} append_duplicate_entries={dups} max={max} file={}{}",
            if vi { "Vi" } else { "Emacs" },
            clip(&init),
            if switched {
                format!(" earlier file={earlier:?}")
            } else {
                String::new()
            }
        )];
        let tty = MockTty::new(60);
        let mut ctx = crate::sess::context(&tty, &[]);
        let set = |h: &mut History| -> R {
            h.inc_append = true;
            h.share = true;
            h.load_duplicates = load_dups;
            h.append_duplicate_entries = dups;
            h.set_max_file_size(max);
            h.set_max_buffers_size(max);
            let res = h.set_file_name_and_load_history(&p);
            ensure!(res.is_ok(), "loading failed: {res:?}");
            Ok(())
        };
        if switched {
            ctx.history.share = true;
            let res = ctx.history.set_file_name_and_load_history(&other);
            ensure!(res.is_ok(), "loading failed: {res:?}");
        }
        set(&mut ctx.history)?;
        let mut rest: Vec<History> = vec![];
        for _ in 0..others {
            let mut h = History::new();
            set(&mut h)?;
            rest.push(h);
        }
        let seen = |bytes: &[u8]| -> Vec<String> {
            let v = last(&file_entries(bytes), max);
            if load_dups {
                v
            } else {
                newest_only(&v)
            }
        };
        // the content the session has last been in step with
        let mut known = harness("reading", fs::read(&p))?;
        // and how long it takes the file to be, with what it has appended itself
        let mut size = known.len() as u64;
        // or, when it has compacted the file, it may have read it again
        let mut or_size = None;
        let mut lengths = vec![size];
        let mut fresh = 0;
        let mut by_others = 0;
        let mut bulk = 0;
        if switched {
            let l = lines_of(&earlier).len();
            lengths.push(l as u64);
            if known.is_empty() && r.chance(1, 2) {
                // others make it as long as the earlier one
                let e: String = std::iter::repeat('o').take(l - 1).collect();
                said.push(format!("[0: push {e:?}]"));
                let res = rest[0].push(Buffer::from(e));
                ensure!(res.is_ok(), "push failed: {res:?}");
                by_others += 1;
                st.inc("as_long_as_the_earlier");
            }
        }
        let mut i = 0;
        while i < plan.len() {
            if plan[i].0 {
                i += 1;
                continue;
            }
            let mut ed = match Editor::new(Prompt::from("$ "), None, &mut ctx) {
                Ok(e) => e,
                Err(e) => violation!("starting the editor failed: {e}"),
            };
            let mut map = if vi {
                Map::Vi(Vi::new())
            } else {
                Map::Emacs(Emacs::new())
            };
            let mut comp = Comp::none();
            if let Map::Vi(m) = &mut map {
                let _ = m.init(&mut ed);
            }
            said.push("| new line |".into());
            let mut submit = None;
            let mut searching = false;
            while i < plan.len() && !plan[i].0 {
                let mut r = Rng::new(plan[i].1, "c17", 0);
                i += 1;
                st.inc("events");
                match r.below(30) {
                    0..=6 => {
                        // another session submits a line
                        let e = one_line(&mut r, &a, 5);
                        let o = r.below(rest.len());
                        let n = r.range(20, 250);
                        if big && r.chance(1, 12) && (load_dups || init.len() + bulk + n < 900) {
                            // many of them
                            said.push(format!("[{o}: push {n} entries]"));
                            for i in 0..n {
                                let res = rest[o].push(Buffer::from(format!("{e} {i}")));
                                ensure!(res.is_ok(), "push failed: {res:?}");
                            }
                            bulk += n;
                        }
                        said.push(format!("[{o}: push {e:?}]"));
                        st.desc = said.join(" ");
                        let res = rest[o].push(Buffer::from(e));
                        ensure!(res.is_ok(), "push failed: {res:?}");
                        st.inc("appended_by_others");
                        by_others += 1;
                        if ed.current_history_location().is_some() || searching {
                            st.inc("during_browsing");
                        }
                        continue;
                    }
                    7 => {
                        // and starts browsing
                        let o = r.below(rest.len());
                        said.push(format!("[{o}: load]"));
                        let _ = rest[o].load_history(false);
                        continue;
                    }
                    8 if r.chance(1, 4) => {
                        let b = fs::read(&p).unwrap_or_default();
                        match r.below(4) {
                            3 if lengths.iter().any(|l| *l != size && *l > 0) => {
                                // as long as it once was, with something else
                                let l: Vec<u64> = lengths
                                    .iter()
                                    .copied()
                                    .filter(|l| *l != size && *l > 0)
                                    .collect();
                                let l = *r.pick(&l) as usize;
                                let mut c = vec![b'r'; l];
                                for j in 0..l {
                                    if j % 7 == 6 || j + 1 == l {
                                        c[j] = b'\n';
                                    } else {
                                        c[j] = b'r' + (j % 7) as u8;
                                    }
                                }
                                said.push(format!("[file rewritten with {l} bytes]"));
                                harness("rewriting", fs::write(&p, c))?;
                                st.inc("former_length");
                            }
                            0 => {
                                said.push("[file emptied]".into());
                                harness("emptying", fs::write(&p, ""))?;
                                st.inc("file_emptied");
                            }
                            1 if b.len() > 2 => {
                                let l = file_entries(&b);
                                let k = r.below(l.len().max(1));
                                said.push(format!("[file shrinks to its last {k} lines]"));
                                let c: String =
                                    last(&l, k).iter().map(|l| format!("{l}\n")).collect();
                                harness("shrinking", fs::write(&p, c))?;
                                st.inc("file_shrank");
                            }
                            _ => {
                                said.push("[file removed]".into());
                                let _ = fs::remove_file(&p);
                                st.inc("file_removed");
                            }
                        }
                        by_others += 1;
                        continue;
                    }
                    _ => {}
                }
                let k = match r.below(16) {
                    0..=5 => Key::Up,
                    6 | 7 => Key::Down,
                    8 | 9 => *r.pick(&[Key::Ctrl('r'), Key::Ctrl('s')]),
                    10 if !vi => *r.pick(&[Key::Alt('<'), Key::Alt('>'), Key::Ctrl('p')]),
                    11 => Key::Backspace,
                    12 => Key::Char('\n'),
                    13 => Key::Ctrl('l'),
                    _ => Key::Char(*r.pick(&['a', 'b', ' '])),
                };
                let was_loc = ed.current_history_location();
                let starts = match k {
                    Key::Up | Key::Ctrl('p') => !searching && was_loc.is_none(),
                    Key::Alt('<') => was_loc.is_none(),
                    Key::Ctrl('r' | 's') => !searching,
                    _ => false,
                };
                let before = entries(ed.context().history());
                said.push(key_str(k));
                st.desc = said.join(" ");
                let res = match &mut map {
                    Map::Emacs(m) => m.handle_key(k, &mut ed, &mut comp),
                    Map::Vi(m) => m.handle_key(k, &mut ed, &mut comp),
                };
                let now = entries(ed.context().history());
                let file = fs::read(&p).ok();
                match k {
                    Key::Ctrl('r' | 's') => searching = true,
                    Key::Ctrl('l') | Key::Alt('<' | '>') | Key::Char('\n') => searching = false,
                    _ => {}
                }
                if starts {
                    st.inc(if matches!(k, Key::Ctrl('r' | 's')) {
                        "searches"
                    } else {
                        "browses"
                    });
                    match file {
                        None => ensure!(
                            now == before,
                            "with the history file gone the history is {now:?}, it was {before:?}"
                        ),
                        Some(f)
                            if f != known
                                && (f.len() as u64 == size || Some(f.len() as u64) == or_size) =>
                        {
                            // cannot be noticed; what there is from now on is open
                            st.inc("same_length");
                            return Ok(());
                        }
                        Some(f) => {
                            let want = seen(&f);
                            let got = if load_dups {
                                now.clone()
                            } else {
                                newest_only(&now)
                            };
                            ensure!(
                                got == want,
                                "when {} starts, the history is {now:?}; the file holds {want:?}",
                                if matches!(k, Key::Ctrl('r' | 's')) {
                                    "searching"
                                } else {
                                    "browsing"
                                }
                            );
                            if by_others > 0 {
                                st.inc("saw_others");
                                fresh += 1;
                                by_others = 0;
                            }
                            if file_entries(&f).len() > max {
                                st.inc("limited");
                            }
                            size = f.len() as u64;
                            or_size = None;
                            if !lengths.contains(&size) {
                                lengths.push(size);
                            }
                            known = f;
                        }
                    }
                } else {
                    ensure!(
                        now == before,
                        "{} changed the history from {before:?} to {now:?}",
                        key_str(k)
                    );
                }
                if let Some(i) = ed.current_history_location() {
                    ensure!(
                        i < now.len(),
                        "the place in history is {i} of {}",
                        now.len()
                    );
                    if matches!(k, Key::Up | Key::Down | Key::Ctrl('p') | Key::Alt('<')) {
                        let t = ed.current_buffer().to_string();
                        ensure!(t == now[i], "entry {i} is {:?}, the line is {t:?}", now[i]);
                    }
                }
                match res {
                    Ok(true) => {
                        submit = Some(ed.current_buffer().to_string());
                        break;
                    }
                    Ok(false) => {}
                    Err(e) => violation!("{} failed: {e}", key_str(k)),
                }
            }
            drop(ed);
            // skip what is left of this line
            while i < plan.len() && !plan[i].0 && submit.is_some() {
                i += 1;
            }
            if let Some(t) = submit {
                if t.starts_with('#') || t.contains('\n') {
                    continue;
                }
                let was = fs::read(&p).ok();
                // with a file just made, the entries from before stay until it is read
                let fitting = !switched
                    || known.len() > 0
                    || ctx.history.buffers.is_empty();
                let same = was.as_ref() == Some(&known) && fitting;
                said.push(format!("[push {t:?}]"));
                st.desc = said.join(" ");
                let res = ctx.history.push(Buffer::from(t.as_str()));
                ensure!(res.is_ok(), "push failed: {res:?}");
                st.inc("saw_own");
                if !p.exists() {
                    // the entry is in memory only: never again in step until the file is read
                    known = b"\xff".to_vec();
                } else if same {
                    // still in step
                    known = fs::read(&p).unwrap_or_default();
                } else if !fitting {
                    known = b"\xff".to_vec();
                }
                if let (Some(was), Ok(now)) = (was, fs::read(&p)) {
                    let (l0, l) = (was.len() as u64, now.len() as u64);
                    size = (size + l).saturating_sub(l0);
                    or_size = if now.starts_with(&was) {
                        or_size.map(|s| s + l - l0)
                    } else {
                        Some(l)
                    };
                }
            }
        }
        if fresh >= 2 {
            let d = said.join(" ");
            st.nontrivial(sig(&[&d]));
            st.sample(|| d);
        }
        Ok(())
    }
}
