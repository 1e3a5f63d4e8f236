//! C18 completion; C19 file names; C20 words and the cursor among them.
use std::fs;
use std::path::{Path, PathBuf};

use liner::{
    get_buffer_words, BasicCompleter, Buffer, Completer, CursorPosition, EditorContext,
    FilenameCompleter, Key,
};

use crate::checks::screen::{ends, live_key};
use crate::fw::{Case, Check, Stats, Stop, Tier, R};
use crate::gen::{history, long, sig, steps, Alpha};
use crate::lock::{describe, Lock};
use crate::model::{line, words, DIVIDERS};
use crate::rng::{hash_str, mix, Rng};
use crate::sess::{Cfg, Comp, Sess};
use crate::tty::MockTty;
use crate::{ensure, violation};

pub struct C18;
pub struct C19;
pub struct C20;

/// Candidates that share beginnings, with duplicates, in any order.
fn candidates(r: &mut Rng, a: &Alpha) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for _ in 0..r.below(7) {
        let c = match r.below(5) {
            0 | 1 if !v.is_empty() => {
                let b: Vec<char> = r.pick(&v).chars().collect();
                let k = r.below(b.len() + 1);
                format!("{}{}", b[..k].iter().collect::<String>(), a.text(r, 3))
            }
            2 if !v.is_empty() => r.pick(&v).clone(),
            _ => a.text(r, 5),
        };
        v.push(c);
    }
    if !v.is_empty() && r.chance(1, 2) {
        // all of them begin alike
        let p = a.text1(r, 3);
        for c in &mut v {
            *c = format!("{p}{c}");
        }
    }
    v
}

impl Check for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (480_000, 60.0),
            Tier::Thorough => (30_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if a common beginning was filled in or a list was cycled through, with text both before and after the word; distinct by configuration and keys"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["Tab in vi's normal mode and during a search is left out"]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "asked",
            "single_candidate",
            "no_candidate",
            "common_prefix",
            "listed",
            "cycled",
            "wrapped_around",
            "cycle_ended",
            "text_on_both_sides",
            "within_a_word",
            "on_recalled",
            "basic_completer",
            "other_dividers",
            "many_candidates",
            "long_candidates",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let vi = r.chance(1, 3);
        let a = Alpha {
            space: 18,
            backslash: 4,
            newline: 0,
            odd: 3,
            small: r.range(1, 4),
        };
        let ca = Alpha {
            space: *r.pick(&[0, 0, 0, 10]),
            backslash: *r.pick(&[0, 0, 5]),
            ..a
        };
        let mut cfg = Cfg::plain(vi);
        cfg.width = *r.pick(&[20, 100]);
        if r.chance(1, 2) {
            cfg.init = a.text(&mut r, 12);
        }
        if r.chance(1, 3) {
            cfg.hist = history(&mut r, 4, &a);
        }
        if r.chance(1, 4) {
            cfg.divide = Some(*r.pick(DIVIDERS));
            st.inc("other_dividers");
        }
        // always the same; those that begin with the word; or something for every word
        let kind = r.below(3);
        let mut cands = candidates(&mut r, &ca);
        let mut many = 0;
        if r.chance(1, 200) {
            st.inc("many_candidates");
            let p = ca.text(&mut r, 2);
            many = *r.pick(&[30, 70, 130, 260, 520]);
            many = r.range(many / 2, many);
            for i in 0..many {
                let c = match r.below(4) {
                    0 => ca.text(&mut r, 6),
                    1 => format!("{p}{}", ca.text(&mut r, 60)),
                    _ => format!("{p}{i}"),
                };
                cands.push(c);
            }
        }
        let mut sets: Vec<Vec<String>> = (0..4).map(|_| candidates(&mut r, &ca)).collect();
        if many == 0 && r.chance(1, 100) {
            st.inc("long_candidates");
            let n = *r.pick(&[20, 50, 100, 200, 400, 1500]);
            let p: String = (0..r.range(n / 2, n)).map(|_| ca.ch(&mut r)).collect();
            for c in cands.iter_mut().chain(sets.iter_mut().flatten()) {
                c.insert_str(0, &p);
            }
        }
        let n = steps(&mut r, 4, 30);
        let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
        let seeds = case.keep.filter(seeds);
        let mut steps: Vec<(u64, bool)> = vec![];
        for s in seeds {
            steps.push((s, false));
            if many > 0 && s % 10 == 0 {
                // all the way round
                steps.extend((0..many + 4).map(|_| (s, true)));
            }
        }
        let c2 = cands.clone();
        let answer = move |w: &str| -> Vec<String> {
            match kind {
                0 => c2.clone(),
                1 => c2.iter().filter(|c| c.starts_with(w)).cloned().collect(),
                _ => {
                    let k = mix(hash_str(w)) as usize;
                    sets[k % sets.len()]
                        .iter()
                        .map(|c| {
                            if k & 8 == 0 {
                                format!("{w}{c}")
                            } else {
                                c.clone()
                            }
                        })
                        .collect()
                }
            }
        };
        // the library's own list completer must agree with the second kind
        if kind == 1 {
            let mut b = BasicCompleter::new(cands.clone());
            for w in [
                "",
                "a",
                "b",
                cands.first().map(|s| s.as_str()).unwrap_or("x"),
            ] {
                let (got, want) = (b.completions(w), answer(w));
                ensure!(
                    got == want,
                    "the basic completer of {cands:?} gives {got:?} for {w:?}, it must give {want:?}"
                );
                st.inc("basic_completer");
            }
        }
        let mut l = Lock::start_with(cfg, answer)?;
        l.head.push_str(&format!(" completer={kind}:{cands:?}"));
        l.describe(st);
        let (mut filled, mut sides) = (false, false);
        for (seed, tab) in steps {
            let mut r = Rng::new(seed, "c18", 0);
            let k = if tab || r.chance(1, 2) {
                Key::Char('\t')
            } else {
                live_key(&mut r, &l.m, &a)
            };
            if ends(&l.m, k) || !l.m.settled(k) {
                if vi && !l.m.inserting() {
                    let k = if l.m.pending() {
                        Key::Esc
                    } else {
                        Key::Char('a')
                    };
                    l.key(k, st)?;
                }
                continue;
            }
            let was = l.m.text().clone();
            let had = l.m.hint.clone();
            let asked = l.m.asked.len();
            let from = l.m.word_part();
            let cur = l.m.cursor;
            l.key(k, st)?;
            if k == Key::Char('\t') {
                st.inc("tabs");
                let both = from > 0 && cur < was.len();
                if both {
                    st.inc("text_on_both_sides");
                    sides = true;
                }
                if cur < was.len() && cur > from && was[cur] != ' ' {
                    st.inc("within_a_word");
                }
                if l.m.loc.is_some() {
                    st.inc("on_recalled");
                }
                let now = l.m.hint.clone();
                match (&had, &now) {
                    (Some((_, Some(i))), Some((_, Some(j)))) => {
                        filled = true;
                        st.inc("cycled");
                        if j < i {
                            st.inc("wrapped_around");
                        }
                    }
                    (None, Some(_)) => st.inc("listed"),
                    (None, None) if l.m.asked.len() > asked => {
                        let n = (l.answer)(&l.m.asked[asked]).len();
                        st.inc(match n {
                            0 => "no_candidate",
                            1 => "single_candidate",
                            _ => {
                                filled = true;
                                "common_prefix"
                            }
                        });
                    }
                    _ => {}
                }
            } else if had.is_some() {
                st.inc("cycle_ended");
            }
            // what the completer was asked, so far
            let got = l.s.comp.asked();
            ensure!(
                got == l.m.asked.iter().map(|s| s.as_str()).collect::<Vec<_>>(),
                "the completer was asked for {got:?}, it must be {:?}",
                l.m.asked
            );
            if l.m.asked.len() > asked {
                st.inc("asked");
            }
        }
        if filled && sides {
            let d = st.desc.clone();
            st.nontrivial(sig(&[&d]));
            st.sample(|| d);
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------

const NAMES: &[&str] = &[
    "a", "ab", "abc", "Ab", "AB", "b", "b c", "b  d", ".a", ".ab", ".b c", "..a", "...", "a.b",
    "a b", "éa", "É", "É b", "Ж", "ж", "漢", "it's", "x\"y", "-a", "~", "$a", "a,b", "a;b", "#",
    "aé", "aÉ", "İ",
];

/// One of the names above, or any other.
fn name(r: &mut Rng) -> String {
    if r.chance(5, 6) {
        return (*r.pick(NAMES)).into();
    }
    let n = if r.chance(1, 60) {
        r.range(30, 80)
    } else {
        r.range(1, 8)
    };
    let s: String = (0..n)
        .map(|_| match r.below(8) {
            0 => ' ',
            1 => '.',
            2 | 3 => *r.pick(&['a', 'b', 'A']),
            4 => *r.pick(&['é', 'Ж', 'ß', '漢', '\u{a0}', '\u{301}']),
            _ => r.range(0x21, 0x7e) as u8 as char,
        })
        .filter(|c| *c != '/' && *c != '\\')
        .collect();
    match &s[..] {
        "" | "." | ".." => "a".into(),
        _ => s,
    }
}

struct Tree {
    root: PathBuf,
    dirs: Vec<String>,
    all: Vec<String>,
    links: u64,
    /// With many more files than are listed in `all`.
    big: bool,
}

fn tree(r: &mut Rng, root: &Path) -> std::io::Result<Tree> {
    let _ = fs::remove_dir_all(root);
    fs::create_dir_all(root)?;
    let mut t = Tree {
        root: root.to_path_buf(),
        dirs: vec![String::new()],
        all: vec![],
        links: 0,
        big: false,
    };
    for _ in 0..r.range(2, 16) {
        let d = r.pick(&t.dirs).clone();
        if d.matches('/').count() > 2 {
            continue;
        }
        let n = name(r);
        let rel = format!("{d}{n}");
        let p = root.join(&rel);
        if p.symlink_metadata().is_ok() {
            continue;
        }
        match r.below(10) {
            0..=3 => fs::write(&p, "")?,
            4 => std::os::unix::fs::symlink("nowhere", &p)?,
            5 if !t.all.is_empty() => {
                // a link to a file, a directory or another link
                let to = r.pick(&t.all).clone();
                let _ = std::os::unix::fs::symlink(root.join(&to), &p);
                if p.is_dir() {
                    t.links += 1;
                    t.dirs.push(format!("{rel}/"));
                }
            }
            6 => {
                let to = r.pick(&t.dirs).clone();
                std::os::unix::fs::symlink(root.join(&to), &p)?;
                t.links += 1;
                t.dirs.push(format!("{rel}/"));
            }
            _ => {
                fs::create_dir(&p)?;
                t.dirs.push(format!("{rel}/"));
            }
        }
        t.all.push(rel);
    }
    if r.chance(1, 400) {
        // a directory with a great many files
        let d = r.pick(&t.dirs).clone();
        let n = *r.pick(&[150, 300, 600, 1200, 3000]);
        for i in 0..r.range(n / 2, n) {
            let rel = format!("{d}{}{i}", r.pick(&["a", "ab", "b c"]));
            let p = root.join(&rel);
            if p.symlink_metadata().is_ok() {
                continue;
            }
            if r.chance(1, 8) {
                fs::create_dir(&p)?;
            } else {
                fs::write(&p, "")?;
            }
        }
        t.big = true;
    }
    Ok(t)
}

/// Makes or removes a file or directory.
fn change(r: &mut Rng, t: &mut Tree) -> Option<String> {
    if r.chance(1, 2) && !t.all.is_empty() {
        let i = r.below(t.all.len());
        let p = t.root.join(&t.all[i]);
        let m = p.symlink_metadata().ok()?;
        if m.is_dir() {
            fs::remove_dir(&p).ok()?;
        } else {
            fs::remove_file(&p).ok()?;
        }
        let rel = t.all.remove(i);
        if m.is_dir() && r.chance(1, 2) {
            // a file in its place
            fs::write(&p, "").ok()?;
            t.all.push(rel.clone());
        }
        return Some(format!(", without {rel:?}"));
    }
    let d = r.pick(&t.dirs).clone();
    let rel = format!("{d}{}", name(r));
    let p = t.root.join(&rel);
    if p.symlink_metadata().is_ok() {
        return None;
    }
    if r.chance(1, 2) {
        fs::write(&p, "").ok()?;
        t.all.push(rel.clone());
    } else {
        fs::create_dir(&p).ok()?;
        t.all.push(rel.clone());
    }
    Some(format!(", with {rel:?}"))
}

/// What the completer must return, as (typed directory, name and slash), sorted.
fn want_names(base: &Path, typed: &str, sensitive: bool) -> Option<(String, Vec<String>)> {
    let text = match typed.chars().next() {
        Some(q @ ('"' | '\'')) => {
            let t = &typed[1..];
            t.strip_suffix(q).unwrap_or(t).to_string()
        }
        _ => typed.replace("\\ ", " "),
    };
    let (dir, start) = match text.rfind('/') {
        Some(i) => (text[..=i].to_string(), text[i + 1..].to_string()),
        None => (String::new(), text.clone()),
    };
    // two dots are the directory above
    let (dir, start) = if start == ".." {
        (text.clone(), String::new())
    } else {
        (dir, start)
    };
    let at = base.join(&dir);
    let fold = |s: &str| {
        if sensitive {
            s.to_string()
        } else {
            s.to_lowercase()
        }
    };
    let mut v = vec![];
    let rd = match fs::read_dir(&at) {
        Ok(d) => d,
        Err(_) => return Some((dir, vec![])),
    };
    for e in rd {
        let e = e.ok()?;
        let n = e.file_name().to_str()?.to_string();
        if !fold(&n).starts_with(&fold(&start)) {
            continue;
        }
        let d = fs::metadata(e.path()).map(|m| m.is_dir()).unwrap_or(false);
        v.push(if d { format!("{n}/") } else { n });
    }
    v.sort();
    Some((dir, v))
}

impl Check for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (40_000, 60.0),
            Tier::Thorough => (3_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a query is non-trivial if it has completions and names a directory or a beginning; distinct by the tree and the query"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "file names are valid UTF-8 without backslashes and newlines",
            "redundant slashes and dots within the typed directory may be dropped from it",
        ]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "queries",
            "with_completions",
            "several",
            "directories",
            "linked_directories",
            "spaces",
            "hidden",
            "quoted",
            "absolute",
            "dot_dot",
            "no_such_directory",
            "case_folded",
            "no_working_dir",
            "big_directories",
            "used_again_after_change",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let sc = |e: std::io::Error| Stop::Inconclusive(format!("scratch directory: {e}"));
        let root = case.scratch.join("c19");
        let mut t = tree(&mut r, &root).map_err(sc)?;
        // completers that go on being used while the files change
        let mut live: Vec<(Option<PathBuf>, bool, FilenameCompleter)> = vec![];
        let mut changed = String::new();
        let root = fs::canonicalize(&t.root).map_err(sc)?;
        st.add("linked_directories", t.links);
        if t.big {
            st.inc("big_directories");
        }
        let n = steps(&mut r, 4, 24);
        let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
        let seeds = case.keep.filter(seeds);
        for seed in seeds {
            let mut r = Rng::new(seed, "c19", 0);
            let mut sensitive = r.chance(1, 2);
            if r.chance(1, 3) {
                if let Some(c) = change(&mut r, &mut t) {
                    changed.push_str(&c);
                    st.inc("files_changed");
                }
            }
            let again = if live.is_empty() || r.chance(1, 3) {
                None
            } else {
                let i = r.below(live.len());
                sensitive = live[i].1;
                Some(i)
            };
            // a part of a path there is, or of one there is not
            let mut q = match r.below(12) {
                0 => String::new(),
                1 => (*r.pick(&[".", "..", "./", "../", "a", "b", "/"])).into(),
                2 => name(&mut r),
                3 => r.pick(&t.dirs).clone(),
                4 => format!(
                    "{}{}",
                    r.pick(&t.dirs),
                    r.pick(&[".", "..", "x", "/", "./", "../", "./."])
                ),
                5 => format!("nowhere/{}", name(&mut r)),
                _ if !t.all.is_empty() => {
                    let p: Vec<char> = r.pick(&t.all).chars().collect();
                    let k = r.below(p.len() + 1);
                    p[..k].iter().collect()
                }
                _ => "a".into(),
            };
            if !sensitive && r.chance(1, 2) {
                // only the last component is folded
                let k = q.rfind('/').map(|i| i + 1).unwrap_or(0);
                let tail = if r.chance(1, 2) {
                    q[k..].to_uppercase()
                } else {
                    q[k..].to_lowercase()
                };
                q = format!("{}{tail}", &q[..k]);
                st.inc("case_folded");
            }
            if r.chance(1, 10) && q.contains('/') {
                q = q.replacen('/', r.pick(&["//", "/./"]), 1);
            }
            if r.chance(1, 6) {
                q = format!("./{q}");
            }
            let (wd, base): (Option<PathBuf>, PathBuf) = match r.below(6) {
                0 => (None, root.clone()),
                1 => {
                    let d = root.join(r.pick(&t.dirs));
                    (Some(d.clone()), d)
                }
                2 => (Some(root.join("nowhere")), root.join("nowhere")),
                _ => (Some(root.clone()), root.clone()),
            };
            let (wd, base) = match again {
                Some(i) => {
                    let w = live[i].0.clone();
                    (w.clone(), w.unwrap_or(root.clone()))
                }
                None => (wd, base),
            };
            if r.chance(1, 5) && !q.starts_with('/') {
                q = format!("{}/{q}", root.display());
                st.inc("absolute");
            }
            // the root of the real file system is left alone
            if q.starts_with('/') && !q.starts_with(root.to_str().unwrap_or("")) {
                q = format!("{}{q}", root.display());
            }
            let typed = match r.below(5) {
                0 | 1 => {
                    let c = *r.pick(&['"', '\'']);
                    st.inc("quoted");
                    if r.chance(1, 2) {
                        format!("{c}{q}{c}")
                    } else {
                        format!("{c}{q}")
                    }
                }
                _ => q.replace(' ', "\\ "),
            };
            st.desc = format!(
                "directory {:?} of {:?}{changed}, completing {typed:?}{}, working directory {wd:?}, case_sensitive={sensitive}",
                root,
                t.all,
                if again.is_some() { " with a completer used before" } else { "" }
            );
            if wd.is_none() {
                std::env::set_current_dir(&root).map_err(sc)?;
                st.inc("no_working_dir");
            }
            let i = again.unwrap_or_else(|| {
                let c = if sensitive && r.chance(1, 2) {
                    FilenameCompleter::new(wd.clone())
                } else {
                    FilenameCompleter::with_case_sensitivity(wd.clone(), sensitive)
                };
                live.push((wd.clone(), sensitive, c));
                live.len() - 1
            });
            let got = live[i].2.completions(&typed);
            if again.is_some() {
                st.inc("used_again");
                if !changed.is_empty() {
                    st.inc("used_again_after_change");
                }
            }
            let want = want_names(&base, &typed, sensitive);
            if wd.is_none() {
                std::env::set_current_dir("/").map_err(sc)?;
            }
            let (dir, want) = match want {
                Some(w) => w,
                None => continue,
            };
            st.inc("queries");
            if !base.join(&dir).is_dir() {
                st.inc("no_such_directory");
            }
            let mut names = vec![];
            for g in &got {
                // spaces escaped, nothing else
                let plain = g.replace("\\ ", " ");
                ensure!(
                    plain.replace(' ', "\\ ") == *g,
                    "the completion {g:?} has a space that is not escaped"
                );
                let body = plain.strip_suffix('/').unwrap_or(&plain);
                let k = body.rfind('/').map(|i| i + 1).unwrap_or(0);
                ensure!(
                    Path::new(&plain[..k]) == Path::new(&dir),
                    "the completion {g:?} is not in the typed directory {dir:?}"
                );
                names.push(plain[k..].to_string());
            }
            names.sort();
            ensure!(
                names == want,
                "the completions {got:?} name {names:?}, the directory holds {want:?}"
            );
            if !want.is_empty() {
                st.inc("with_completions");
                if want.len() > 1 {
                    st.inc("several");
                }
                if want.iter().any(|n| n.ends_with('/')) {
                    st.inc("directories");
                }
                if want.iter().any(|n| n.contains(' ')) {
                    st.inc("spaces");
                }
                if want.iter().any(|n| n.starts_with('.')) {
                    st.inc("hidden");
                }
                if dir.ends_with("..") {
                    st.inc("dot_dot");
                }
                if !typed.is_empty() {
                    let d = st.desc.clone();
                    st.nontrivial(sig(&[&d]));
                    st.sample(|| d);
                }
            }
        }
        let _ = fs::remove_dir_all(&t.root);
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------

/// The classifications that fit.
fn fits(ws: &[(usize, usize)], c: usize) -> Vec<CursorPosition> {
    use CursorPosition::*;
    let mut v = vec![];
    for (i, &(s, e)) in ws.iter().enumerate() {
        if s < c && c < e {
            v.push(InWord(i));
        }
        if c == s {
            v.push(OnWordLeftEdge(i));
        }
        if c == e {
            v.push(OnWordRightEdge(i));
        }
    }
    if v.is_empty() {
        let before = ws.iter().rposition(|w| w.1 < c);
        let after = ws.iter().position(|w| c < w.0);
        v.push(InSpace(before, after));
    }
    v
}

/// All short lines over a few characters, then random ones.
const SHORT: &[char] = &['a', ' ', '\\', '\n'];
const MAX_SHORT: u32 = 7;

fn short_line(mut i: u64) -> Option<String> {
    for n in 0..=MAX_SHORT {
        let k = (SHORT.len() as u64).pow(n);
        if i < k {
            return Some(
                (0..n)
                    .map(|_| {
                        let c = SHORT[(i % 4) as usize];
                        i /= 4;
                        c
                    })
                    .collect(),
            );
        }
        i -= k;
    }
    None
}

impl Check for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (4_000_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a line is non-trivial if it has at least two words and an escaped space; distinct by the line"
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "lines",
            "short_lines",
            "positions",
            "in_word",
            "left_edge",
            "right_edge",
            "in_space",
            "escaped_spaces",
            "in_editor",
            "own_divider",
            "long_lines",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        use CursorPosition::*;
        let mut r = case.rng();
        let s = match short_line(case.idx) {
            Some(s) => {
                st.inc("short_lines");
                s
            }
            None => {
                let a = Alpha {
                    space: r.range(5, 50),
                    backslash: r.below(30),
                    newline: r.below(10),
                    odd: r.below(20),
                    small: 6,
                };
                if r.chance(1, 2000) {
                    st.inc("long_lines");
                    long(&mut r, &a)
                } else {
                    a.text(&mut r, 40)
                }
            }
        };
        st.desc = format!("{s:?}");
        let t = line(&s);
        let b = Buffer::from(s.as_str());
        let ws = words(&t);
        let got = get_buffer_words(&b);
        ensure!(
            got == ws,
            "the words of {s:?} are {got:?}, they must be {ws:?}"
        );
        st.inc("lines");
        let place = |got: CursorPosition, ws: &[(usize, usize)], c: usize, st: &mut Stats| -> R {
            let ok = fits(ws, c);
            ensure!(
                ok.contains(&got),
                "with the words {ws:?} the cursor at {c} is {got:?}, it must be {ok:?}"
            );
            st.inc("positions");
            st.inc(match got {
                InWord(_) => "in_word",
                OnWordLeftEdge(_) => "left_edge",
                OnWordRightEdge(_) => "right_edge",
                InSpace(..) => "in_space",
            });
            Ok(())
        };
        let step = 1 + t.len() / 100;
        for c in (0..=t.len()).step_by(step) {
            let c = if step > 1 { r.below(t.len() + 1) } else { c };
            place(CursorPosition::get(c, ws.clone()), &ws, c, st)?;
        }
        if r.chance(1, 8) {
            // in an editor, with the default division or one of the application's own
            let own = r.chance(1, 2);
            let divide = |b: &Buffer| -> Vec<(usize, usize)> {
                // every stretch of letters is a word
                let t: Vec<char> = b.chars().cloned().collect();
                let mut v: Vec<(usize, usize)> = vec![];
                for (i, c) in t.iter().enumerate() {
                    if c.is_alphabetic() {
                        match v.last_mut() {
                            Some(w) if w.1 == i => w.1 = i + 1,
                            _ => v.push((i, i + 1)),
                        }
                    }
                }
                v
            };
            let tty = MockTty::new(80);
            let mut ctx = crate::sess::context(&tty, &[]);
            if own {
                ctx.word_divider_fn = Box::new(divide);
                st.inc("own_divider");
            }
            let mut cfg = Cfg::plain(false);
            cfg.init = s.clone();
            st.desc = format!("{} own divider: {own}", describe(&cfg));
            let mut e = match Sess::start_with(ctx, tty, cfg, Comp::none()) {
                Ok(e) => e,
                Err(e) => violation!("starting the editor failed: {e}"),
            };
            let want = if own { divide(&b) } else { ws.clone() };
            for _ in 0..4 {
                let c = r.below(t.len() + 1);
                if let Err(e) = e.ed.move_cursor_to(c) {
                    violation!("moving the cursor failed: {e}");
                }
                let (got, p) = e.ed.get_words_and_cursor_position();
                let got: Vec<(usize, usize)> = got.collect();
                ensure!(
                    got == want,
                    "the editor's words of {s:?} are {got:?}, they must be {want:?}"
                );
                place(p, &want, c, st)?;
                st.inc("in_editor");
            }
            let d: Vec<(usize, usize)> = e.ed.context().word_divider(&b).collect();
            ensure!(
                d == want,
                "the context's words are {d:?}, they must be {want:?}"
            );
            if own {
                // the keys go by these words
                let c = r.below(t.len() + 1);
                if e.ed.move_cursor_to(c).is_err() || e.ed.cursor() != c {
                    violation!("the cursor cannot be moved to {c}");
                }
                let before = want.iter().map(|w| w.0).filter(|s| *s < c).max();
                let after = want.iter().map(|w| w.1).filter(|e| *e > c).min();
                let k = *r.pick(&[Key::Alt('b'), Key::Alt('f'), Key::Ctrl('w')]);
                if let Err(x) = e.key(k) {
                    violation!("a key failed: {x}");
                }
                let (mut text, mut at) = (t.clone(), c);
                match k {
                    Key::Alt('b') => at = before.unwrap_or(c),
                    Key::Alt('f') => at = after.unwrap_or(c),
                    _ => {
                        if let Some(s) = before {
                            text.drain(s..c);
                            at = s;
                        }
                    }
                }
                ensure!(
                    line(&e.text()) == text && e.ed.cursor() == at,
                    "with the words {want:?} {k:?} at {c} gives {:?} with the cursor at {}, it must be {text:?} and {at}",
                    e.text(),
                    e.ed.cursor()
                );
            }
        }
        if s.contains("\\ ") {
            st.inc("escaped_spaces");
            if ws.len() >= 2 {
                st.nontrivial(sig(&[&s]));
                st.sample(|| format!("{s:?}: {ws:?}"));
            }
        }
        Ok(())
    }
    fn shrinkable(&self) -> bool {
        false
    }
}
