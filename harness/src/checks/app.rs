//! C28 an application's sessions, one after another and at the same time, over one history file.
use std::fs;
use std::io::ErrorKind;
use std::path::PathBuf;

use liner::{Buffer, EditorContext, Key, KeyBindings, Prompt};

use crate::fw::{Case, Check, Stats, Tier, R};
use crate::gen::{sig, steps, Alpha};
use crate::model::{contains, extends, line};
use crate::render::frame;
use crate::rng::Rng;
use crate::sess::{context, keys_str, Comp, Ctx};
use crate::tty::MockTty;
use crate::vt::Vt;
use crate::{ensure, violation};

use super::histfile::{compacted, entries, file_entries, harness, last, lines_of, newest_only};

pub struct C28;

const W: usize = 400;
/// What the application can complete; no two begin alike.
const COMMANDS: &[&str] = &["checkout", "diff--stat", "QUIT", "été", "run_all"];

/// No file is that large.
const UNKNOWN: usize = usize::MAX;

/// What the user knows: the lines, and where the application keeps them.
struct Told {
    /// Entries in memory, oldest first; whether each was read from the file.
    mem: Vec<(String, bool)>,
    dups: bool,
    load_dups: bool,
    inc: bool,
    share: bool,
    max_file: usize,
    max_mem: usize,
    /// The file's size as far as this session knows.
    size: usize,
}

struct Live {
    ctx: Ctx,
    tty: MockTty,
    vt: Vt,
    vi: bool,
    prompt: &'static str,
    told: Told,
    /// Rows of the terminal so far; one that did not end.
    rows: Vec<String>,
    open: Option<String>,
    narrow: bool,
    said: String,
}

impl Told {
    fn load(&mut self, file: &[u8]) {
        let mut v = last(&file_entries(file), self.max_file);
        if !self.load_dups {
            v = newest_only(&v);
        }
        self.mem = v.into_iter().map(|e| (e, true)).collect();
        self.size = file.len();
    }
    fn push(&mut self, e: &str, file: &mut Vec<u8>) -> bool {
        if !self.dups && self.mem.last().map(|x| x.0.as_str()) == Some(e) {
            return false;
        }
        self.mem.push((e.into(), false));
        while self.mem.len() > self.max_mem {
            self.mem.remove(0);
        }
        if self.inc {
            file.extend(e.bytes());
            file.push(b'\n');
            if self.size != UNKNOWN {
                self.size += e.len() + 1;
            }
        }
        true
    }
    fn commit(&mut self, file: &mut Vec<u8>) {
        if !self.inc {
            let n = self.mem.len().saturating_sub(self.max_file);
            self.mem.drain(..n);
            *file = self.mem.iter().map(|e| format!("{}\n", e.0)).collect::<String>().into();
        }
    }
    /// Browsing or searching begins.
    fn freshen(&mut self, file: &[u8]) -> bool {
        let stale = self.share && self.size != file.len();
        if stale {
            self.load(file);
        }
        stale
    }
}

/// The keys of a line, made up as it goes, and what must come of them.
struct Typed {
    keys: Vec<Key>,
    text: String,
    /// The entry gone to.
    at: Option<usize>,
    /// Ended in vi's normal mode.
    normal: bool,
    how: Vec<(&'static str, bool)>,
}

impl Typed {
    fn k(&mut self, k: Key) {
        self.keys.push(k);
    }
    fn put(&mut self, s: &str) {
        self.text.push_str(s);
        self.keys.extend(s.chars().map(Key::Char));
    }
    fn saw(&mut self, what: &'static str, loaded: bool) {
        self.how.push((what, loaded));
    }
}

fn start(r: &mut Rng, path: &PathBuf, file: &[u8], alone: bool, st: &mut Stats) -> R<Live> {
    let vi = r.chance(1, 2);
    let small = |r: &mut Rng| match r.below(5) {
        0 => r.below(8),
        1 => r.range(4, 30),
        _ => 1000,
    };
    let inc = !alone || r.chance(1, 2);
    let told = Told {
        mem: vec![],
        dups: r.chance(1, 4),
        load_dups: r.chance(2, 3),
        inc,
        share: inc && r.chance(1, 2),
        max_file: small(r),
        max_mem: small(r),
        size: 0,
    };
    let tty = MockTty::new(W);
    let mut ctx = context(&tty, &[]);
    if vi {
        ctx.key_bindings = KeyBindings::Vi;
    }
    let h = &mut ctx.history;
    h.append_duplicate_entries = told.dups;
    h.load_duplicates = told.load_dups;
    h.inc_append = told.inc;
    h.share = told.share;
    if told.max_file != 1000 {
        h.set_max_file_size(told.max_file);
    }
    if told.max_mem != 1000 {
        h.set_max_buffers_size(told.max_mem);
    }
    let mut l = Live {
        said: format!(
            "{} append_duplicates={} load_duplicates={} inc_append={} share={} max_file={} max_buffers={}",
            if vi { "vi" } else { "emacs" },
            told.dups,
            told.load_dups,
            told.inc,
            told.share,
            told.max_file,
            told.max_mem
        ),
        ctx,
        tty,
        vt: Vt::new(W, 12),
        vi,
        prompt: *r.pick(&["$ ", "", "user@host\n> ", "λ: ", "one\ntwo\n"]),
        told,
        rows: vec![],
        open: None,
        narrow: true,
    };
    let res = l.ctx.history.set_file_name_and_load_history(path);
    if let Err(e) = res {
        violation!("a session ({}) could not load the history: {e}", l.said);
    }
    l.told.load(file);
    l.check(path, file, "starting")?;
    if l.told.mem.iter().any(|e| e.0.contains('\\')) {
        st.inc("continued_line_loaded");
    }
    st.max("entries_loaded", l.told.mem.len() as u64);
    Ok(l)
}

impl Live {
    fn check(&self, path: &PathBuf, file: &[u8], after: &str) -> R {
        let got = entries(&self.ctx.history);
        let want: Vec<String> = self.told.mem.iter().map(|e| e.0.clone()).collect();
        ensure!(
            got == want,
            "after {after} the session ({}) has the entries {got:?}, it must have {want:?}",
            self.said
        );
        let got = harness("reading the history file", fs::read(path))?;
        ensure!(
            got == file,
            "after {after} the session ({}) the file has {:?}, it must have {:?}",
            self.said,
            String::from_utf8_lossy(&got),
            String::from_utf8_lossy(file)
        );
        Ok(())
    }

    /// Decides on the keys of a line.
    fn plan(&mut self, r: &mut Rng, a: &Alpha, file: &[u8]) -> (Typed, Option<ErrorKind>) {
        let mut t = Typed {
            keys: vec![],
            text: String::new(),
            at: None,
            normal: false,
            how: vec![],
        };
                for _ in 0..r.range(1, 5) {
            if t.text.chars().count() > 200 {
                break;
            }
            match r.below(16) {
                0..=3 => {
                    // typed, with mistakes
                    if t.at.is_some() {
                        t.saw("edited", false);
                    }
                    let mut s = a.text(r, 8);
                    if t.text.is_empty() && r.chance(1, 12) {
                        // a comment to the history file
                        s.insert(0, '#');
                    }
                    if t.text.is_empty() && !self.told.mem.is_empty() && r.chance(1, 3) {
                        // the beginning of what there is
                        let e = line(&r.pick(&self.told.mem).0);
                        let n = r.below(e.len() + 1);
                        let b: String = e[..n].iter().collect();
                        if !b.contains(['\\', '\n']) {
                            s = b;
                        }
                    }
                    t.put(&s);
                    if r.chance(1, 4) {
                        let s = a.text1(r, 3);
                        t.keys.extend(s.chars().map(Key::Char));
                        for _ in s.chars() {
                            t.k(if r.chance(1, 2) { Key::Backspace } else { Key::Ctrl('h') });
                        }
                    }
                }
                4 if !t.text.is_empty() => {
                    let n = r.range(1, 3);
                    for _ in 0..n {
                        t.text.pop();
                        t.k(Key::Backspace);
                    }
                    if t.at.is_some() {
                        t.saw("edited", false);
                    }
                }
                5 => {
                    let s = a.text(r, 3);
                    t.k(Key::Home);
                    t.keys.extend(s.chars().map(Key::Char));
                    t.k(Key::End);
                    t.text.insert_str(0, &s);
                }
                6 => {
                    t.put("\\");
                    t.k(Key::Char('\n'));
                    t.text.push('\n');
                    t.saw("continued", false);
                }
                7 if !t.text.ends_with('\\') => {
                    let c = *r.pick(COMMANDS);
                    if !t.text.is_empty() {
                        t.put(" ");
                    }
                    let n = r.range(1, c.chars().count());
                    t.keys.extend(c.chars().take(n).map(Key::Char));
                    t.k(Key::Char('\t'));
                    t.text.push_str(c);
                    t.saw("completed", false);
                }
                8 | 9 if t.at.is_none() && !t.text.is_empty() => {
                    let n = line(&t.text);
                    let found = self
                        .told
                        .mem
                        .iter()
                        .rev()
                        .find(|e| extends(&line(&e.0), &n))
                        .cloned();
                    if let Some((e, loaded)) = found {
                        t.text = e;
                        t.k(if r.chance(1, 2) { Key::Right } else { Key::Ctrl('f') });
                        t.saw("suggested", loaded);
                    }
                }
                10..=12 if t.at.is_none() => {
                    // up and down again
                    self.told.freshen(file).then(|| t.saw("reloaded", false));
                    let n = line(&t.text);
                    let m = &self.told.mem;
                    let places: Vec<usize> = if n.is_empty() {
                        (0..m.len()).collect()
                    } else {
                        let ls: Vec<_> = m.iter().map(|e| line(&e.0)).collect();
                        let has = |i: &usize| contains(&ls[*i], &n) && ls[*i] != n;
                        let ext = |i: &usize| extends(&ls[*i], &n);
                        let inner = (0..m.len()).filter(|i| has(i) && !ext(i));
                        inner.chain((0..m.len()).filter(ext)).collect()
                    };
                    let up = match r.below(8) {
                        0 => r.range(1, 12),
                        _ => r.range(1, 4),
                    };
                    let down = r.below(3).min(up);
                    let (u, d) = if self.vi && r.chance(1, 4) && n.is_empty() {
                        t.k(Key::Esc);
                        (Key::Char('k'), Key::Char('j'))
                    } else if !self.vi && r.chance(1, 3) {
                        (Key::Ctrl('p'), Key::Ctrl('n'))
                    } else {
                        (Key::Up, Key::Down)
                    };
                    t.keys.extend(std::iter::repeat(u).take(up));
                    t.keys.extend(std::iter::repeat(d).take(down));
                    // the place above the new line
                    let above = up.min(places.len()).saturating_sub(down);
                    if above > 0 {
                        let i = places[places.len() - above];
                        let (e, loaded) = m[i].clone();
                        t.text = e;
                        t.at = Some(i);
                        t.saw("recalled", loaded);
                    }
                    if u == Key::Char('k') {
                        if t.text.chars().count() < 200 && r.chance(1, 2) {
                            t.k(Key::Char('A'));
                        } else {
                            t.normal = true;
                            break;
                        }
                    }
                }
                13 | 14 if t.at.is_none() => {
                    // found
                    let stale = self.told.share && self.told.size != file.len();
                    let mut mem = self.told.mem.clone();
                    if stale {
                        let old = std::mem::take(&mut self.told.mem);
                        let size = self.told.size;
                        self.told.load(file);
                        mem = std::mem::replace(&mut self.told.mem, old);
                        self.told.size = size;
                    }
                    let mut term = t.text.clone();
                    let mut more = String::new();
                    if term.is_empty() && !mem.is_empty() {
                        let e = line(&r.pick(&mem).0);
                        let i = r.below(e.len().max(1));
                        let j = r.range(i, e.len().min(i + 4));
                        more = e[i..j].iter().collect();
                        if more.contains(['\n', '\t', '\\']) || j == i {
                            continue;
                        }
                        term = more.clone();
                    }
                    let s = line(&term);
                    let found: Vec<_> = mem.iter().filter(|e| contains(&line(&e.0), &s)).collect();
                    if term.is_empty() || found.is_empty() {
                        continue;
                    }
                    t.k(Key::Ctrl('r'));
                    t.keys.extend(more.chars().map(Key::Char));
                    let n = r.below(4);
                    t.keys.extend(std::iter::repeat(Key::Ctrl('r')).take(n));
                    let i = (found.len() * 4 - 1 - n) % found.len();
                    let (e, loaded) = found[i].clone();
                    t.text = e;
                    t.saw("found", loaded);
                    if stale {
                        self.told.load(file);
                        t.saw("reloaded", false);
                    }
                    if r.chance(1, 2) {
                        t.k(if r.chance(1, 2) { Key::Right } else { Key::Ctrl('f') });
                    } else {
                        break;
                    }
                }
                _ => {}
            }
        }
        let end = match r.below(14) {
            0 => {
                t.k(Key::Ctrl('c'));
                Some(ErrorKind::Interrupted)
            }
            1 if t.text.is_empty() && !t.normal => {
                t.k(Key::Ctrl('d'));
                Some(ErrorKind::UnexpectedEof)
            }
            _ => {
                // in normal mode the cursor is on the last character
                let at_end = !t.normal || t.text.is_empty();
                t.k(Key::Char('\n'));
                if at_end && t.text.ends_with('\\') {
                    t.text.push('\n');
                    t.k(Key::Char('\n'));
                }
                None
            }
        };
        (t, end)
    }

    fn line(
        &mut self,
        r: &mut Rng,
        a: &Alpha,
        path: &PathBuf,
        file: &mut Vec<u8>,
        st: &mut Stats,
        told: &mut Vec<String>,
    ) -> R {
        let was = (self.told.mem.clone(), self.told.size);
        let (t, end) = self.plan(r, a, file);
        let n = t.text.chars().count();
                if t.normal && n > 1 && t.text.chars().nth(n - 2) == Some('\\') {
            // Enter in normal mode may continue the line
            (self.told.mem, self.told.size) = was;
            return Ok(());
        }
        told.push(format!("line {}", keys_str(&t.keys)));
        st.desc = told.join("; ");
        {
            let mut s = self.tty.0.borrow_mut();
            s.keys = t.keys.iter().map(|k| Ok(*k)).collect();
        }
        let cands: Vec<String> = COMMANDS.iter().map(|s| s.to_string()).collect();
        let mut comp = Comp::prefix(cands);
        let res = self
            .ctx
            .read_line(Prompt::from(self.prompt), None, &mut comp)
            .map_err(|e| e.kind());
        let left = self.tty.0.borrow().keys.len();
        let want = match end {
            Some(k) => Err(k),
            None => Ok(t.text.clone()),
        };
        ensure!(
            res == want,
            "the session ({}) with the entries {:?} got {res:?} for the line {}, it must get {want:?}",
            self.said,
            self.told.mem,
            keys_str(&t.keys)
        );
        ensure!(left == 0, "{left} of the keys of the line were not read");
        st.inc("lines");
        for (what, loaded) in &t.how {
            st.inc(what);
            if *loaded {
                st.inc(&format!("{what}_from_an_earlier_session"));
            }
        }
        if t.how.len() > 2 {
            st.inc("in_several_ways");
        }
        // the transcript
        let bytes = self.tty.take_out();
        let wide = |s: &str| s.chars().any(crate::gen::is_odd);
        if wide(&t.text) || n > 300 {
            self.narrow = false;
        }
        let app = match (&res, r.below(5)) {
            (_, 0) => String::new(),
            (_, 1) => "no newline".into(),
            (Ok(_), _) => format!("{n} characters\r\n"),
            (Err(e), _) => format!("{e:?}\r\n"),
        };
        if self.narrow {
            if let Some(o) = self.open.take() {
                self.rows.push(o);
            }
            let text = line(&t.text);
            let f = frame(self.prompt, &text, text.len(), text.len(), W, None);
            for row in 0..=f.page.r {
                self.rows.push(f.page.row(row));
            }
            self.vt.feed(&bytes);
            let at = self.vt.cursor();
            // the cursor may be one row further if the line ends with its row
            let below = (self.rows.len(), 0);
            ensure!(
                at == below || self.vi && t.text.ends_with('\n') && at.0 <= below.0,
                "after the line {:?} the cursor is at {at:?}, it must be at {below:?}\n{}",
                t.text,
                self.vt.dump()
            );
            if at != below {
                self.narrow = false;
            }
            self.vt.feed(app.as_bytes());
            match app.strip_suffix("\r\n") {
                Some(a) => self.rows.push(a.into()),
                None if app.is_empty() => {}
                None => self.open = Some(app),
            }
            for (i, want) in self.rows.iter().enumerate() {
                let got = self.vt.row_text(i);
                let ok = got == *want
                    || want == "no newline" && got.starts_with("no newline") && got.ends_with('⏎');
                ensure!(
                    ok,
                    "row {i} of the session's transcript is {got:?}, it must be {want:?}\n{}",
                    self.vt.dump()
                );
            }
            let used = self.vt.used_rows();
            let most = self.rows.len() + self.open.is_some() as usize;
            ensure!(
                used <= most,
                "the session's transcript has {used} rows, it must have {most}\n{}",
                self.vt.dump()
            );
            st.inc("transcripts");
            st.max("rows", used as u64);
        }
        // the application keeps the line
        if let Ok(e) = res {
            if !e.is_empty() {
                let n = self.told.mem.len();
                let res = self.ctx.history.push(Buffer::from(e.as_str()));
                ensure!(res.is_ok(), "push({e:?}) failed: {res:?}");
                if !self.told.push(&e, file) {
                    st.inc("same_again");
                } else if self.told.mem.len() <= n {
                    st.inc("oldest_dropped");
                }
                self.compaction(&e, path, file, st)?;
            }
        } else {
            st.inc("cancelled");
        }
        self.check(path, file, &format!("the line {:?}", t.text))
    }

    /// A session that loads no duplicates may take out what it would not load after a push.
    fn compaction(&mut self, e: &str, path: &PathBuf, file: &mut Vec<u8>, st: &mut Stats) -> R {
        let now = harness("reading the history file", fs::read(path))?;
        if !self.told.inc || self.told.load_dups {
            return Ok(());
        }
        let rewritten = now != *file;
        if rewritten {
            let (old, new) = (lines_of(file), lines_of(&now));
            let ok = compacted(&old, &new, self.told.max_file);
            ensure!(
                ok == Ok(true) && now.last().map_or(true, |b| *b == b'\n'),
                "after {e:?} was pushed by the session ({}) the file has {:?}, which is neither {:?} nor that without duplicates and oldest entries: {ok:?}",
                self.said,
                String::from_utf8_lossy(&now),
                String::from_utf8_lossy(file)
            );
            st.inc("compactions");
            *file = now;
        }
        if self.told.share {
            // it may look at the file, changed or not, at once
            let got = entries(&self.ctx.history);
            let had = (self.told.mem.clone(), self.told.size);
            self.told.load(file);
            let n = self.told.mem.len().saturating_sub(self.told.max_mem);
            self.told.mem.drain(..n);
            let same = self.told.mem.iter().map(|e| &e.0).eq(had.0.iter().map(|e| &e.0));
            if self.told.mem.iter().map(|e| &e.0).eq(&got) && (rewritten || !same) {
                st.inc("reloaded_on_compaction");
            } else {
                self.told.mem = had.0;
                // it must notice when it looks next
                self.told.size = if rewritten { UNKNOWN } else { had.1 };
            }
        }
        Ok(())
    }

    fn end(&mut self, path: &PathBuf, file: &mut Vec<u8>, st: &mut Stats) -> R {
        let n = self.told.mem.len();
        self.told.commit(file);
        self.ctx.history.commit_to_file();
        if self.told.mem.len() < n {
            st.inc("file_limited");
        }
        st.inc(if self.told.inc { "saved_as_entered" } else { "saved_at_exit" });
        self.check(path, file, "saving")
    }
}

impl Check for C28 {
    fn id(&self) -> &'static str {
        "C28"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (100_000, 60.0),
            Tier::Thorough => (10_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if a line of an earlier session was recalled, suggested or found in a later one and a line was read after that; distinct by settings and keys of all sessions"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the application pushes every line that is not empty and saves the history when it ends",
            "sessions at the same time all append as they go; in one process, one after another",
            "when a session that loads no duplicates compacts the file is up to it",
        ]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "recalled_from_an_earlier_session",
            "suggested_from_an_earlier_session",
            "found_from_an_earlier_session",
            "edited",
            "continued",
            "continued_line_loaded",
            "completed",
            "cancelled",
            "same_again",
            "oldest_dropped",
            "file_limited",
            "reloaded",
            "saved_as_entered",
            "saved_at_exit",
            "sessions_at_once",
            "comment_not_loaded",
            "compactions",
            "reloaded_on_compaction",
            "in_several_ways",
            "transcripts",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let odd = if r.chance(1, 4) { r.below(12) } else { 0 };
        let a = Alpha {
            space: r.below(15),
            backslash: 0,
            newline: 0,
            odd,
            small: r.range(1, 5),
        };
        let alone = r.chance(2, 3);
        let long = r.chance(1, 12);
        let n = if long { r.range(60, 200) } else { steps(&mut r, 4, 36) };
        let seeds: Vec<u64> = (0..n.min(400)).map(|_| r.next()).collect();
        let seeds = case.keep.filter(seeds);
        let path = case.scratch.join("history");
        let mut file: Vec<u8> = vec![];
        if r.chance(1, 3) {
            for _ in 0..r.below(8) {
                let e = a.text(&mut r, 8);
                file.extend(format!("{e}\n").bytes());
            }
            harness("writing the history file", fs::write(&path, &file))?;
        } else if path.exists() {
            harness("removing the history file", fs::remove_file(&path))?;
        }
        let mut told = vec![format!("file {:?}", String::from_utf8_lossy(&file))];
        st.desc = told.join("; ");
        let mut live: Vec<Option<Live>> = vec![None, None];
        if alone {
            live.truncate(1);
        }
        let (mut before, mut used) = (0, false);
        for seed in seeds {
            let mut r = Rng::new(seed, "c28", 0);
            let i = r.below(live.len());
            let at_once = live.iter().flatten().count() > 1;
            match &mut live[i] {
                None => {
                    if file_entries(&file).len() < file.iter().filter(|b| **b == b'\n').count() {
                        st.inc("comment_not_loaded");
                    }
                    told.push(format!("session {i}"));
                    st.desc = told.join("; ");
                    let l = start(&mut r, &path, &file, alone, st)?;
                    told.push(l.said.clone());
                    live[i] = Some(l);
                    before += 1;
                    st.inc("sessions");
                }
                Some(l) if r.chance(1, if long { 70 } else { 8 }) => {
                    told.push(format!("end of session {i}"));
                    st.desc = told.join("; ");
                    l.end(&path, &mut file, st)?;
                    live[i] = None;
                }
                Some(l) => {
                    if at_once {
                        told.push(format!("in session {i}"));
                        st.inc("sessions_at_once");
                    }
                    let m = l.told.mem.iter().any(|e| e.1) && before > 1;
                    l.line(&mut r, &a, &path, &mut file, st, &mut told)?;
                    used |= m;
                }
            }
        }
        for l in live.iter_mut().flatten() {
            l.end(&path, &mut file, st)?;
        }
        if used {
            let d = told.join("; ");
            st.nontrivial(sig(&[&d]));
            st.sample(|| d);
        }
        Ok(())
    }
}
