//! C22 callbacks, flushing and colouring; C24 failing terminals.
use std::io;
use std::sync::{Arc, Mutex};

use liner::{EditorContext, Key};

use crate::checks::keys::{any_key, Digits};
use crate::fw::{Case, Check, Stats, Tier, R};
use crate::gen::{enlarge_one, history, sig, steps, Alpha, WORDS};
use crate::lock::describe;
use crate::model::Act;
use crate::rng::Rng;
use crate::sess::{context, key_str, keys_str, Cfg, Comp, EvKind, Sess};
use crate::tty::{MockTty, FAULT_MSG};
use crate::{ensure, violation};

pub struct C22;
pub struct C24;

fn ended(r: &io::Result<bool>) -> bool {
    !matches!(r, Ok(false))
}

fn outcome(r: &io::Result<bool>) -> String {
    match r {
        Ok(b) => format!("Ok({b})"),
        Err(e) => format!("Err({:?}: {e})", e.kind()),
    }
}

fn some_keys(r: &mut Rng, vi: bool, a: &Alpha, n: usize) -> Vec<Key> {
    let mut d = Digits::default();
    let mut ks = vec![];
    while ks.len() < n {
        let k = match r.below(20) {
            0 => Key::Char('\t'),
            1 => Key::Ctrl('h'),
            2 => Key::Char('\n'),
            // ways out are only taken often enough
            3 => *r.pick(&[Key::Ctrl('c'), Key::Ctrl('d')]),
            _ => any_key(r, vi, a),
        };
        if ks.len() + 4 < n && matches!(k, Key::Ctrl('c') | Key::Char('\n')) && r.chance(4, 5) {
            continue;
        }
        if d.ok(k) {
            ks.push(k);
        }
    }
    ks
}

impl Check for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (500_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is a session with every callback recorded and a twin without colouring, or one whose callbacks change the editor and a twin changed directly; non-trivial if at least five keys were handled with the colouring called, or three with three changes; distinct by configuration, keys and changes"
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "events_before",
            "events_after",
            "events_complete",
            "colour_calls",
            "ended_by_error",
            "ended_by_enter",
            "ctrl_h",
            "tabs_in_search",
            "acts_before_key",
            "acts_before_completion",
            "acts_after_key",
            "act_decided_ctrl_d",
            "act_made_suggestion",
            "sessions_with_acts",
            "written_by_callbacks",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        if r.chance(1, 3) {
            return self.acting(case, &mut r, st);
        }
        let vi = r.chance(1, 2);
        let a = Alpha {
            odd: r.below(5),
            ..WORDS
        };
        let mut hist = history(&mut r, 6, &a);
        let mut init = if r.chance(1, 4) {
            a.text(&mut r, 10)
        } else {
            String::new()
        };
        let mut cands: Vec<String> = (0..r.below(4)).map(|_| a.text(&mut r, 4)).collect();
        if enlarge_one(&mut r, 500, &mut hist, &mut init, &mut cands, &a) {
            st.inc("big_cases");
        }
        let width = *r.pick(&[7, 20, 80, 200]);
        let status = if r.chance(1, 3) {
            Some(("[N] ".to_string(), "[I] ".to_string()))
        } else {
            None
        };
        let cfg = |colour| Cfg {
            vi,
            prompt: "$ ".into(),
            status: status.clone(),
            width,
            hist: hist.clone(),
            init: init.clone(),
            colour,
            divide: None,
        };
        let n = steps(&mut r, 3, 40);
        let ks = some_keys(&mut r, vi, &Alpha { newline: 0, ..a }, n);
        let style = r.below(4);
        let ks = case.keep.filter(ks);
        st.desc = format!("{} completions={cands:?}\nkeys: ", describe(&cfg(None)));
        let d0 = st.desc.clone();

        let seen: Arc<Mutex<Vec<String>>> = Arc::default();
        let log = seen.clone();
        let paint = move |s: &str| {
            log.lock().unwrap().push(s.to_string());
            match style {
                0 => format!("\x1b[1;35m{s}\x1b[0m"),
                1 => s.to_string(),
                // colouring by character
                2 => s
                    .chars()
                    .map(|c| format!("\x1b[3{}m{c}", c as u32 % 8))
                    .collect(),
                // not a colouring, but what is returned must not follow it either
                _ => s.to_uppercase(),
            }
        };
        let start = |c: Cfg| {
            Sess::start(c, Comp::fixed(cands.clone()))
                .map_err(|e| crate::lock::io_stop("starting the editor", e))
        };
        let mut s = start(cfg(Some(Box::new(paint))))?;
        let mut twin = start(cfg(None))?;
        {
            let t = s.tty.0.borrow();
            ensure!(
                t.flushed == t.out.len(),
                "{} bytes of the first display were not flushed",
                t.out.len() - t.flushed
            );
        }
        let (mut handled, mut coloured) = (0, 0);
        let mut over = false;
        for (i, k) in ks.iter().enumerate() {
            st.desc.push(' ');
            st.desc.push_str(&key_str(*k));
            st.inc("keys");
            let when = format!("key {} ({})", i + 1, key_str(*k));
            let state = |s: &Sess| (s.text(), s.ed.cursor(), s.ed.current_history_location());
            let before = state(&s);
            let searching = String::from_utf8_lossy(&s.tty.take_out()).contains("(search)'");
            s.comp.log.clear();
            seen.lock().unwrap().clear();
            let res = s.key(*k);
            let res2 = twin.key(*k);
            let after = state(&s);
            ensure!(
                outcome(&res) == outcome(&res2),
                "{when}: the outcome is {} with a colouring callback and {} without",
                outcome(&res),
                outcome(&res2)
            );
            ensure!(
                after == state(&twin),
                "{when}: with a colouring callback the line, cursor and place are {after:?}, without {:?}",
                state(&twin)
            );
            // events
            let log = &s.comp.log;
            let evs: Vec<&crate::sess::Ev> = log
                .iter()
                .filter(|e| !matches!(e.kind, EvKind::Asked(_)))
                .collect();
            let names: Vec<String> = log.iter().map(|e| format!("{:?}", e.kind)).collect();
            let mut want = vec![EvKind::Before(*k)];
            if *k == Key::Char('\t') {
                want.push(EvKind::Complete);
                if searching {
                    st.inc("tabs_in_search");
                }
            }
            if res.is_ok() {
                want.push(EvKind::After(if *k == Key::Ctrl('h') {
                    st.inc("ctrl_h");
                    Key::Backspace
                } else {
                    *k
                }));
            } else {
                st.inc("ended_by_error");
            }
            let kinds: Vec<EvKind> = evs.iter().map(|e| e.kind.clone()).collect();
            // a Ctrl-H may as well be reported as it was pressed
            let same = kinds == want
                || (*k == Key::Ctrl('h') && kinds == [EvKind::Before(*k), EvKind::After(*k)]);
            ensure!(same, "{when}: the events were {names:?}, not {want:?}");
            let total = s.tty.0.borrow().out.len();
            for e in &evs {
                let have = (e.text.clone(), e.cursor, e.loc);
                match e.kind {
                    EvKind::Before(_) | EvKind::Complete => {
                        ensure!(
                            have == before,
                            "{when}: in {:?} the editor shows {have:?}, it was {before:?} before the key",
                            e.kind
                        );
                        ensure!(
                            e.out == 0,
                            "{when}: {} bytes had been written when {:?} came",
                            e.out,
                            e.kind
                        );
                        st.inc(if e.kind == EvKind::Complete {
                            "events_complete"
                        } else {
                            "events_before"
                        });
                    }
                    _ => {
                        ensure!(
                            have == after,
                            "{when}: in {:?} the editor shows {have:?}, it is {after:?} after the key",
                            e.kind
                        );
                        ensure!(
                            e.out == total,
                            "{when}: {} bytes were written after {:?}",
                            total - e.out,
                            e.kind
                        );
                        st.inc("events_after");
                    }
                }
            }
            // the completer is asked between the before-completion event and the one after the key
            for (j, e) in log.iter().enumerate() {
                if let EvKind::Asked(_) = e.kind {
                    ensure!(
                        j >= 2 && log[..j].iter().any(|e| e.kind == EvKind::Complete),
                        "{when}: the completer was asked before the event: {names:?}"
                    );
                    st.inc("asked");
                }
            }
            {
                let t = s.tty.0.borrow();
                ensure!(
                    t.flushed == t.out.len(),
                    "{when}: {} of {} bytes written were not flushed",
                    t.out.len() - t.flushed,
                    t.out.len()
                );
                let out = String::from_utf8_lossy(&t.out);
                // what was painted last is the line
                let painted = seen.lock().unwrap();
                if !painted.is_empty() {
                    coloured += 1;
                    st.add("colour_calls", painted.len() as u64);
                }
                if !out.contains("(search)'") && !painted.is_empty() {
                    let want: Vec<&str> = after.0.split('\n').filter(|l| !l.is_empty()).collect();
                    let n = painted.len();
                    ensure!(
                        n >= want.len() && painted[n - want.len()..].iter().eq(want.iter()),
                        "{when}: the colouring callback was called with {painted:?} for the line {:?}",
                        after.0
                    );
                    st.inc("colourings_compared");
                } else {
                    // during a search it is a match
                    for p in painted.iter() {
                        ensure!(
                            !p.contains("(search)") && !p.chars().any(|c| c.is_control()),
                            "{when}: the colouring callback was called with {p:?}"
                        );
                    }
                }
            }
            handled += 1;
            if ended(&res) {
                if res.is_ok() {
                    st.inc("ended_by_enter");
                }
                over = true;
                break;
            }
        }
        let (t1, t2): (String, String) = (s.ed.into(), twin.ed.into());
        ensure!(
            t1 == t2,
            "the line taken is {t1:?} with a colouring callback and {t2:?} without"
        );
        if handled >= 5 && coloured > 0 {
            st.nontrivial(sig(&[&d0, &keys_str(&ks)]));
        }
        st.sample(|| format!("{d0}{} ended={over}", keys_str(&ks)));
        Ok(())
    }
}

impl C22 {
    /// The callback changes the editor: the same as if it had been changed at that point directly.
    fn acting(&self, case: &mut Case, r: &mut Rng, st: &mut Stats) -> R {
        let vi = r.chance(1, 2);
        let a = Alpha {
            odd: r.below(5),
            ..WORDS
        };
        let hist = history(r, 6, &a);
        let init = if r.chance(1, 4) {
            a.text(r, 10)
        } else {
            String::new()
        };
        let width = *r.pick(&[7, 20, 80, 200]);
        let status = if r.chance(1, 3) {
            Some(("[N] ".to_string(), "[I] ".to_string()))
        } else {
            None
        };
        let cfg = || Cfg {
            vi,
            prompt: "$ ".into(),
            status: status.clone(),
            width,
            hist: hist.clone(),
            init: init.clone(),
            colour: None,
            divide: None,
        };
        let cands: Vec<String> = (0..r.below(4)).map(|_| a.text(r, 4)).collect();
        let n = steps(r, 3, 30);
        let seeds: Vec<(Key, u64)> = some_keys(r, vi, &Alpha { newline: 0, ..a }, n)
            .into_iter()
            .map(|k| (k, r.next()))
            .collect();
        let seeds = case.keep.filter(seeds);
        let d0 = format!("{} completions={cands:?}", describe(&cfg()));
        st.desc = format!("{d0}\nkeys, and what the callbacks do:");
        let start = || {
            Sess::start(cfg(), Comp::fixed(cands.clone()))
                .map_err(|e| crate::lock::io_stop("starting the editor", e))
        };
        let mut s = start()?;
        let mut twin = start()?;
        let (mut done, mut handled) = (0, 0);
        for (i, (k, seed)) in seeds.into_iter().enumerate() {
            let mut r = Rng::new(seed, "c22a", 0);
            let len = s.ed.current_buffer().num_chars();
            if len > 300 {
                break;
            }
            let mut some = |often| -> Vec<Act> {
                if !r.chance(often, 12) {
                    return vec![];
                }
                (0..r.range(1, 2))
                    .map(|_| match r.below(12) {
                        0 => Act::Undo,
                        1 => Act::Redo,
                        2 => Act::Revert,
                        3 => Act::DeleteAllBefore,
                        4 => Act::Bell,
                        _ => match crate::checks::ops::any_act(&mut r, &a, len) {
                            // only a map which keeps it can live with it
                            Act::NoEol(_) if !vi => Act::End,
                            a => a,
                        },
                    })
                    .collect()
            };
            let acts = [some(4), some(6), some(4)];
            st.desc.push_str(&format!(" {}", key_str(k)));
            for (n, l) in ["before", "before completion", "after"].iter().zip(&acts) {
                if !l.is_empty() {
                    st.desc.push_str(&format!(" {{{n}: {l:?}}}"));
                }
            }
            st.inc("keys");
            let when = format!("key {} ({})", i + 1, key_str(k));
            s.tty.take_out();
            twin.tty.take_out();
            s.comp.acts = acts.clone();
            let res = s.key(k);
            if let Some(e) = s.comp.failed.take() {
                violation!("{when}: an operation in a callback failed: {e}");
            }
            // the same without callbacks
            twin.ed.context_mut().buffer.clear();
            let mut direct = |twin: &mut Sess, l: &[Act], what| -> R {
                for a in l {
                    done += 1;
                    st.inc(what);
                    if *a == Act::Bell {
                        st.inc("written_by_callbacks");
                    }
                    if let Err(e) = crate::sess::apply(a, &mut twin.ed) {
                        violation!("{when}: {a:?} failed: {e}");
                    }
                }
                Ok(())
            };
            let was = (
                twin.ed.current_buffer().is_empty(),
                twin.ed.is_currently_showing_autosuggestion(),
            );
            direct(&mut twin, &acts[0], "acts_before_key")?;
            let is = (
                twin.ed.current_buffer().is_empty(),
                twin.ed.is_currently_showing_autosuggestion(),
            );
            let res2 = if k == Key::Char('\t') {
                direct(&mut twin, &acts[1], "acts_before_completion")?;
                let Sess { ed, comp, .. } = &mut twin;
                ed.complete(comp).map(|()| false)
            } else {
                twin.key(k)
            };
            if res2.is_ok() {
                direct(&mut twin, &acts[2], "acts_after_key")?;
                if let Err(e) = twin.ed.flush() {
                    violation!("{when}: flushing failed: {e}");
                }
            }
            if k == Key::Ctrl('d') && was.0 != is.0 {
                st.inc("act_decided_ctrl_d");
            }
            if matches!(k, Key::Ctrl('f') | Key::Right) && was.1 != is.1 {
                st.inc("act_made_suggestion");
            }
            ensure!(
                outcome(&res) == outcome(&res2),
                "{when}: the outcome is {} if the callbacks do it and {} if it is done directly",
                outcome(&res),
                outcome(&res2)
            );
            let state = |s: &Sess| {
                (
                    s.text(),
                    s.ed.cursor(),
                    s.ed.current_history_location(),
                    s.ed.is_currently_showing_autosuggestion(),
                    s.hist(),
                )
            };
            let (x, y) = (state(&s), state(&twin));
            ensure!(
                x == y,
                "{when}: line, cursor, place, suggestion and history are {x:?} if the callbacks do it and {y:?} if it is done directly"
            );
            let (t, t2) = (s.tty.0.borrow(), twin.tty.0.borrow());
            ensure!(
                t.out == t2.out,
                "{when}: written was {:?} if the callbacks do it and {:?} if it is done directly",
                String::from_utf8_lossy(&t.out),
                String::from_utf8_lossy(&t2.out)
            );
            ensure!(
                res.is_err() || t.flushed == t.out.len(),
                "{when}: {} of {} bytes written were not flushed",
                t.out.len() - t.flushed,
                t.out.len()
            );
            handled += 1;
            if ended(&res) {
                break;
            }
        }
        if handled >= 3 && done >= 3 {
            st.inc("sessions_with_acts");
            let said = st.desc.clone();
            st.nontrivial(sig(&[&said]));
        }
        let (t1, t2): (String, String) = (s.ed.into(), twin.ed.into());
        ensure!(
            t1 == t2,
            "the line taken is {t1:?} if the callbacks do it and {t2:?} if it is done directly"
        );
        Ok(())
    }
}

/// What a session without faults did: per key, where it started in the count of operations.
struct Base {
    /// Operations done by the start.
    start: u64,
    /// Operation count, line, cursor, place before each key; and at the end.
    states: Vec<(u64, String, usize, Option<usize>)>,
    outcomes: Vec<String>,
    /// Lines painted during each key, and how many redisplays there were.
    painted: Vec<(Vec<String>, u64)>,
    searching: Vec<bool>,
}

impl Check for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (60_000, 60.0),
            Tier::Thorough => (4_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is a session run once without faults and once for each of its terminal operations (writes, flushes, size queries, key reads), which then fails; non-trivial if at least ten faults hit keys; distinct by configuration and keys"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "what the screen shows after a failed write is left open",
            "in a key that redraws more than once during a search, the line after the fault is not compared",
        ]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "faults_write",
            "faults_flush",
            "faults_width",
            "faults_next_key",
            "faults_at_start",
            "used_on_after_fault",
            "undone_after_fault",
            "left_before",
            "left_after",
            "left_between",
            "sticky",
            "short_writes",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let vi = r.chance(2, 3);
        let a = Alpha {
            odd: r.below(4),
            newline: 0,
            ..WORDS
        };
        let multi = r.chance(1, 4);
        let ha = Alpha {
            newline: if multi { 5 } else { 0 },
            ..a
        };
        let mut hist = history(&mut r, 5, &ha);
        let mut init = if r.chance(1, 2) {
            ha.text(&mut r, 12)
        } else {
            String::new()
        };
        let mut cands: Vec<String> = (0..r.below(4)).map(|_| a.text(&mut r, 4)).collect();
        if enlarge_one(&mut r, 500, &mut hist, &mut init, &mut cands, &ha) {
            st.inc("big_cases");
        }
        let width = *r.pick(&[9, 20, 80]);
        let status = if r.chance(1, 3) {
            Some(("[N] ".to_string(), "[I] ".to_string()))
        } else {
            None
        };
        let cfg = |colour| Cfg {
            vi,
            prompt: if multi { "one\n$ ".into() } else { "$ ".into() },
            status: status.clone(),
            width,
            hist: hist.clone(),
            init: init.clone(),
            colour,
            divide: None,
        };
        let n = r.range(1, 14);
        let ks = some_keys(&mut r, vi, &a, n);
        let n2 = r.below(8);
        let ks2 = some_keys(&mut r, vi, &a, n2);
        let ks = case.keep.filter(ks);
        let kind = *r.pick(&[
            io::ErrorKind::Other,
            io::ErrorKind::BrokenPipe,
            io::ErrorKind::WouldBlock,
            io::ErrorKind::UnexpectedEof,
            io::ErrorKind::TimedOut,
            io::ErrorKind::WriteZero,
        ]);
        let d0 = format!(
            "{} completions={cands:?}\nkeys: {}",
            describe(&cfg(None)),
            keys_str(&ks)
        );
        st.desc = d0.clone();

        // without faults
        let seen: Arc<Mutex<Vec<String>>> = Arc::default();
        let log = seen.clone();
        let mut s = Sess::start(
            cfg(Some(Box::new(move |l: &str| {
                log.lock().unwrap().push(l.to_string());
                l.to_string()
            }))),
            Comp::fixed(cands.clone()),
        )
        .map_err(|e| crate::lock::io_stop("starting the editor", e))?;
        let state = |s: &Sess| {
            (
                s.tty.0.borrow().ops,
                s.text(),
                s.ed.cursor(),
                s.ed.current_history_location(),
            )
        };
        let mut b = Base {
            start: s.tty.0.borrow().ops,
            states: vec![state(&s)],
            outcomes: vec![],
            painted: vec![],
            searching: vec![],
        };
        let start_out = s.tty.take_out();
        let mut outs = vec![start_out];
        for k in &ks {
            seen.lock().unwrap().clear();
            let w0 = s.tty.0.borrow().width_queries;
            let res = s.key(*k);
            st.inc("keys");
            let w1 = s.tty.0.borrow().width_queries;
            let out = s.tty.take_out();
            b.searching
                .push(String::from_utf8_lossy(&out).contains("(search)'"));
            outs.push(out);
            b.states.push(state(&s));
            b.outcomes.push(outcome(&res));
            b.painted.push((seen.lock().unwrap().clone(), w1 - w0));
            if ended(&res) {
                break;
            }
        }
        let used = b.outcomes.len();
        let total = b.states[used].0;
        drop(s);

        // a terminal that takes a few bytes at a time, and is interrupted by signals, gets the same
        {
            let tty = MockTty::new(width);
            tty.0.borrow_mut().short = r.range(1, 7);
            if r.chance(1, 2) {
                tty.0.borrow_mut().signal_every = r.range(2, 5) as u64;
            }
            let mut s = Sess::start_on(tty.clone(), cfg(None), Comp::fixed(cands.clone()))
                .map_err(|e| crate::lock::io_stop("starting the editor with short writes", e))?;
            let mut got = vec![tty.take_out()];
            for (i, k) in ks[..used].iter().enumerate() {
                let res = outcome(&s.key(*k));
                ensure!(
                    res == b.outcomes[i],
                    "with short writes key {} ({}) gives {res}, not {}",
                    i + 1,
                    key_str(*k),
                    b.outcomes[i]
                );
                got.push(tty.take_out());
            }
            for (i, (g, w)) in got.iter().zip(&outs).enumerate() {
                ensure!(
                    g == w,
                    "with short writes {:?} was written for key {i} (0: the start) instead of {:?}",
                    String::from_utf8_lossy(g),
                    String::from_utf8_lossy(w)
                );
            }
            st.inc("short_writes");
        }

        // each operation fails in turn
        let all: Vec<u64> = (0..total).collect();
        let mut points: Vec<u64> = if total <= 90 {
            all
        } else {
            let off = r.below(total as usize) as u64;
            (0..90).map(|i| (off + i * total / 90) % total).collect()
        };
        points.sort();
        points.dedup();
        let mut hits = 0;
        for p in points {
            let tty = MockTty::new(width);
            let sticky = p % 7 == 3;
            {
                let mut t = tty.0.borrow_mut();
                t.fail_at = Some(p);
                t.fail_kind = Some(kind);
                t.fail_sticky = sticky;
            }
            st.desc = format!(
                "{d0}\nterminal operation {p} of {total} fails with {kind:?}{}",
                if sticky { ", and all after it" } else { "" }
            );
            let started = Sess::start_on(tty.clone(), cfg(None), Comp::fixed(cands.clone()));
            let failed = tty.0.borrow().failed;
            let is_ours = |e: &io::Error| e.kind() == kind && e.to_string() == FAULT_MSG;
            let mut s = match started {
                Err(e) => {
                    ensure!(
                        p < b.start && is_ours(&e),
                        "starting the editor gave {e:?} ({:?})",
                        e.kind()
                    );
                    st.inc("faults_at_start");
                    st.inc(&format!("faults_{}", failed.unwrap_or("?")));
                    continue;
                }
                Ok(s) => s,
            };
            if p < b.start {
                // only the size query of the opening may be replaced by a guess
                ensure!(
                    failed == Some("width") && !sticky,
                    "the editor started in spite of a failing {}",
                    failed.unwrap_or("?")
                );
                st.inc("size_guessed");
                ensure!(
                    s.text() == b.states[0].1 && s.ed.cursor() == b.states[0].2,
                    "the line is {:?} after a failing size query at the start",
                    s.text()
                );
                continue;
            }
            let hit = (0..used)
                .find(|i| b.states[*i].0 <= p && p < b.states[i + 1].0)
                .expect("the key of the operation");
            for (i, k) in ks[..hit].iter().enumerate() {
                let res = outcome(&s.key(*k));
                ensure!(
                    res == b.outcomes[i],
                    "key {} gave {res}, not {}: sessions differ without a fault",
                    i + 1,
                    b.outcomes[i]
                );
            }
            let k = ks[hit];
            let when = format!("key {} ({})", hit + 1, key_str(k));
            let res = s.key(k);
            let failed = tty.0.borrow().failed;
            ensure!(
                failed.is_some(),
                "{when}: the operation did not take place: sessions differ without a fault"
            );
            let what = failed.unwrap_or("?");
            match &res {
                Err(e) if is_ours(e) => {}
                _ => violation!(
                    "{when}: a failing {what} gave {}, not the terminal's error",
                    outcome(&res)
                ),
            }
            hits += 1;
            st.inc(&format!("faults_{what}"));
            let (text, cursor) = (s.text(), s.ed.cursor());
            ensure!(
                s.hist() == hist,
                "{when}: a failing {what} changed the history to {:?}",
                s.hist()
            );
            ensure!(
                cursor <= text.chars().count(),
                "{when}: after a failing {what} the cursor {cursor} is outside the line {text:?}"
            );
            let (old, new) = (&b.states[hit].1, &b.states[hit + 1].1);
            if text == *old {
                st.inc("left_before");
            } else if text == *new {
                st.inc("left_after");
            } else {
                let (painted, frames) = &b.painted[hit];
                if b.searching[hit] && *frames > 1 {
                    st.inc("left_not_compared");
                } else {
                    // a state the key goes through without a fault as well
                    let ls: Vec<&str> = text.split('\n').filter(|l| !l.is_empty()).collect();
                    let shown =
                        ls.is_empty() || painted.windows(ls.len()).any(|p| p.iter().eq(ls.iter()));
                    ensure!(
                        *frames > 1 && shown,
                        "{when}: after a failing {what} the line is {text:?}, it was {old:?} before the key and would be {new:?} after it"
                    );
                    st.inc("left_between");
                }
            }
            if sticky {
                st.inc("sticky");
                for k in &ks2 {
                    // whatever it is, no panic
                    let _ = s.key(*k);
                }
                ensure!(
                    s.hist() == hist,
                    "keys on a broken terminal changed the history to {:?}",
                    s.hist()
                );
                continue;
            }
            // the editor goes on
            let went_on = r.chance(1, 2);
            if went_on {
                for k in &ks2 {
                    st.desc.push_str(&format!(" then {}", key_str(*k)));
                    let res = s.key(*k);
                    match &res {
                        Ok(false) => {}
                        Ok(true) => break,
                        Err(e)
                            if *k == Key::Ctrl('c') && e.kind() == io::ErrorKind::Interrupted
                                || *k == Key::Ctrl('d')
                                    && e.kind() == io::ErrorKind::UnexpectedEof =>
                        {
                            break
                        }
                        _ => violation!("after the fault {} gave {}", key_str(*k), outcome(&res)),
                    }
                }
            }
            // and takes a new line
            let settle: &[Key] = if vi {
                &[Key::Esc, Key::Esc, Key::Esc, Key::Char('0'), Key::Char('D')]
            } else {
                &[Key::Alt('>'), Key::Ctrl('e'), Key::Ctrl('u')]
            };
            let mut typed: Vec<Key> = vec![];
            if vi {
                typed.push(Key::Char('i'));
            }
            typed.extend("new one".chars().map(Key::Char));
            let mut held = String::new();
            for (n, k) in settle.iter().chain(&typed).enumerate() {
                st.desc.push_str(&format!(" then {}", key_str(*k)));
                if vi && n == 4 {
                    held = s.text();
                }
                match s.key(*k) {
                    Ok(false) => {}
                    res => violation!("after the fault {} gave {}", key_str(*k), outcome(&res)),
                }
            }
            ensure!(
                s.text().ends_with("new one") && (multi || s.text() == "new one"),
                "a new line typed after the fault is {:?}",
                s.text()
            );
            st.inc("used_on_after_fault");
            let frame = s.tty.take_out();
            let searching = String::from_utf8_lossy(&frame).contains("(search)'");
            if vi && !multi && !searching {
                let again = [
                    (Key::Esc, "new one"),
                    (Key::Char('u'), ""),
                    (Key::Char('u'), held.as_str()),
                    (Key::Char('A'), held.as_str()),
                ];
                let n = if held.is_empty() { 2 } else { 4 };
                for (k, want) in again.into_iter().take(n) {
                    st.desc.push_str(&format!(" then {}", key_str(k)));
                    match s.key(k) {
                        Ok(false) => {}
                        res => violation!("after the fault {} gave {}", key_str(k), outcome(&res)),
                    }
                    ensure!(
                        s.text() == want,
                        "after the fault {} makes the line {:?}, not {want:?}",
                        key_str(k),
                        s.text()
                    );
                }
                st.inc("undone_after_fault");
            }
            ensure!(
                s.hist() == hist,
                "keys after the fault changed the history to {:?}",
                s.hist()
            );
            let line = s.text();
            let taken: String = s.ed.into();
            ensure!(
                searching || taken == line,
                "the line taken after the fault is {taken:?}, it was {line:?}"
            );
        }

        // the same through read_line, which has to hand the error on at once
        for _ in 0..3 {
            let tty = MockTty::new(width);
            // the reads of keys are operations as well
            let p = r.below((total + used as u64 + 1) as usize) as u64;
            st.desc = format!("{d0}\nread_line, terminal operation {p} fails with {kind:?}");
            {
                let mut t = tty.0.borrow_mut();
                t.fail_at = Some(p);
                t.fail_kind = Some(kind);
                t.keys = ks[..used].iter().map(|k| Ok(*k)).collect();
            }
            let mut ctx = context(&tty, &hist);
            if vi {
                ctx.key_bindings = liner::KeyBindings::Vi;
            }
            let c = cfg(None);
            let mut comp = Comp::fixed(cands.clone());
            let got = (&mut ctx).read_line_with_init_buffer(
                c.prompt_value(),
                &mut comp,
                None,
                c.init.as_str(),
            );
            let t = tty.0.borrow();
            if let Some(what) = t.failed {
                let guess = what == "width" && p < b.start && got.is_ok();
                match &got {
                    Err(e) if e.kind() == kind && e.to_string() == FAULT_MSG => {
                        ensure!(
                            t.keys_read == t.read_at_fault,
                            "after a failing {what} read_line read {} more keys",
                            t.keys_read - t.read_at_fault
                        );
                    }
                    _ if guess || (what == "width" && p < b.start) => {}
                    g => violation!("a failing {what} gave {g:?} from read_line"),
                }
                if what == "next_key" {
                    st.inc("faults_next_key");
                }
                st.inc("read_line_faults");
            }
            let now: Vec<String> = ctx.history.buffers.iter().map(|b| b.to_string()).collect();
            ensure!(
                now == hist,
                "a fault in read_line changed the history to {now:?}"
            );
        }
        if hits >= 10 {
            st.nontrivial(sig(&[&d0]));
        }
        let (faults, d) = (hits, d0.clone());
        st.sample(|| format!("{d} with {faults} faults in keys"));
        Ok(())
    }
}
