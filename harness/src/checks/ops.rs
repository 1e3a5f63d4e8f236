//! C25 the editor's operations under a key map of the application; C26 lines read one after another.
use liner::{Buffer, Editor, EditorContext, Key, KeyMap, Tty};

use crate::checks::screen::{ends, plan, Plan, Shown, TAB};
use crate::fw::{Case, Check, Stats, Tier, R};
use crate::gen::{enlarge_one, history, sig, steps, Alpha};
use crate::lock::describe;
use crate::model::{Act, KmSt, Model, Out, DIVIDERS};
use crate::rng::Rng;
use crate::sess::{context, key_str, keys_str, Bound, Cfg, Comp, Km};
use crate::tty::MockTty;
use crate::{ensure, violation};

pub struct C25;

fn number(r: &mut Rng, n: usize) -> usize {
    match r.below(12) {
        0 => usize::MAX,
        1 => usize::MAX - 1,
        2 => n,
        3 => n + 1,
        4 => n.saturating_sub(1),
        5 => 0,
        _ => r.below(n + 3),
    }
}

fn act(r: &mut Rng, a: &Alpha, m: &Model) -> Act {
    any_act(r, a, m.text().len())
}

/// An operation on a line of about `n` characters.
pub fn any_act(r: &mut Rng, a: &Alpha, n: usize) -> Act {
    match r.below(34) {
        0..=2 => Act::Insert(a.ch(r)),
        3 | 4 => Act::InsertStr(a.text(r, 5)),
        5 => Act::InsertChars(a.text(r, 4).chars().collect()),
        6 => Act::DeleteBefore,
        7 => Act::DeleteAfter,
        8 => Act::DeleteAllBefore,
        9 => Act::DeleteAllAfter,
        10 | 11 => Act::DeleteUntil(number(r, n)),
        12 | 13 => Act::DeleteUntilInclusive(number(r, n)),
        14 | 15 => Act::DeleteWord(r.chance(1, 2)),
        16 => Act::Left(number(r, n)),
        17 => Act::Right(number(r, n)),
        18 | 19 => Act::To(number(r, n)),
        20 => Act::Start,
        21 => Act::End,
        22 | 23 => Act::Up,
        24 => Act::Down,
        25 => r.pick(&[Act::Oldest, Act::Newest]).clone(),
        26 => Act::Search(r.chance(1, 2)),
        27 => Act::Accept,
        28 => r
            .pick(&[Act::Clear, Act::Display, Act::Flush, Act::SkipHint])
            .clone(),
        29 | 30 => Act::BufInsert(r.below(50), a.text(r, 4)),
        31 => Act::BufRemove(r.below(50), r.below(50)),
        32 => Act::Take,
        33 if r.chance(1, 3) => Act::NoEol(r.chance(2, 3)),
        33 if r.chance(1, 2) => Act::ShowNormal(r.chance(1, 2)),
        _ => Act::End,
    }
}

fn bind(m: &mut Model, st: &std::rc::Rc<std::cell::RefCell<crate::sess::BoundSt>>, acts: Vec<Act>) {
    let mut s = st.borrow_mut();
    s.todo.clear();
    s.todo.push_back(acts.clone());
    s.snaps.clear();
    m.km = KmSt::Bound(acts, vec![]);
}

fn key(r: &mut Rng, a: &Alpha) -> Key {
    match r.below(24) {
        0 | 1 => Key::Char('\t'),
        2 => Key::Char('\n'),
        3 => *r.pick(&[Key::Ctrl('r'), Key::Ctrl('s')]),
        4 => Key::Ctrl('f'),
        5 => Key::Right,
        6 => Key::Ctrl('d'),
        7 => *r.pick(&[
            Key::Ctrl('h'),
            Key::Backspace,
            Key::Null,
            Key::Insert,
            Key::BackTab,
            Key::Esc,
        ]),
        8 => *r.pick(&[
            Key::Ctrl('['),
            Key::Alt('.'),
            Key::Ctrl('l'),
            Key::PageUp,
            Key::Delete,
        ]),
        9 => Key::F(r.range(1, 12) as u8),
        10 => *r.pick(&[Key::Up, Key::Down, Key::Left, Key::Home, Key::End]),
        _ => Key::Char(a.ch(r)),
    }
}

impl C25 {
    fn step_by_step(&self, case: &mut Case, r: &mut Rng, st: &mut Stats) -> R {
        let Plan {
            mut look,
            cands,
            seeds,
            mut alpha,
        } = plan(r, false, true);
        alpha.newline = *r.pick(&[0, 0, 5]);
        if r.chance(1, 4) {
            look.cfg.divide = Some(*r.pick(DIVIDERS));
        }
        let mut r2 = Rng::new(r.next(), "c25", 0);
        let longest = 60 + look.cfg.init.chars().count();
        let seeds = case.keep.filter(seeds);
        let seeds: Vec<u64> = seeds.into_iter().filter(|s| *s != TAB).collect();
        let answer = {
            let c = cands.clone();
            move |_: &str| c.clone()
        };
        let mut s = Shown::start(&mut r2, look, answer, st)?;
        s.l.head = format!("a key map of its own, {} completions={cands:?}", s.l.head);
        let map = Bound::default();
        let told = map.0.clone();
        s.l.s.km = Km::Bound(map);
        let mut said: Vec<String> = vec![];
        let (mut acted, mut kinds) = (0, std::collections::BTreeSet::new());
        for seed in seeds {
            let mut r = Rng::new(seed, "c25k", 0);
            if !s.fits() || s.l.m.text().len() > longest {
                break;
            }
            let say = |said: &[String], st: &mut Stats| {
                st.desc = format!("{}\n{}", s.l.head, said.join("; "));
            };
            if r.chance(1, 12) {
                // what an undo gives is the subject of C07
                let a = r.pick(&[Act::Undo, Act::Redo, Act::Revert]).clone();
                let k = Key::F(2);
                said.push(format!("{}={a:?}", key_str(k)));
                say(&said, st);
                let before = s.l.m.string();
                bind(&mut s.l.m, &told, vec![a.clone()]);
                let keep = st.desc.clone();
                s.undo(k, st)?;
                st.desc = keep;
                st.inc("undos");
                let snap = told.borrow().snaps[0].clone();
                if snap.got.as_deref() == Some("true") {
                    ensure!(
                        snap.at_end,
                        "{a:?} left the cursor at {} in {:?}",
                        snap.cursor,
                        snap.text
                    );
                } else {
                    ensure!(
                        snap.text == before,
                        "{a:?} says it did nothing, the line is {:?}, it was {before:?}",
                        snap.text
                    );
                }
                continue;
            }
            if r.chance(1, 40) {
                s.set_prompt(&mut r, st)?;
                said.push("set_prompt".into());
                continue;
            }
            let k = key(&mut r, &alpha);
            // what a taken entry suggests is left open
            // so is where a completion ends that the cursor must not be after
            let barred = s.l.m.no_eol && s.l.m.hint.is_some();
            if barred && k == Key::Char('\t')
                || ends(&s.l.m, k)
                || k == Key::Ctrl('c')
                || !s.l.m.settled(k)
            {
                continue;
            }
            let mut acts = vec![];
            if s.l.m.loc.is_none() && s.l.m.search.is_none() && r.chance(1, 15) {
                acts.push(Act::Push(alpha.text(&mut r, 6)));
            }
            for _ in 0..r.range(1, 3) {
                let a = act(&mut r, &alpha, &s.l.m);
                // accepting an entry that was changed and is unchanged again is left open
                acts.push(a);
            }
            said.push(format!("{}={acts:?}", key_str(k)));
            say(&said, st);
            bind(&mut s.l.m, &told, acts.clone());
            if s.l.m.hint.is_some() {
                st.inc("with_list");
            }
            let keys0 = told.borrow().keys.len();
            let keep = st.desc.clone();
            s.bound_key(k, acts.contains(&Act::Clear), st)?;
            st.desc = keep;
            let b = told.borrow();
            let want = match &s.l.m.km {
                KmSt::Bound(left, snaps) if left.is_empty() => {
                    let k = if k == Key::Ctrl('h') {
                        Key::Backspace
                    } else {
                        k
                    };
                    ensure!(
                        b.keys.len() == keys0 + 1 && b.keys[keys0] == k,
                        "{} reached the key map as {}",
                        key_str(k),
                        keys_str(&b.keys[keys0..])
                    );
                    snaps.clone()
                }
                _ => {
                    ensure!(
                        b.keys.len() == keys0,
                        "{} is a key of every key map, it reached this one as {}",
                        key_str(k),
                        keys_str(&b.keys[keys0..])
                    );
                    st.inc("keys_of_every_map");
                    continue;
                }
            };
            for (i, a) in acts.iter().enumerate() {
                let mut got = b.snaps.get(i).cloned();
                if let (Some(g), None) = (&mut got, want[i].suggestion) {
                    g.suggestion = None;
                }
                ensure!(
                    got.as_ref() == Some(&want[i]),
                    "after {} ({a:?}) the editor is {:?}, it must be {:?}",
                    key_str(k),
                    b.snaps.get(i),
                    want[i]
                );
                kinds.insert(std::mem::discriminant(a).clone_hash());
                st.inc("operations");
                acted += 1;
            }
            if s.l.m.search.is_some() {
                st.inc("in_search");
            }
            if s.l.m.no_eol {
                st.inc("kept_on_characters");
            }
            if s.l.m.show_normal && s.status.is_some() {
                st.inc("normal_mode_shown");
            }
            if s.l.m.loc.is_some() {
                st.inc("on_recalled");
            }
        }
        if acted >= 8 && kinds.len() >= 5 {
            st.nontrivial(sig(&[&s.l.head, &said.join(";")]));
        }
        st.sample(|| format!("{}\n{}", s.l.head, said.join("; ")));
        Ok(())
    }

    /// Whole lines read with the key map.
    fn whole(&self, case: &mut Case, r: &mut Rng, st: &mut Stats) -> R {
        let a = Alpha {
            space: 15,
            backslash: 4,
            newline: 0,
            odd: 5,
            small: r.range(1, 6),
        };
        let mut cfg = Cfg::plain(false);
        cfg.hist = history(r, 6, &a);
        cfg.init = a.text(r, 8);
        if enlarge_one(r, 500, &mut cfg.hist, &mut cfg.init, &mut vec![], &a) {
            st.inc("big_cases");
        }
        let n = steps(r, 3, 30);
        let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
        let seeds = case.keep.filter(seeds);
        let longest = 60 + cfg.init.chars().count();
        let mut m = Model::new(false, &cfg.hist, &cfg.init);
        let mut keys = vec![];
        let mut acts = vec![];
        let mut reached = vec![];
        let mut out = Out::Go;
        let mut said = vec![];
        for seed in seeds {
            let mut r = Rng::new(seed, "c25w", 0);
            let k = match r.below(12) {
                0 => Key::Ctrl('c'),
                1 => Key::Char('\n'),
                2 => Key::Ctrl('d'),
                _ => key(&mut r, &a),
            };
            if !m.settled(k) || m.text().len() > longest {
                continue;
            }
            let mine: Vec<Act> = (0..r.range(1, 3))
                .map(|_| {
                    if r.chance(1, 20) {
                        Act::Newline
                    } else {
                        act(&mut r, &a, &m)
                    }
                })
                .collect();
            m.km = KmSt::Bound(mine.clone(), vec![]);
            out = m.key(k, &|_| vec![]);
            said.push(format!("{}={mine:?}", key_str(k)));
            keys.push(k);
            if matches!(&m.km, KmSt::Bound(left, _) if left.is_empty()) {
                reached.push(if k == Key::Ctrl('h') {
                    Key::Backspace
                } else {
                    k
                });
                acts.push(mine);
            }
            if out != Out::Go {
                break;
            }
        }
        st.desc = format!(
            "lines read with a key map of its own, {}\n{}",
            describe(&cfg),
            said.join("; ")
        );
        let tty = MockTty::new(cfg.width);
        // one more, which must not be read if the line is done
        tty.0.borrow_mut().keys = keys.iter().map(|k| Ok(*k)).collect();
        if out != Out::Go {
            tty.0.borrow_mut().keys.push_back(Ok(Key::Char('q')));
        }
        let map = Bound::default();
        let told = map.0.clone();
        told.borrow_mut().todo = acts.into();
        let mut ctx = context(&tty, &cfg.hist);
        let mut c = &mut ctx;
        let ed = match Editor::new_with_init_buffer(
            cfg.prompt_value(),
            None,
            &mut c,
            Buffer::from(cfg.init.as_str()),
        ) {
            Ok(e) => e,
            Err(e) => violation!("starting the editor failed: {e}"),
        };
        let mut comp = Comp::none();
        let got = EditorContext::handle_keys(map, ed, &mut comp);
        let want: Result<String, std::io::ErrorKind> = match out {
            Out::Go => Ok(m.string()),
            Out::Done(s) => Ok(s),
            Out::Interrupted => Err(std::io::ErrorKind::Interrupted),
            Out::Eof => Err(std::io::ErrorKind::UnexpectedEof),
        };
        let got = got.map_err(|e| e.kind());
        ensure!(got == want, "the line read is {got:?}, it must be {want:?}");
        let b = told.borrow();
        ensure!(b.inits == 1, "the key map was started {} times", b.inits);
        ensure!(
            b.keys == reached,
            "the key map got {}, it must get {}",
            keys_str(&b.keys),
            keys_str(&reached)
        );
        st.inc("lines_read");
        if reached.len() >= 5 {
            st.nontrivial(sig(&[&st.desc.clone()]));
        }
        Ok(())
    }
}

trait CloneHash {
    fn clone_hash(&self) -> u64;
}
impl<T: std::hash::Hash> CloneHash for T {
    fn clone_hash(&self) -> u64 {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }
}

impl Check for C25 {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (180_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a session is non-trivial if at least eight operations of five kinds were compared, a line read if five keys reached the key map; distinct by configuration, keys and operations"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a line changed through current_buffer_mut is displayed before the next operation",
            "the history is changed by the application only while a new line is edited",
        ]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "operations",
            "undos",
            "in_search",
            "on_recalled",
            "with_list",
            "keys_of_every_map",
            "prompts_changed",
            "kept_on_characters",
            "normal_mode_shown",
            "lines_read",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        if r.chance(1, 4) {
            self.whole(case, &mut r, st)
        } else {
            self.step_by_step(case, &mut r, st)
        }
    }
}

pub struct C26;

/// How one line is read.
struct Spec {
    vi: bool,
    seed: u64,
    init: String,
    cands: Vec<String>,
    keys: Vec<Result<Key, std::io::ErrorKind>>,
    /// The terminal operation that fails.
    fault: Option<u64>,
    width: usize,
}

/// What was seen of it.
#[derive(PartialEq)]
struct Seen {
    got: Result<String, (std::io::ErrorKind, String)>,
    out: Vec<u8>,
    keys_read: u64,
    flushes: u64,
    events: String,
    hist: Vec<String>,
}

impl Spec {
    fn look(&self) -> Cfg {
        let mut r = Rng::new(self.seed, "c26look", 0);
        let mut c = crate::checks::screen::look(&mut r, self.vi, self.width).cfg;
        c.init = self.init.clone();
        c
    }
    fn prepare(&self, ctx: &mut crate::sess::Ctx) {
        let mut t = ctx.terminal.0.borrow_mut();
        t.out.clear();
        t.width = self.width;
        t.keys = self.keys.iter().cloned().collect();
        (t.ops, t.keys_read, t.flushes, t.fail_at) = (0, 0, 0, self.fault);
        drop(t);
        ctx.key_bindings = if self.vi {
            liner::KeyBindings::Vi
        } else {
            liner::KeyBindings::Emacs
        };
    }
    fn seen(&self, ctx: &crate::sess::Ctx, comp: &Comp, got: std::io::Result<String>) -> Seen {
        let t = ctx.terminal.0.borrow();
        Seen {
            got: got.map_err(|e| (e.kind(), e.to_string())),
            out: t.out.clone(),
            keys_read: t.keys_read,
            flushes: t.flushes,
            events: format!("{:?}", comp.log),
            hist: ctx.history.buffers.iter().map(|b| b.to_string()).collect(),
        }
    }
    fn read(&self, ctx: &mut crate::sess::Ctx) -> Seen {
        self.prepare(ctx);
        let cfg = self.look();
        let mut comp = Comp::fixed(self.cands.clone());
        let prompt = cfg.prompt_value();
        let mut c = &mut *ctx;
        let got = if cfg.init.is_empty() && self.seed % 2 == 0 {
            c.read_line(prompt, cfg.colour, &mut comp)
        } else {
            c.read_line_with_init_buffer(prompt, &mut comp, cfg.colour, cfg.init.as_str())
        };
        self.seen(ctx, &comp, got)
    }
    /// The same with the parts `read_line` is made of.
    fn by_hand(&self, ctx: &mut crate::sess::Ctx) -> Seen {
        fn keys<M: KeyMap>(
            mut m: M,
            mut ed: Editor<&mut crate::sess::Ctx>,
            comp: &mut Comp,
        ) -> std::io::Result<String> {
            m.init(&mut ed)?;
            while let Some(k) = ed.context_mut().terminal_mut().next_key() {
                if m.handle_key(k?, &mut ed, comp)? {
                    break;
                }
            }
            Ok(ed.into())
        }
        self.prepare(ctx);
        let cfg = self.look();
        let mut comp = Comp::fixed(self.cands.clone());
        let got = Editor::new_with_init_buffer(
            cfg.prompt_value(),
            cfg.colour,
            &mut *ctx,
            Buffer::from(cfg.init.as_str()),
        )
        .and_then(|ed| {
            if self.vi {
                keys(liner::Vi::new(), ed, &mut comp)
            } else {
                keys(liner::Emacs::new(), ed, &mut comp)
            }
        });
        self.seen(ctx, &comp, got)
    }
    fn describe(&self) -> String {
        let ks: Vec<Key> = self
            .keys
            .iter()
            .filter_map(|k| k.as_ref().ok().cloned())
            .collect();
        let last = self.keys.iter().find_map(|k| k.as_ref().err());
        format!(
            "{} {}{}{}",
            describe(&self.look()),
            keys_str(&ks),
            last.map_or(String::new(), |e| format!(" then reading fails with {e:?}")),
            self.fault.map_or(String::new(), |f| format!(
                " (terminal operation {f} fails)"
            )),
        )
    }
}

fn differs(a: &Seen, b: &Seen) -> String {
    let (mut i, n) = (0, a.out.len().min(b.out.len()));
    while i < n && a.out[i] == b.out[i] {
        i += 1;
    }
    let part = |o: &[u8]| String::from_utf8_lossy(&o[i..o.len().min(i + 60)]).into_owned();
    if a.got != b.got {
        format!("the result is {:?}, not {:?}", a.got, b.got)
    } else if a.keys_read != b.keys_read {
        format!("{} keys were read, not {}", a.keys_read, b.keys_read)
    } else if a.hist != b.hist {
        format!("the history is {:?} afterwards, not {:?}", a.hist, b.hist)
    } else if a.out != b.out {
        format!(
            "from byte {i} on the terminal got {:?}, not {:?}",
            part(&a.out),
            part(&b.out)
        )
    } else if a.flushes != b.flushes {
        format!("there were {} flushes, not {}", a.flushes, b.flushes)
    } else {
        "the completer was told something else".into()
    }
}

impl Check for C26 {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (120_000, 60.0),
            Tier::Thorough => (20_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is several lines read with one context, each compared with the same line read with a new one of the same history; non-trivial if three lines or more were compared, one of which recalled an entry or ended in an error; distinct by everything generated"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["no history file (C14 to C17); whole output compared byte by byte"]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "lines",
            "lines_after_an_error",
            "lines_after_ctrl_c",
            "lines_after_other_bindings",
            "lines_after_another_width",
            "read_by_hand",
            "pushed",
            "others_in_between",
        ]
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let a = Alpha {
            newline: *r.pick(&[0, 3]),
            small: r.range(1, 6),
            ..crate::gen::WORDS
        };
        let mut hist = history(&mut r, 6, &a);
        if enlarge_one(&mut r, 500, &mut hist, &mut String::new(), &mut vec![], &a) {
            st.inc("big_cases");
        }
        let fresh = |hist: &[String]| context(&MockTty::new(80), hist);
        let mut ctx = fresh(&hist);
        ctx.history.append_duplicate_entries = r.chance(1, 2);
        if r.chance(1, 3) {
            ctx.history.set_max_buffers_size(r.range(1, 8));
        }
        let n = steps(&mut r, 2, 6);
        let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
        let mut said = format!("history={hist:?}");
        let (mut last, mut compared, mut hard) = (None, 0, false);
        for seed in case.keep.filter(seeds) {
            let mut r = Rng::new(seed, "c26", 0);
            let vi = r.chance(1, 2);
            let mut d = crate::checks::keys::Digits::default();
            let mut keys = vec![];
            for _ in 0..r.below(30) {
                let k = crate::checks::keys::any_key(&mut r, vi, &a);
                if d.ok(k) {
                    keys.push(Ok(k));
                }
            }
            match r.below(8) {
                0 => keys.push(Ok(Key::Ctrl('c'))),
                1 => keys.push(Err(*r.pick(&[
                    std::io::ErrorKind::Other,
                    std::io::ErrorKind::Interrupted,
                    std::io::ErrorKind::BrokenPipe,
                ]))),
                2 => {}
                _ => keys.extend([
                    Ok(Key::Char('\n')),
                    Ok(Key::Char('\n')),
                    Ok(Key::Char('\n')),
                ]),
            }
            let spec = Spec {
                vi,
                seed,
                init: if r.chance(1, 2) {
                    a.text(&mut r, 8)
                } else {
                    String::new()
                },
                cands: match r.below(3) {
                    0 => vec![],
                    _ => (0..r.range(1, 5)).map(|_| a.text1(&mut r, 4)).collect(),
                },
                fault: if r.chance(1, 6) {
                    Some(r.below(60) as u64)
                } else {
                    None
                },
                width: *r.pick(&[10, 24, 80]),
                keys,
            };
            said.push_str(&format!("\n{}", spec.describe()));
            st.desc = said.clone();
            let before: Vec<String> = ctx.history.buffers.iter().map(|b| b.to_string()).collect();
            // what others read in between, with nearly the same history, must not matter
            let other = |r: &mut Rng, st: &mut Stats| {
                let mut h = before.clone();
                if h.len() > 1 && r.chance(1, 2) {
                    // the newest in its place
                    let (i, j) = (r.below(h.len() - 1), r.below(h.len() - 1));
                    h.swap(i, j);
                }
                if !h.is_empty() && r.chance(1, 2) {
                    let i = r.below(h.len());
                    h[i] = a.text(r, 6);
                }
                if !h.is_empty() && r.chance(1, 6) {
                    h.remove(r.below(h.len()));
                }
                let _ = spec.read(&mut fresh(&h));
                st.inc("others_in_between");
            };
            if r.chance(1, 3) {
                other(&mut r, st);
            }
            let got = spec.read(&mut ctx);
            if r.chance(1, 3) {
                other(&mut r, st);
            }
            let want = spec.read(&mut fresh(&before));
            if got != want {
                violation!(
                    "line {} differs from the same line read first: {}",
                    compared + 1,
                    differs(&got, &want)
                );
            }
            ensure!(
                got.hist == before,
                "reading a line changed the history from {before:?} to {:?}",
                got.hist
            );
            if r.chance(1, 2) {
                let hand = spec.by_hand(&mut fresh(&before));
                if got != hand {
                    violation!(
                        "line {} differs from what the parts of read_line give: {}",
                        compared + 1,
                        differs(&got, &hand)
                    );
                }
                st.inc("read_by_hand");
            }
            compared += 1;
            st.inc("lines");
            let e = got.got.as_ref().err().map(|e| e.0);
            if let Some((le, lvi, lw)) = last {
                match le {
                    Some(std::io::ErrorKind::Interrupted) => st.inc("lines_after_ctrl_c"),
                    Some(_) => st.inc("lines_after_an_error"),
                    None => {}
                }
                if lvi != vi {
                    st.inc("lines_after_other_bindings");
                }
                if lw != spec.width {
                    st.inc("lines_after_another_width");
                }
                hard |= le.is_some();
            }
            hard |= got.events.contains("loc: Some");
            last = Some((e, vi, spec.width));
            if let Ok(line) = &got.got {
                if r.chance(2, 3) {
                    said.push_str(" pushed");
                    ensure!(
                        ctx.history.push(Buffer::from(line.as_str())).is_ok(),
                        "adding an entry to a history without a file failed"
                    );
                    st.inc("pushed");
                }
            }
        }
        if compared >= 3 && hard {
            st.nontrivial(sig(&[&said]));
        }
        st.sample(|| said);
        Ok(())
    }
}
