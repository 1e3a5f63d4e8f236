//! C21: the default terminal on a pseudo-terminal, in a process of its own.
use std::fs;
use std::io::{self, Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use liner::{Context, DefaultTty, EditorContext, Key, KeyBindings, Tty};

use crate::checks::screen::{ends, live_key};
use crate::fw::{Case, Check, Stats, Stop, Tier, R};
use crate::gen::{history, sig, Alpha, WORDS};
use crate::model::{Model, Out, Pend};
use crate::render::{frame, frame_of, prompt_of, Screen};
use crate::rng::Rng;
use crate::sess::{key_str, Comp};
use crate::vt::Vt;
use crate::{ensure, violation};

pub struct C21;

/// Written to the terminal when all that was printed so far has to be there.
const MARK: &[u8] = b"\x1b[?7777h";
const PANIC: &str = "panic!";

fn mark() {
    unsafe {
        libc::write(1, MARK.as_ptr() as *const _, MARK.len());
    }
}

/// The default terminal, with a mark written whenever the library wants a key.
struct Marking(DefaultTty);

impl Write for Marking {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.write(b)
    }
    fn write_vectored(&mut self, b: &[io::IoSlice<'_>]) -> io::Result<usize> {
        self.0.write_vectored(b)
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        self.0.write_all(b)
    }
    fn write_fmt(&mut self, a: std::fmt::Arguments<'_>) -> io::Result<()> {
        self.0.write_fmt(a)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}

impl Tty for Marking {
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        mark();
        self.0.next_key()
    }
    fn width(&self) -> io::Result<usize> {
        self.0.width()
    }
}

fn hex(s: &str) -> String {
    let mut o = String::from("x");
    for b in s.bytes() {
        o.push_str(&format!("{b:02x}"));
    }
    o
}

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (1..s.len())
        .step_by(2)
        .map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap_or(b'?'))
        .collect();
    String::from_utf8_lossy(&b).into_owned()
}

/// What the child is told, one line each: vi, step, prompt, history..., then per line its text.
#[derive(Clone, Debug)]
struct Told {
    vi: bool,
    step: bool,
    prompt: String,
    status: bool,
    cands: Vec<String>,
    hist: Vec<String>,
    inits: Vec<String>,
}

impl Told {
    fn write(&self) -> String {
        let mut o = format!(
            "{} {} {} {}\n",
            self.vi,
            self.step,
            self.status,
            hex(&self.prompt)
        );
        for l in [&self.cands, &self.hist, &self.inits] {
            o.push_str(&l.iter().map(|s| hex(s)).collect::<Vec<_>>().join(" "));
            o.push('\n');
        }
        o
    }
    fn read(s: &str) -> Told {
        let mut ls = s.lines();
        let first: Vec<&str> = ls.next().unwrap().split(' ').collect();
        let mut list = || -> Vec<String> {
            ls.next()
                .unwrap_or("")
                .split(' ')
                .filter(|s| !s.is_empty())
                .map(unhex)
                .collect()
        };
        Told {
            vi: first[0] == "true",
            step: first[1] == "true",
            status: first[2] == "true",
            prompt: unhex(first[3]),
            cands: list(),
            hist: list(),
            inits: list(),
        }
    }
}

fn report(fd: i32, s: &str) {
    let l = format!("{s}\n");
    unsafe {
        libc::write(fd, l.as_ptr() as *const _, l.len());
    }
}

fn await_go(fd: i32) {
    let mut b = [0u8; 1];
    unsafe {
        if libc::read(fd, b.as_mut_ptr() as *mut _, 1) != 1 {
            libc::_exit(3);
        }
    }
}

fn lines<T: Tty>(mut ctx: Context<T>, t: &Told, res: i32, go: i32) {
    if t.vi {
        ctx.key_bindings = KeyBindings::Vi;
    }
    for h in &t.hist {
        ctx.history.buffers.push_back(h.as_str().into());
    }
    let cands = t.cands.clone();
    report(res, "raw");
    await_go(go);
    for init in &t.inits {
        let c = cands.clone();
        let mut comp = Comp {
            answer: Box::new(move |_| {
                if c.iter().any(|c| c == PANIC) {
                    panic!("the completer panics");
                }
                c.clone()
            }),
            log: vec![],
            tty: None,
            acts: Default::default(),
            failed: None,
        };
        let prompt = liner::Prompt {
            prompt: t.prompt.clone(),
            vi_status: if t.status {
                Some(liner::ViStatus::default())
            } else {
                None
            },
        };
        let got = (&mut ctx).read_line_with_init_buffer(prompt, &mut comp, None, init.as_str());
        mark();
        match &got {
            Ok(l) => report(res, &format!("line {}", hex(l))),
            Err(e) => report(res, &format!("error {:?}", e.kind())),
        }
        await_go(go);
        match got {
            Ok(l) => {
                let _ = ctx.history.push(l.into());
            }
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(_) => break,
        }
    }
}

/// The process on the terminal.
pub fn child(cfg: &str, res: i32, go: i32) -> i32 {
    let t = Told::read(&fs::read_to_string(cfg).expect("configuration"));
    let r = std::panic::catch_unwind(|| {
        if t.step {
            let tty = match DefaultTty::new() {
                Ok(t) => t,
                Err(e) => return report(res, &format!("no terminal: {e}")),
            };
            lines(Context::with_terminal(Marking(tty)), &t, res, go);
        } else {
            match Context::new() {
                Ok(c) => lines(c, &t, res, go),
                Err(e) => report(res, &format!("no terminal: {e}")),
            }
        }
    });
    report(
        res,
        if r.is_ok() {
            "dropped"
        } else {
            "dropped panicked"
        },
    );
    await_go(go);
    0
}

fn bytes_of(k: Key, r: &mut Rng) -> Option<Vec<u8>> {
    let s: &[&str] = match k {
        Key::Char('\n') => &["\r", "\n"],
        Key::Char('\t') => &["\t"],
        Key::Char(c) => {
            let mut b = [0; 4];
            return Some(c.encode_utf8(&mut b).as_bytes().to_vec());
        }
        Key::Ctrl(c @ 'a'..='z') if !matches!(c, 'i' | 'j' | 'm') => {
            return Some(vec![c as u8 & 0x1f])
        }
        Key::Alt(c) if c != '[' && c != 'O' => {
            let mut v = vec![0x1b];
            let mut b = [0; 4];
            v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            return Some(v);
        }
        Key::Esc => &["\x1b"],
        Key::Backspace => &["\x7f"],
        Key::Up => &["\x1b[A"],
        Key::Down => &["\x1b[B"],
        Key::Right => &["\x1b[C"],
        Key::Left => &["\x1b[D"],
        Key::Home => &["\x1b[H", "\x1b[1~", "\x1b[7~"],
        Key::End => &["\x1b[F", "\x1b[4~", "\x1b[8~"],
        Key::Delete => &["\x1b[3~"],
        Key::PageUp => &["\x1b[5~"],
        Key::F(3) => &["\x1b[13~", "\x1bOR"],
        Key::Null => &["\0"],
        _ => return None,
    };
    Some(r.pick(s).as_bytes().to_vec())
}

fn termios(fd: i32) -> libc::termios {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(fd, &mut t);
        t
    }
}

type Modes = (u32, u32, u32, u32, [u8; 32], u32, u32);

fn modes(t: &libc::termios) -> Modes {
    (
        t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag, t.c_cc, t.c_ispeed, t.c_ospeed,
    )
}

fn set_width(fd: i32, w: usize) {
    let s = libc::winsize {
        ws_row: 50,
        ws_col: w as u16,
        ws_xpixel: 0,
        ws_ypixel: 0,
    };
    unsafe {
        libc::ioctl(fd, libc::TIOCSWINSZ, &s);
    }
}

struct Term {
    master: fs::File,
    slave: OwnedFd,
    res: fs::File,
    go: fs::File,
    kid: Child,
    /// Printed and not taken yet; reports not taken yet.
    out: Vec<u8>,
    got: Vec<u8>,
    log: std::path::PathBuf,
}

enum Wait {
    /// A mark came; what was printed before it.
    Mark(Vec<u8>),
    Report(String),
}

fn inconclusive<T>(what: &str, e: impl std::fmt::Display) -> R<T> {
    Err(Stop::Inconclusive(format!("{what}: {e}")))
}

impl Drop for Term {
    fn drop(&mut self) {
        let _ = self.kid.kill();
        let _ = self.kid.wait();
    }
}

/// Nothing heard from the process in this time, though it has something to say.
const SILENCE: Duration = Duration::from_secs(20);

impl Term {
    fn open(w: usize, r: &mut Rng, dir: &std::path::Path, told: &Told) -> R<(Term, Modes)> {
        let (mut m, mut s) = (0, 0);
        let rc = unsafe {
            libc::openpty(
                &mut m,
                &mut s,
                std::ptr::null_mut(),
                std::ptr::null(),
                std::ptr::null(),
            )
        };
        if rc != 0 {
            return inconclusive("openpty", io::Error::last_os_error());
        }
        let (master, slave) = unsafe { (fs::File::from_raw_fd(m), OwnedFd::from_raw_fd(s)) };
        unsafe {
            libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
            libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
        }
        set_width(m, w);
        // whatever mode the terminal was in
        let mut t = termios(s);
        for _ in 0..r.below(5) {
            match r.below(8) {
                0 => t.c_lflag ^= libc::ECHO,
                1 => t.c_lflag ^= libc::ECHOCTL,
                2 => t.c_iflag ^= libc::IXON,
                3 => t.c_iflag ^= libc::ICRNL,
                4 => t.c_oflag ^= libc::ONLCR,
                5 => t.c_cc[libc::VERASE] = 8,
                6 => t.c_cc[libc::VINTR] = 5 + r.below(20) as u8,
                _ => t.c_lflag ^= libc::ICANON,
            }
        }
        unsafe {
            libc::tcsetattr(s, libc::TCSANOW, &t);
        }
        let t0 = modes(&termios(s));
        let (mut p, mut q) = ([0i32; 2], [0i32; 2]);
        if unsafe {
            libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) != 0
                || libc::pipe2(q.as_mut_ptr(), libc::O_CLOEXEC) != 0
        } {
            return inconclusive("pipe", io::Error::last_os_error());
        }
        let (res, res_w, go_r, go) = unsafe {
            (
                fs::File::from_raw_fd(p[0]),
                OwnedFd::from_raw_fd(p[1]),
                OwnedFd::from_raw_fd(q[0]),
                fs::File::from_raw_fd(q[1]),
            )
        };
        let cfg = dir.join("told");
        let log = dir.join("log");
        let io = |r: io::Result<()>| r.or_else(|e| inconclusive("scratch directory", e));
        io(fs::write(&cfg, told.write()))?;
        let errors = match fs::File::create(&log) {
            Ok(f) => f,
            Err(e) => return inconclusive("log", e),
        };
        let exe = std::env::current_exe().expect("exe");
        let (rw, gr) = (res_w.as_raw_fd(), go_r.as_raw_fd());
        let mut c = Command::new(exe);
        c.arg("pty-child")
            .arg(&cfg)
            .arg("8")
            .arg("9")
            .stdin(Stdio::from(slave.try_clone().expect("dup")))
            .stdout(Stdio::from(slave.try_clone().expect("dup")))
            .stderr(Stdio::from(errors));
        unsafe {
            c.pre_exec(move || {
                // away from 8 and 9 first, should they be among these
                let a = libc::fcntl(rw, libc::F_DUPFD, 20);
                let b = libc::fcntl(gr, libc::F_DUPFD, 20);
                if a < 0 || b < 0 || libc::dup2(a, 8) < 0 || libc::dup2(b, 9) < 0 {
                    return Err(io::Error::last_os_error());
                }
                libc::close(a);
                libc::close(b);
                libc::setsid();
                Ok(())
            });
        }
        let kid = match c.spawn() {
            Ok(k) => k,
            Err(e) => return inconclusive("starting the process", e),
        };
        drop((res_w, go_r));
        Ok((
            Term {
                master,
                slave,
                res,
                go,
                kid,
                out: vec![],
                got: vec![],
                log,
            },
            t0,
        ))
    }

    fn pull(&mut self) -> R<bool> {
        let mut fds = [
            libc::pollfd {
                fd: self.master.as_raw_fd(),
                events: libc::POLLIN,
                revents: 0,
            },
            libc::pollfd {
                fd: self.res.as_raw_fd(),
                events: libc::POLLIN,
                revents: 0,
            },
        ];
        let n = unsafe { libc::poll(fds.as_mut_ptr(), 2, SILENCE.as_millis() as i32) };
        if n == 0 {
            return Ok(false);
        }
        let mut b = [0u8; 65536];
        if fds[0].revents & libc::POLLIN != 0 {
            if let Ok(n) = self.master.read(&mut b) {
                self.out.extend_from_slice(&b[..n]);
            }
        }
        if fds[1].revents != 0 {
            match self.res.read(&mut b) {
                Ok(0) => {
                    let t = fs::read_to_string(&self.log).unwrap_or_default();
                    violation!("the process ended: {:?}\n{t}", self.kid.wait());
                }
                Ok(n) => self.got.extend_from_slice(&b[..n]),
                Err(e) => return inconclusive("reading reports", e),
            }
        }
        Ok(true)
    }

    /// Waits for a mark or, if there is none yet, a report.
    fn wait(&mut self, what: &str, mark: bool) -> R<Wait> {
        let t = Instant::now();
        loop {
            if mark {
                if let Some(i) = self.out.windows(MARK.len()).position(|b| b == MARK) {
                    let before = self.out[..i].to_vec();
                    self.out.drain(..i + MARK.len());
                    return Ok(Wait::Mark(before));
                }
            }
            if let Some(i) = self.got.iter().position(|b| *b == b'\n') {
                if !mark {
                    let l = String::from_utf8_lossy(&self.got[..i]).into_owned();
                    self.got.drain(..=i);
                    return Ok(Wait::Report(l));
                }
                if self.got.starts_with(b"dropped") {
                    let l = String::from_utf8_lossy(&self.got[..i]).into_owned();
                    return Ok(Wait::Report(l));
                }
            }
            if !self.pull()? || t.elapsed() > SILENCE * 3 {
                violation!(
                    "{what}: nothing from the process for {} s; printed since: {:?}",
                    SILENCE.as_secs(),
                    String::from_utf8_lossy(&self.out)
                );
            }
        }
    }

    fn shown(&mut self, what: &str) -> R<Vec<u8>> {
        match self.wait(what, true)? {
            Wait::Mark(b) => Ok(b),
            Wait::Report(l) => violation!("{what}: the process reports {l:?}"),
        }
    }

    fn report(&mut self, what: &str) -> R<String> {
        match self.wait(what, false)? {
            Wait::Report(l) => Ok(l),
            Wait::Mark(_) => unreachable!(),
        }
    }

    fn go(&mut self) -> R {
        match self.go.write_all(b"g") {
            Ok(()) => Ok(()),
            Err(_) => violation!("the process has gone: {:?}", self.kid.wait()),
        }
    }

    fn type_bytes(&mut self, b: &[u8]) -> R {
        match self.master.write_all(b) {
            Ok(()) => Ok(()),
            Err(e) => inconclusive("typing", e),
        }
    }

    fn modes(&self) -> Modes {
        modes(&termios(self.slave.as_raw_fd()))
    }

    fn check_raw(&self, when: &str) -> R {
        let m = self.modes();
        let on = m.3 & (libc::ICANON | libc::ECHO | libc::ISIG | libc::IEXTEN);
        ensure!(
            on == 0 && m.1 & libc::OPOST == 0 && m.0 & (libc::ICRNL | libc::IXON) == 0,
            "{when} the terminal is not in raw mode: {m:?}"
        );
        Ok(())
    }
}

/// How a line's session is to end.
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Enter,
    CtrlC,
    CtrlD,
    Panic,
}

impl Check for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn budget(&self, t: Tier) -> (u64, f64) {
        match t {
            Tier::Quick => (4_000, 60.0),
            Tier::Thorough => (1_000_000, 600.0),
        }
    }
    fn rule(&self) -> &'static str {
        "a case is a process reading one to three lines from a pseudo-terminal on which bytes are typed, key by key or all at once; non-trivial if at least one line was returned or interrupted after edits; distinct by configuration and bytes"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a single Esc is typed apart from other bytes, an escape sequence at once (the key parser is termion's)",
            "the terminal is not read before it is in raw mode; the process is not killed",
            "a process that says nothing for 20 s is stuck",
        ]
    }
    fn must_observe(&self) -> &'static [&'static str] {
        &[
            "keys_one_by_one",
            "lines_at_once",
            "screens_compared",
            "width_changes",
            "width_unknown",
            "ended_Enter",
            "ended_CtrlC",
            "ended_CtrlD",
            "ended_Panic",
            "restored",
            "raw_checked",
            "split_characters",
            "long_lines",
        ]
    }
    fn shrinkable(&self) -> bool {
        false
    }
    fn case_cpu_limit(&self) -> f64 {
        60.0
    }
    fn run(&self, case: &mut Case, st: &mut Stats) -> R {
        let mut r = case.rng();
        let vi = r.chance(1, 3);
        let step = r.chance(2, 3);
        let a = Alpha {
            odd: if step { *r.pick(&[0, 8]) } else { 5 },
            newline: 0,
            ..WORDS
        };
        let n = r.range(1, 3);
        let mut told = Told {
            vi,
            step,
            prompt: r
                .pick(&["$ ", "λ\x1b[1m>\x1b[0m ", "first\n> ", ""])
                .to_string(),
            status: vi && r.chance(1, 2),
            cands: match r.below(4) {
                0 => vec![PANIC.to_string()],
                1 => vec![],
                _ => vec![a.text1(&mut r, 5)],
            },
            hist: history(&mut r, 4, &a),
            inits: (0..n)
                .map(|_| {
                    if r.chance(1, 4) {
                        a.text(&mut r, 8)
                    } else {
                        String::new()
                    }
                })
                .collect(),
        };
        // the child pushes every line; nothing must depend on how
        told.hist.dedup();
        // more than fits into the output buffer at once
        let long = step && r.chance(1, 10);
        if long {
            let n = r.range(600, 3000);
            let text = Alpha { small: 6, ..a }.text1(&mut r, 4).repeat(n);
            let text: String = text.chars().take(n).collect();
            let at = r.below(20);
            let cut = |s: &str| {
                let (x, y): (String, String) =
                    (s.chars().take(at).collect(), s.chars().skip(at).collect());
                format!("{x}\n{y}")
            };
            told.inits[0] = if r.chance(2, 3) { cut(&text) } else { text };
            st.inc("long_lines");
        }
        let w0 = if long {
            *r.pick(&[80, 132, 300, 700, 1000])
        } else if r.chance(1, 6) {
            0
        } else {
            *r.pick(&[12, 30, 80, 132])
        };
        let mut w = if w0 == 0 { 80 } else { w0 };
        if w0 == 0 {
            st.inc("width_unknown");
        }
        st.desc = format!("{told:?} width {w0}");
        if st.desc.len() > 2000 {
            let s: String = told.inits[0].chars().take(60).collect();
            st.desc = format!("long line {s:?}... width {w0} seed-specific");
        }
        let d0 = st.desc.clone();
        let dir = case.scratch.to_path_buf();
        let (mut t, t0) = Term::open(w0, &mut r, &dir, &told)?;
        let l = t.report("at the start")?;
        ensure!(l == "raw", "the process reports {l:?}");
        t.check_raw("while the context lives")?;
        st.inc("raw_checked");
        let mut hist: Vec<String> = told.hist.clone();
        let mut vt = Vt::new(w, 400);
        t.go()?;
        let mut typed: Vec<u8> = vec![];
        let status = if told.status {
            Some(("[N] ".to_string(), "[I] ".to_string()))
        } else {
            None
        };
        let earlier: Vec<&str> = if told.prompt.starts_with("first\n") {
            vec!["first"]
        } else {
            vec![]
        };
        let base = told.prompt.split('\n').last().unwrap_or("").to_string();
        let mut over = false;
        let mut some = false;
        for (no, init) in told.inits.iter().enumerate() {
            let mut end = *r.pick(&[End::Enter, End::Enter, End::CtrlC, End::CtrlD]);
            if told.cands == [PANIC] && r.chance(1, 2) {
                end = End::Panic;
            }
            let mut m = Model::new(vi, &hist, init);
            let cands = told.cands.clone();
            let answer = move |_: &str| cands.clone();
            let mut scr = Screen::new(vt.clone());
            st.desc.push_str(&format!("\nline {no}:"));
            let look = |scr: &mut Screen, m: &Model, w: usize, when: &str, st: &mut Stats| -> R {
                if m.pending() {
                    return Ok(());
                }
                let f = frame_of(m, &base, status.as_ref(), w);
                st.inc("screens_compared");
                scr.expect(&f, None, false).map_err(|e| match e {
                    Stop::Violation(v) => Stop::Violation(format!("{when}: {v}")),
                    e => e,
                })
            };
            if step {
                let b = t.shown("at the start of the line")?;
                scr.started(&b, &earlier)?;
                look(&mut scr, &m, w, "at the start of the line", st)?;
            }
            let mut burst: Vec<u8> = vec![];
            let mut nk = r.range(0, if step { 14 } else { 30 });
            let mut tries = 0;
            let mut last = false;
            loop {
                tries += 1;
                let k = if nk == 0 || tries > 200 {
                    last = true;
                    match end {
                        End::Enter => Key::Char('\n'),
                        End::CtrlC => Key::Ctrl('c'),
                        End::CtrlD if m.text().is_empty() && m.settled(Key::Ctrl('d')) => {
                            Key::Ctrl('d')
                        }
                        End::CtrlD => {
                            end = End::CtrlC;
                            Key::Ctrl('c')
                        }
                        End::Panic => Key::Char('\t'),
                    }
                } else if r.chance(1, 2) {
                    Key::Char(a.ch(&mut r))
                } else {
                    live_key(&mut r, &m, &a)
                };
                if !last && (ends(&m, k) || !m.settled(k) || !step && k == Key::Esc) {
                    continue;
                }
                if told.cands == [PANIC] && k == Key::Char('\t') && !last {
                    continue;
                }
                if last && !m.settled(k) {
                    // an operator or a character is waited for
                    if m.settled(Key::Ctrl('c')) {
                        end = End::CtrlC;
                        nk = 0;
                        if k != Key::Ctrl('c') {
                            continue;
                        }
                    }
                }
                let Some(bytes) = bytes_of(k, &mut r) else {
                    continue;
                };
                nk = nk.saturating_sub(1);
                st.inc("keys");
                st.desc.push(' ');
                st.desc.push_str(&key_str(k));
                let when = format!("line {no}, after {}", key_str(k));
                if last && end == End::Panic {
                    if step {
                        t.type_bytes(&bytes)?;
                    } else {
                        burst.extend_from_slice(&bytes);
                    }
                    typed.extend_from_slice(&bytes);
                    break;
                }
                // the window changes its width before a key that draws everything anew
                let clearing =
                    k == Key::Ctrl('l') && m.vi().map(|v| v.pend == Pend::None).unwrap_or(true);
                let mut wider = false;
                if step && clearing && r.chance(1, 2) {
                    w = if long && r.chance(1, 2) {
                        r.range(200, 1100)
                    } else {
                        r.range(if long { 60 } else { 10 }, 90)
                    };
                    set_width(t.master.as_raw_fd(), w);
                    st.inc("width_changes");
                    wider = true;
                }
                let had_list = m.hint.is_some();
                let out = m.key(k, &answer);
                typed.extend_from_slice(&bytes);
                if !step {
                    burst.extend_from_slice(&bytes);
                    if out != Out::Go {
                        break;
                    }
                    continue;
                }
                if bytes.len() > 1 && !matches!(bytes[0], 0x1b) && r.chance(1, 2) {
                    t.type_bytes(&bytes[..1])?;
                    std::thread::sleep(Duration::from_micros(300));
                    t.type_bytes(&bytes[1..])?;
                    st.inc("split_characters");
                } else {
                    t.type_bytes(&bytes)?;
                }
                st.inc("keys_one_by_one");
                if out != Out::Go {
                    break;
                }
                let b = t.shown(&when)?;
                if wider {
                    scr = Screen::new(Vt::new(w, 400));
                }
                scr.vt.feed(&b);
                if clearing {
                    scr.origin = scr.vt.top;
                    scr.above.truncate(scr.vt.top);
                }
                if !had_list {
                    look(&mut scr, &m, w, &when, st)?;
                }
            }
            if !step {
                t.type_bytes(&burst)?;
                st.inc("lines_at_once");
            }
            if end == End::Panic {
                st.inc("ended_Panic");
                over = true;
                break;
            }
            let when = format!("at the end of line {no}");
            let bytes = t.shown(&when)?;
            let got = t.report(&when)?;
            t.check_raw(&when)?;
            // the model knows how it ended
            let want = {
                let mut m2 = Model::new(vi, &hist, init);
                std::mem::swap(&mut m2, &mut m);
                m2
            };
            let text = want.string();
            let must = match end {
                End::Enter => format!("line {}", hex(&text)),
                End::CtrlC => "error Interrupted".to_string(),
                _ => "error UnexpectedEof".to_string(),
            };
            ensure!(
                got == must,
                "line {no} ended with {} ({got}), it must be {end:?} of {text:?} ({must})",
                got.strip_prefix("line ").map(unhex).unwrap_or_default()
            );
            st.inc(&format!("ended_{end:?}"));
            some |= !text.is_empty();
            if step {
                scr.vt.feed(&bytes);
                let (p, _) = prompt_of(&want, &base, status.as_ref());
                let f = frame(&p, want.text(), want.text().len(), want.text().len(), w, None);
                let origin = scr.origin;
                scr.check_clean()?;
                if !want.pending() && !(text.ends_with('\n') && want.normal()) {
                    if let Err(e) = scr.compare(&f, origin, false) {
                        violation!("{when} ({text:?}): {e}\n{}", scr.vt.dump());
                    }
                    ensure!(
                        scr.vt.cursor().1 == 0 && scr.vt.cursor().0 > origin + f.page.r,
                        "{when} the cursor is at {:?}\n{}",
                        scr.vt.cursor(),
                        scr.vt.dump()
                    );
                }
            }
            vt = scr.vt;
            t.go()?;
            match end {
                End::Enter => {
                    // as the child does
                    let mut h = liner::History::new();
                    for x in &hist {
                        h.buffers.push_back(x.as_str().into());
                    }
                    let _ = h.push(text.as_str().into());
                    hist = h.buffers.iter().map(|b| b.to_string()).collect();
                }
                End::CtrlD => {
                    over = true;
                }
                _ => {}
            }
            if over {
                break;
            }
        }
        let l = t.report("at the end")?;
        let panics = l == "dropped panicked";
        ensure!(
            l.starts_with("dropped") && panics == st.desc.ends_with("<Tab>"),
            "the process reports {l:?}\n{}",
            fs::read_to_string(&t.log).unwrap_or_default()
        );
        let now = t.modes();
        ensure!(
            now == t0,
            "the terminal's mode was {t0:?} before the context was made and is {now:?} after it is gone"
        );
        st.inc("restored");
        t.go()?;
        if some {
            st.nontrivial(sig(&[&d0, &String::from_utf8_lossy(&typed)]));
        }
        let d = st.desc.clone();
        st.sample(|| d);
        Ok(())
    }
}
