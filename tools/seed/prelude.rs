#![allow(dead_code, unused_imports)]
use liner::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{self, Write as _};
use std::rc::Rc;

#[derive(Default)]
struct TtyState {
    out: Vec<u8>,
    width: usize,
    keys: VecDeque<io::Result<Key>>,
    /// Bytes not flushed yet.
    unflushed: usize,
    /// Writes, flushes, size queries done, and the number of the one that fails.
    ops: usize,
    fail_at: Option<usize>,
}

#[derive(Clone, Default)]
struct T(Rc<RefCell<TtyState>>);

impl T {
    fn op(&self) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        s.ops += 1;
        if s.fail_at == Some(s.ops - 1) {
            return Err(io::Error::new(io::ErrorKind::Other, "terminal failed"));
        }
        Ok(())
    }
}

impl io::Write for T {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.op()?;
        let mut s = self.0.borrow_mut();
        s.out.extend_from_slice(buf);
        s.unflushed += buf.len();
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.op()?;
        self.0.borrow_mut().unflushed = 0;
        Ok(())
    }
}

impl Tty for T {
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        self.0.borrow_mut().keys.pop_front()
    }
    fn width(&self) -> io::Result<usize> {
        self.op()?;
        Ok(self.0.borrow().width)
    }
}

/// The candidates that begin with the word.
#[derive(Default)]
struct Comp {
    all: Vec<String>,
    asked: Vec<String>,
    events: Vec<String>,
}

impl Completer for Comp {
    fn completions(&mut self, start: &str) -> Vec<String> {
        self.asked.push(start.into());
        self.all.iter().filter(|x| x.starts_with(start)).cloned().collect()
    }
    fn on_event<C: EditorContext>(&mut self, event: Event<C>) {
        let e = format!("{:?} {}", event.kind, event.editor.current_buffer());
        self.events.push(e);
    }
}

fn comp(all: &[&str]) -> Comp {
    Comp { all: all.iter().map(|s| s.to_string()).collect(), ..Default::default() }
}

/// `<Esc>`, `<C-x>`, `<M-x>`, `<Tab>`, `<CR>`, `<BS>`, `<lt>` ... and plain characters.
fn keys(s: &str) -> Vec<Key> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    while i < c.len() {
        if c[i] == '<' {
            let j = (i + 2..c.len()).find(|&j| c[j] == '>').unwrap();
            let name: String = c[i + 1..j].iter().collect();
            v.push(match &name[..] {
                "Esc" => Key::Esc,
                "CR" => Key::Char('\n'),
                "Tab" => Key::Char('\t'),
                "BS" => Key::Backspace,
                "Del" => Key::Delete,
                "Up" => Key::Up,
                "Down" => Key::Down,
                "Left" => Key::Left,
                "Right" => Key::Right,
                "Home" => Key::Home,
                "End" => Key::End,
                "lt" => Key::Char('<'),
                n if n.starts_with("C-") => Key::Ctrl(c[j - 1]),
                n if n.starts_with("M-") => Key::Alt(c[j - 1]),
                n => panic!("key {}", n),
            });
            i = j + 1;
        } else {
            v.push(Key::Char(c[i]));
            i += 1;
        }
    }
    v
}

type Ctx = Context<T>;

fn ctx(hist: &[&str], width: usize) -> (Ctx, T) {
    let t = T::default();
    t.0.borrow_mut().width = width;
    let mut c = Context::with_terminal(t.clone());
    c.history.append_duplicate_entries = true;
    for h in hist {
        c.history.push(Buffer::from(*h)).unwrap();
    }
    (c, t)
}

fn entries(h: &History) -> Vec<String> {
    h.buffers.iter().map(|b| b.to_string()).collect()
}

/// Reads a line; a trailing <CR> is up to the caller.
fn read(c: &mut Ctx, ks: &str, vi: bool, init: &str, cm: &mut Comp) -> io::Result<String> {
    c.key_bindings = if vi { KeyBindings::Vi } else { KeyBindings::Emacs };
    c.terminal.0.borrow_mut().keys = keys(ks).into_iter().map(Ok).collect();
    c.read_line_with_init_buffer(Prompt::from("$ "), cm, None, init)
}

/// The line and cursor after these keys.
fn state(hist: &[&str], ks: &str, vi: bool, init: &str) -> (String, usize) {
    let (mut c, _) = ctx(hist, 80);
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, init).unwrap();
    let mut cm = comp(&[]);
    if vi {
        let mut m = Vi::new();
        m.init(&mut ed).unwrap();
        feed(&mut m, &mut ed, ks, &mut cm);
    } else {
        feed(&mut Emacs::new(), &mut ed, ks, &mut cm);
    }
    (ed.current_buffer().to_string(), ed.cursor())
}

fn feed<M: KeyMap, C: EditorContext>(m: &mut M, ed: &mut Editor<C>, ks: &str, cm: &mut Comp) {
    for k in keys(ks) {
        m.handle_key(k, ed, cm).unwrap();
    }
}

fn vi(init: &str, ks: &str) -> (String, usize) {
    state(&[], ks, true, init)
}

fn emacs(init: &str, ks: &str) -> (String, usize) {
    state(&[], ks, false, init)
}

#[track_caller]
fn eq<A: PartialEq<B> + std::fmt::Debug, B: std::fmt::Debug>(got: A, want: B) {
    if !(got == want) {
        eprintln!("{}: got {:?}, want {:?}", std::panic::Location::caller(), got, want);
        std::process::exit(1);
    }
}

/// A small terminal: characters (all taken as one or two cells wide), deferred wrapping.
struct Vt {
    w: usize,
    rows: Vec<Vec<char>>,
    r: usize,
    c: usize,
    wrap: bool,
}

impl Vt {
    fn new(w: usize) -> Vt {
        Vt { w, rows: vec![], r: 0, c: 0, wrap: false }
    }
    fn row(&mut self) -> &mut Vec<char> {
        while self.rows.len() <= self.r {
            self.rows.push(vec![' '; self.w]);
        }
        let r = self.r;
        &mut self.rows[r]
    }
    fn feed(&mut self, bytes: &[u8]) {
        let s = String::from_utf8(bytes.to_vec()).unwrap();
        let mut it = s.chars().peekable();
        while let Some(ch) = it.next() {
            match ch {
                '\r' => {
                    self.c = 0;
                    self.wrap = false;
                }
                '\n' => {
                    self.r += 1;
                    self.wrap = false;
                }
                '\x1b' => {
                    if it.next() != Some('[') {
                        panic!("escape");
                    }
                    let mut p = String::new();
                    let fin = loop {
                        let c = it.next().unwrap();
                        if ('@'..='~').contains(&c) {
                            break c;
                        }
                        p.push(c);
                    };
                    let n = p.split(';').next().unwrap().parse::<usize>().unwrap_or(1).max(1);
                    match fin {
                        'A' => self.r = self.r.saturating_sub(n),
                        'B' => self.r += n,
                        'C' => self.c = (self.c + n).min(self.w - 1),
                        'D' => self.c = self.c.saturating_sub(n),
                        'H' => {
                            self.r = 0;
                            self.c = 0;
                        }
                        'J' => {
                            if p == "2" {
                                self.rows.clear();
                            } else {
                                let (c, r) = (self.c, self.r);
                                for x in self.row()[c..].iter_mut() {
                                    *x = ' ';
                                }
                                self.rows.truncate(r + 1);
                            }
                        }
                        _ => {}
                    }
                    if "ABCDH".contains(fin) {
                        self.wrap = false;
                    }
                }
                ch => {
                    let wide = if ('\u{1100}'..'\u{ffff}').contains(&ch) && ch != '⏎' { 2 } else { 1 };
                    if self.wrap || self.c + wide > self.w {
                        self.wrap = false;
                        self.r += 1;
                        self.c = 0;
                    }
                    let c = self.c;
                    self.row()[c] = ch;
                    if wide == 2 {
                        self.row()[c + 1] = '\0';
                    }
                    self.c += wide;
                    if self.c == self.w {
                        self.c -= 1;
                        self.wrap = true;
                    }
                }
            }
        }
    }
    /// The rows without trailing spaces, without empty rows at the end.
    fn text(&self) -> Vec<String> {
        let mut v: Vec<String> = self
            .rows
            .iter()
            .map(|r| r.iter().filter(|&&c| c != '\0').collect::<String>().trim_end().to_string())
            .collect();
        while v.last().map_or(false, |s| s.is_empty()) {
            v.pop();
        }
        v
    }
}

/// A file in the scratch directory given to the demo.
fn scratch(name: &str) -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::args().nth(1).unwrap()).join(name)
}

