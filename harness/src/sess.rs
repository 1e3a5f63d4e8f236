//! A session: the library's editor, driven key by key on the recording terminal.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{self, Write};
use std::rc::Rc;

use liner::{
    Buffer, ColorClosure, Completer, Context, Editor, EditorContext, Emacs, Event, EventKind, Key,
    KeyMap, Prompt, Vi, ViPromptMode, ViStatus,
};

use crate::model::{Act, Divide, Snap};
use crate::tty::MockTty;

pub type Wd = Box<dyn Fn(&Buffer) -> Vec<(usize, usize)>>;
pub type Ctx = Context<MockTty, Wd>;

#[derive(Clone, Debug, PartialEq)]
pub enum EvKind {
    Before(Key),
    After(Key),
    Complete,
    /// The completer was asked about this word.
    Asked(String),
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub kind: EvKind,
    pub text: String,
    pub cursor: usize,
    pub loc: Option<usize>,
    /// Bytes written to the terminal when the event came.
    pub out: usize,
}

/// The completer handed to the library: answers as told and records every call.
pub struct Comp {
    pub answer: Box<dyn FnMut(&str) -> Vec<String>>,
    pub log: Vec<Ev>,
    pub tty: Option<MockTty>,
    /// What it does to the editor before the key, before the completion and after the key.
    pub acts: [Vec<Act>; 3],
    /// An error of these acts.
    pub failed: Option<io::Error>,
}

impl Comp {
    pub fn none() -> Comp {
        Comp {
            answer: Box::new(|_| vec![]),
            log: vec![],
            tty: None,
            acts: Default::default(),
            failed: None,
        }
    }
    pub fn fixed(c: Vec<String>) -> Comp {
        Comp {
            answer: Box::new(move |_| c.clone()),
            log: vec![],
            tty: None,
            acts: Default::default(),
            failed: None,
        }
    }
    pub fn prefix(c: Vec<String>) -> Comp {
        Comp {
            answer: Box::new(move |w| c.iter().filter(|x| x.starts_with(w)).cloned().collect()),
            log: vec![],
            tty: None,
            acts: Default::default(),
            failed: None,
        }
    }
    pub fn asked(&self) -> Vec<&str> {
        self.log
            .iter()
            .filter_map(|e| match &e.kind {
                EvKind::Asked(s) => Some(s.as_str()),
                _ => None,
            })
            .collect()
    }
}

impl Completer for Comp {
    fn completions(&mut self, start: &str) -> Vec<String> {
        self.log.push(Ev {
            kind: EvKind::Asked(start.into()),
            text: String::new(),
            cursor: 0,
            loc: None,
            out: 0,
        });
        (self.answer)(start)
    }
    fn on_event<C: EditorContext>(&mut self, event: Event<C>) {
        let kind = match event.kind {
            EventKind::BeforeKey(k) => EvKind::Before(k),
            EventKind::AfterKey(k) => EvKind::After(k),
            EventKind::BeforeComplete => EvKind::Complete,
        };
        self.log.push(Ev {
            kind,
            text: event.editor.current_buffer().to_string(),
            cursor: event.editor.cursor(),
            loc: event.editor.current_history_location(),
            out: self
                .tty
                .as_ref()
                .map(|t| t.0.borrow().out.len())
                .unwrap_or(0),
        });
        let i = match event.kind {
            EventKind::BeforeKey(_) => 0,
            EventKind::BeforeComplete => 1,
            EventKind::AfterKey(_) => 2,
        };
        for a in std::mem::take(&mut self.acts[i]) {
            if let Err(e) = apply(&a, event.editor) {
                self.failed = Some(e);
            }
        }
    }
}

pub enum Km {
    Emacs(Emacs),
    Vi(Vi),
    Bound(Bound),
}

/// A key map of the application: what the keys to come are bound to, and what it saw.
#[derive(Default)]
pub struct Bound(pub Rc<RefCell<BoundSt>>);

#[derive(Default)]
pub struct BoundSt {
    pub todo: VecDeque<Vec<Act>>,
    /// Keys that reached it.
    pub keys: Vec<Key>,
    pub inits: usize,
    /// The editor after each act.
    pub snaps: Vec<Snap>,
}

pub fn apply<C: EditorContext>(a: &Act, ed: &mut Editor<C>) -> io::Result<Option<String>> {
    let n = ed.current_buffer().num_chars();
    match a {
        Act::Insert(c) => ed.insert_after_cursor(*c)?,
        Act::InsertStr(s) => ed.insert_str_after_cursor(s)?,
        Act::InsertChars(s) => ed.insert_chars_after_cursor(s)?,
        Act::DeleteBefore => ed.delete_before_cursor()?,
        Act::DeleteAfter => ed.delete_after_cursor()?,
        Act::DeleteAllBefore => ed.delete_all_before_cursor()?,
        Act::DeleteAllAfter => ed.delete_all_after_cursor()?,
        Act::DeleteUntil(p) => ed.delete_until(*p)?,
        Act::DeleteUntilInclusive(p) => ed.delete_until_inclusive(*p)?,
        Act::DeleteWord(b) => ed.delete_word_before_cursor(*b)?,
        Act::Left(n) => ed.move_cursor_left(*n)?,
        Act::Right(n) => ed.move_cursor_right(*n)?,
        Act::To(p) => ed.move_cursor_to(*p)?,
        Act::Start => ed.move_cursor_to_start_of_line()?,
        Act::End => ed.move_cursor_to_end_of_line()?,
        Act::Up => ed.move_up()?,
        Act::Down => ed.move_down()?,
        Act::Oldest => ed.move_to_start_of_history()?,
        Act::Newest => ed.move_to_end_of_history()?,
        Act::Search(f) => ed.search(*f)?,
        Act::Accept => ed.accept_autosuggestion()?,
        Act::Clear => ed.clear()?,
        Act::Display => ed.display()?,
        Act::Flush => ed.flush()?,
        Act::SkipHint => ed.skip_completions_hint(),
        Act::Bell => ed.context_mut().terminal_mut().write_all(b"\x07")?,
        Act::Newline => return Ok(Some(ed.handle_newline()?.to_string())),
        Act::BufInsert(i, s) => {
            let cs: Vec<char> = s.chars().collect();
            ed.current_buffer_mut().insert(i % (n + 1), &cs);
            ed.display()?;
        }
        Act::BufRemove(i, j) => {
            let (i, j) = (i % (n + 1), j % (n + 1));
            ed.current_buffer_mut().remove(i.min(j), i.max(j));
            ed.display()?;
        }
        Act::Take => {
            let s = ed.take_exec_buffer();
            ed.display()?;
            return Ok(Some(s));
        }
        Act::Undo => return Ok(Some(ed.undo()?.to_string())),
        Act::Redo => return Ok(Some(ed.redo()?.to_string())),
        Act::Revert => return Ok(Some(ed.revert()?.to_string())),
        Act::NoEol(b) => {
            ed.no_eol = *b;
            ed.display()?;
        }
        Act::ShowNormal(b) => {
            ed.set_vi_mode(if *b {
                liner::ViPromptMode::Normal
            } else {
                liner::ViPromptMode::Insert
            });
            ed.display()?;
        }
        Act::Push(s) => {
            ed.context_mut()
                .history_mut()
                .push(Buffer::from(s.as_str()))?;
            ed.display()?;
        }
    }
    Ok(None)
}

impl KeyMap for Bound {
    fn handle_key_core<C: EditorContext>(
        &mut self,
        key: Key,
        ed: &mut Editor<C>,
    ) -> io::Result<()> {
        let acts = {
            let mut s = self.0.borrow_mut();
            s.keys.push(key);
            s.snaps.clear();
            s.todo.pop_front().unwrap_or_default()
        };
        for a in &acts {
            let got = apply(a, ed)?;
            self.0.borrow_mut().snaps.push(Snap {
                text: ed.current_buffer().to_string(),
                cursor: ed.cursor(),
                loc: ed.current_history_location(),
                at_end: ed.cursor_is_at_end_of_line(),
                suggestion: Some(ed.is_currently_showing_autosuggestion()),
                got,
            });
        }
        Ok(())
    }
    fn init<C: EditorContext>(&mut self, _: &mut Editor<C>) -> io::Result<()> {
        self.0.borrow_mut().inits += 1;
        Ok(())
    }
}

pub struct Cfg {
    pub vi: bool,
    pub prompt: String,
    /// Show the vi mode in the prompt: indicators for normal and insert mode.
    pub status: Option<(String, String)>,
    pub width: usize,
    pub hist: Vec<String>,
    pub init: String,
    pub colour: Option<ColorClosure>,
    pub divide: Option<Divide>,
}

impl Cfg {
    pub fn plain(vi: bool) -> Cfg {
        Cfg {
            vi,
            prompt: "$ ".into(),
            status: None,
            width: 200,
            hist: vec![],
            init: String::new(),
            colour: None,
            divide: None,
        }
    }
    pub fn prompt_value(&self) -> Prompt {
        Prompt {
            prompt: self.prompt.clone(),
            vi_status: self
                .status
                .as_ref()
                .map(|(n, i)| ViStatus::new(ViPromptMode::Insert, n.clone(), i.clone())),
        }
    }
}

pub struct Sess {
    pub ed: Editor<Ctx>,
    pub km: Km,
    pub comp: Comp,
    pub tty: MockTty,
}

pub fn divider(d: Divide) -> Wd {
    Box::new(move |b: &Buffer| d.1(&b.chars().cloned().collect::<Vec<char>>()))
}

pub fn context(tty: &MockTty, hist: &[String]) -> Ctx {
    let mut ctx: Ctx = Context {
        history: liner::History::new(),
        word_divider_fn: Box::new(liner::get_buffer_words),
        key_bindings: liner::KeyBindings::Emacs,
        terminal: tty.clone(),
        buffer: String::new(),
    };
    for h in hist {
        ctx.history.buffers.push_back(Buffer::from(h.as_str()));
    }
    ctx
}

impl Sess {
    pub fn start(cfg: Cfg, comp: Comp) -> io::Result<Sess> {
        let tty = MockTty::new(cfg.width);
        Sess::start_on(tty, cfg, comp)
    }
    pub fn start_on(tty: MockTty, cfg: Cfg, comp: Comp) -> io::Result<Sess> {
        let mut ctx = context(&tty, &cfg.hist);
        if let Some(d) = cfg.divide {
            ctx.word_divider_fn = divider(d);
        }
        Sess::start_with(ctx, tty, cfg, comp)
    }
    pub fn start_with(ctx: Ctx, tty: MockTty, cfg: Cfg, mut comp: Comp) -> io::Result<Sess> {
        let prompt = cfg.prompt_value();
        let mut ed =
            Editor::new_with_init_buffer(prompt, cfg.colour, ctx, Buffer::from(cfg.init.as_str()))?;
        let km = if cfg.vi {
            let mut v = Vi::new();
            v.init(&mut ed)?;
            Km::Vi(v)
        } else {
            let mut e = Emacs::new();
            e.init(&mut ed)?;
            Km::Emacs(e)
        };
        comp.tty = Some(tty.clone());
        Ok(Sess { ed, km, comp, tty })
    }
    pub fn key(&mut self, k: Key) -> io::Result<bool> {
        // the frames written to `Context::buffer` are not looked at by any caller
        self.ed.context_mut().buffer.clear();
        match &mut self.km {
            Km::Emacs(m) => m.handle_key(k, &mut self.ed, &mut self.comp),
            Km::Vi(m) => m.handle_key(k, &mut self.ed, &mut self.comp),
            Km::Bound(m) => m.handle_key(k, &mut self.ed, &mut self.comp),
        }
    }
    /// Past the keys common to both key maps.
    pub fn core_key(&mut self, k: Key) -> io::Result<()> {
        self.ed.context_mut().buffer.clear();
        match &mut self.km {
            Km::Emacs(m) => m.handle_key_core(k, &mut self.ed),
            Km::Vi(m) => m.handle_key_core(k, &mut self.ed),
            Km::Bound(m) => m.handle_key_core(k, &mut self.ed),
        }
    }
    pub fn text(&self) -> String {
        self.ed.current_buffer().to_string()
    }
    pub fn hist(&self) -> Vec<String> {
        self.ed
            .context()
            .history
            .buffers
            .iter()
            .map(|b| b.to_string())
            .collect()
    }
}

pub fn keys_str(ks: &[Key]) -> String {
    let mut o = String::new();
    for k in ks {
        if !o.is_empty() {
            o.push(' ');
        }
        o.push_str(&key_str(*k));
    }
    o
}

pub fn key_str(k: Key) -> String {
    match k {
        Key::Char('\n') => "<Enter>".into(),
        Key::Char('\t') => "<Tab>".into(),
        Key::Char(' ') => "<Space>".into(),
        Key::Char(c) => c.to_string(),
        Key::Ctrl(c) => format!("<C-{c}>"),
        Key::Alt('\x7f') => "<A-BS>".into(),
        Key::Alt(c) => format!("<A-{c}>"),
        k => format!("<{k:?}>"),
    }
}
