//! The library and the reference model in lock-step.
use std::io;

use liner::Key;

use crate::fw::{Stats, R};
use crate::model::{Model, Out};
use crate::sess::{key_str, keys_str, Cfg, Comp, Sess};
use crate::{ensure, violation};

pub struct Lock {
    pub s: Sess,
    pub m: Model,
    pub keys: Vec<Key>,
    pub answer: Box<dyn Fn(&str) -> Vec<String>>,
    pub head: String,
    /// Compare the place in the history.
    pub loc: bool,
}

pub fn describe(cfg: &Cfg) -> String {
    format!(
        "{} width={} prompt={:?}{} history={:?} text={:?}{}",
        if cfg.vi { "Vi" } else { "Emacs" },
        cfg.width,
        cfg.prompt,
        match &cfg.status {
            Some((n, i)) => format!(" status={n:?}/{i:?}"),
            None => String::new(),
        },
        cfg.hist,
        cfg.init,
        cfg.divide
            .map_or(String::new(), |d| format!(" words={}", d.0)),
    )
}

pub fn io_stop(what: &str, e: io::Error) -> crate::fw::Stop {
    crate::fw::Stop::Violation(format!("{what} failed: {e} ({:?})", e.kind()))
}

impl Lock {
    pub fn start(cfg: Cfg) -> R<Lock> {
        Lock::start_with(cfg, |_| vec![])
    }
    pub fn start_with(cfg: Cfg, answer: impl Fn(&str) -> Vec<String> + Clone + 'static) -> R<Lock> {
        let tty = crate::tty::MockTty::new(cfg.width);
        Lock::start_on(tty, cfg, answer)
    }
    pub fn start_on(
        tty: crate::tty::MockTty,
        cfg: Cfg,
        answer: impl Fn(&str) -> Vec<String> + Clone + 'static,
    ) -> R<Lock> {
        let head = describe(&cfg);
        let mut m = Model::new(cfg.vi, &cfg.hist, &cfg.init);
        m.divide = cfg.divide;
        let a2 = answer.clone();
        let comp = Comp {
            answer: Box::new(move |w| a2(w)),
            log: vec![],
            tty: None,
            acts: Default::default(),
            failed: None,
        };
        let s = Sess::start_on(tty, cfg, comp).map_err(|e| io_stop("starting the editor", e))?;
        let l = Lock {
            s,
            m,
            keys: vec![],
            answer: Box::new(answer),
            head,
            loc: true,
        };
        l.compare("after the start")?;
        Ok(l)
    }

    /// Puts the case's description so far into the statistics, for witnesses.
    pub fn describe(&self, st: &mut Stats) {
        st.desc = format!("{}\nkeys: {}", self.head, keys_str(&self.keys));
    }

    pub fn compare(&self, when: &str) -> R {
        let (have, want) = (self.s.text(), self.m.string());
        ensure!(
            have == want,
            "{when}: the line is {have:?}, it must be {want:?} (cursor {})",
            self.m.cursor
        );
        ensure!(
            self.s.ed.cursor() == self.m.cursor,
            "{when}: the cursor is at {}, it must be at {} in {want:?}",
            self.s.ed.cursor(),
            self.m.cursor
        );
        if self.loc {
            ensure!(
                self.s.ed.current_history_location() == self.m.loc,
                "{when}: the place in history is {:?}, it must be {:?}",
                self.s.ed.current_history_location(),
                self.m.loc
            );
        }
        Ok(())
    }

    /// A key the model leaves to the library: it takes over what the line is afterwards.
    pub fn adopting(&mut self, k: Key, st: &mut Stats) -> R {
        self.keys.push(k);
        if self.keys.len() == 1 {
            self.describe(st);
        } else {
            st.desc.push(' ');
            st.desc.push_str(&key_str(k));
        }
        st.inc("keys");
        let when = format!("after key {} ({})", self.keys.len(), key_str(k));
        match self.s.key(k) {
            Ok(false) => {}
            got => violation!("{when}: the outcome is {got:?}"),
        }
        let t: Vec<char> = self.s.text().chars().collect();
        ensure!(
            self.s.ed.cursor() <= t.len(),
            "{when}: the cursor {} is outside the line",
            self.s.ed.cursor()
        );
        self.m.adopt(t, self.s.ed.cursor());
        self.compare(&when)
    }

    /// One key in both; the outcome and the state after it must agree.
    pub fn key(&mut self, k: Key, st: &mut Stats) -> R<Out> {
        self.keys.push(k);
        if self.keys.len() == 1 {
            self.describe(st);
        } else {
            st.desc.push(' ');
            st.desc.push_str(&key_str(k));
        }
        let want = self.m.key(k, &self.answer);
        let got = self.s.key(k);
        st.inc("keys");
        let when = format!("after key {} ({})", self.keys.len(), key_str(k));
        match (&want, got) {
            (Out::Go, Ok(false)) | (Out::Done(_), Ok(true)) => {}
            (Out::Interrupted, Err(e)) if e.kind() == io::ErrorKind::Interrupted => {}
            (Out::Eof, Err(e)) if e.kind() == io::ErrorKind::UnexpectedEof => {}
            (_, got) => violation!("{when}: the outcome is {got:?}, it must be {want:?}"),
        }
        self.compare(&when)?;
        Ok(want)
    }
}
