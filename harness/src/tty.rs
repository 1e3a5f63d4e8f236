//! The terminal handed to the library: records everything written, serves keys, injects faults.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;

use liner::{Key, Tty};

#[derive(Default)]
pub struct TtyState {
    pub out: Vec<u8>,
    /// How much of `out` had been written at the last flush.
    pub flushed: usize,
    pub flushes: u64,
    pub writes: u64,
    pub width_queries: u64,
    pub width: usize,
    pub keys: VecDeque<Result<Key, io::ErrorKind>>,
    pub keys_read: u64,
    /// Counts every I/O operation (write, flush, width, next_key); the one with this number fails.
    pub ops: u64,
    pub fail_at: Option<u64>,
    pub fail_kind: Option<io::ErrorKind>,
    /// Operations of which kind failed.
    pub failed: Option<&'static str>,
    /// Keys read when the first operation failed.
    pub read_at_fault: u64,
    /// After the first failure every operation fails.
    pub fail_sticky: bool,
    /// A write takes at most so many bytes, if not 0.
    pub short: usize,
    /// Every n-th write is interrupted by a signal, if not 0; the writer has to try again.
    pub signal_every: u64,
}

#[derive(Clone)]
pub struct MockTty(pub Rc<RefCell<TtyState>>);

pub const FAULT_MSG: &str = "injected fault 7f3a";

impl MockTty {
    pub fn new(width: usize) -> MockTty {
        MockTty(Rc::new(RefCell::new(TtyState {
            width,
            ..Default::default()
        })))
    }
    fn op(&self, what: &'static str) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        let n = s.ops;
        s.ops += 1;
        let hit = match s.fail_at {
            Some(k) => n == k || (s.fail_sticky && n > k),
            None => false,
        };
        if hit {
            if s.failed.is_none() {
                s.failed = Some(what);
                s.read_at_fault = s.keys_read;
            }
            let kind = s.fail_kind.unwrap_or(io::ErrorKind::Other);
            return Err(io::Error::new(kind, FAULT_MSG));
        }
        Ok(())
    }
    pub fn take_out(&self) -> Vec<u8> {
        let mut s = self.0.borrow_mut();
        s.flushed = 0;
        std::mem::take(&mut s.out)
    }
}

impl io::Write for MockTty {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.op("write")?;
        let mut s = self.0.borrow_mut();
        s.writes += 1;
        if s.signal_every > 0 && s.writes % s.signal_every == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = if s.short > 0 {
            buf.len().min(s.short)
        } else {
            buf.len()
        };
        s.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.op("flush")?;
        let mut s = self.0.borrow_mut();
        s.flushes += 1;
        s.flushed = s.out.len();
        Ok(())
    }
}

impl Tty for MockTty {
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        if let Err(e) = self.op("next_key") {
            return Some(Err(e));
        }
        let mut s = self.0.borrow_mut();
        s.keys_read += 1;
        s.keys
            .pop_front()
            .map(|k| k.map_err(|kind| io::Error::new(kind, FAULT_MSG)))
    }
    fn width(&self) -> io::Result<usize> {
        self.op("width")?;
        let mut s = self.0.borrow_mut();
        s.width_queries += 1;
        Ok(s.width)
    }
}
