//! Readers and writers that play an environment: chunking, interruptions, failures.
use std::cell::Cell;
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::rc::Rc;

pub const KINDS: [ErrorKind; 20] = [
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut,
    ErrorKind::WriteZero, ErrorKind::Unsupported, ErrorKind::OutOfMemory, ErrorKind::Other, ErrorKind::HostUnreachable, ErrorKind::StorageFull,
];

/// Delivers the data in pieces: a read never crosses an offset in `cuts` (sorted) and never returns more than `max`;
/// before delivering at an offset in `intr`, it answers Interrupted that many times.
pub struct Chunked<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub cuts: Vec<usize>,
    pub max: usize,
    pub intr: Vec<(usize, u32)>,
    /// interruptions before the first delivery at every offset the reads happen to begin at
    pub every: u32,
    seen: (usize, u32),
    /// deviations at the n-th call: an interruption, one byte, half, all but one
    pub calls: Vec<(u64, Dev)>,
    pub steps: Rc<Cell<u64>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dev {
    Intr,
    One,
    Half,
    AllButOne,
}
pub const DEVS: [Dev; 4] = [Dev::Intr, Dev::One, Dev::Half, Dev::AllButOne];
impl<'a> Chunked<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Chunked { data, pos: 0, cuts: vec![], max: usize::MAX, intr: vec![], every: 0, seen: (usize::MAX, 0), calls: vec![], steps: Rc::new(Cell::new(0)) }
    }
}
impl Read for Chunked<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.steps.set(self.steps.get() + 1);
        if let Some(x) = self.intr.iter_mut().find(|x| x.0 == self.pos && x.1 > 0) {
            x.1 -= 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.every > 0 {
            if self.seen.0 != self.pos {
                self.seen = (self.pos, 0);
            }
            if self.seen.1 < self.every {
                self.seen.1 += 1;
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        let mut n = buf.len().min(self.data.len() - self.pos).min(self.max);
        let call = self.steps.get() - 1;
        if let Some((_, d)) = self.calls.iter().find(|c| c.0 == call) {
            match d {
                Dev::Intr => return Err(Error::from(ErrorKind::Interrupted)),
                Dev::One => n = n.min(1),
                Dev::Half => n = n.div_ceil(2),
                Dev::AllButOne => n = if n > 1 { n - 1 } else { n },
            }
        }
        if let Some(c) = self.cuts.iter().find(|c| **c > self.pos) {
            n = n.min(c - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Fails when asked for the byte at `at`: `times` times (u32::MAX = forever), then works again.
pub struct Failing<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub at: usize,
    pub kind: ErrorKind,
    pub times: u32,
    /// whether a failing read first hands out the bytes before `at`
    pub failed: Rc<Cell<u32>>,
}
impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.pos == self.at && !buf.is_empty() && self.failed.get() < self.times {
            self.failed.set(self.failed.get() + 1);
            return Err(Error::new(self.kind, "injected"));
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if self.at > self.pos {
            n = n.min(self.at - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// At its end for `times` reads at the byte `at`, then it has the rest: a log that grows while it is read.
pub struct Growing<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub at: usize,
    pub times: u32,
    /// the largest number of bytes given at once
    pub max: usize,
}
impl Read for Growing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.pos == self.at && !buf.is_empty() && self.times > 0 {
            self.times -= 1;
            return Ok(0);
        }
        let mut n = buf.len().min(self.data.len() - self.pos).min(self.max);
        if self.at > self.pos {
            n = n.min(self.at - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Counts the bytes handed out.
pub struct Counting<'a> {
    pub data: &'a [u8],
    pub pos: Rc<Cell<usize>>,
}
impl Read for Counting<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let p = self.pos.get();
        let n = buf.len().min(self.data.len() - p);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos.set(p + n);
        Ok(n)
    }
}

/// Endless log: a head, then a repeated tail.
pub struct Endless {
    pub head: Vec<u8>,
    pub body: Vec<u8>,
    pub pos: usize,
}
impl Read for Endless {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        for b in buf.iter_mut() {
            *b = if self.pos < self.head.len() { self.head[self.pos] } else { self.body[(self.pos - self.head.len()) % self.body.len()] };
            self.pos += 1;
        }
        Ok(buf.len())
    }
}

/// A head, a body repeated `reps` times, and a tail: logs too long to be held in memory.
pub struct Long<'a> {
    pub parts: [&'a [u8]; 3],
    pub reps: u64,
    pub at: (u64, usize),
}
impl<'a> Long<'a> {
    pub fn new(head: &'a [u8], body: &'a [u8], reps: u64, tail: &'a [u8]) -> Self {
        Long { parts: [head, body, tail], reps, at: (0, 0) }
    }
}
impl Read for Long<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        loop {
            let p = self.parts[if self.at.0 == 0 { 0 } else if self.at.0 <= self.reps { 1 } else { 2 }];
            let rest = &p[self.at.1..];
            if rest.is_empty() && self.at.0 <= self.reps {
                self.at = (self.at.0 + 1, 0);
                continue;
            }
            let n = rest.len().min(buf.len());
            buf[..n].copy_from_slice(&rest[..n]);
            self.at.1 += n;
            return Ok(n);
        }
    }
}

/// Accepts at most `max` bytes per call, cuts at `cuts`, interrupts at `intr`, fails at byte `fail`
/// (kind, or accepts 0 bytes when None). Only `write` is implemented, so the default `write_all` drives it.
pub struct Sink {
    pub out: Vec<u8>,
    pub max: usize,
    pub cuts: Vec<usize>,
    pub intr: Vec<(usize, u32)>,
    pub fail: Option<(usize, Option<ErrorKind>, u32)>,
    /// interruptions before the first acceptance at every offset the writes happen to begin at
    pub every: u32,
    seen: (usize, u32),
    /// deviations at the n-th call
    pub calls: Vec<(u64, Dev)>,
    /// failure at the n-th call
    pub fail_call: Option<(u64, Option<ErrorKind>)>,
    pub failed: bool,
    pub steps: u64,
}
impl Sink {
    pub fn new() -> Sink {
        Sink { out: vec![], max: usize::MAX, cuts: vec![], intr: vec![], fail: None, every: 0, seen: (usize::MAX, 0), calls: vec![], fail_call: None, failed: false, steps: 0 }
    }
}
impl Default for Sink {
    fn default() -> Self {
        Self::new()
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.steps += 1;
        let pos = self.out.len();
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(x) = self.intr.iter_mut().find(|x| x.0 == pos && x.1 > 0) {
            x.1 -= 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.every > 0 {
            if self.seen.0 != pos {
                self.seen = (pos, 0);
            }
            if self.seen.1 < self.every {
                self.seen.1 += 1;
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        let mut n = buf.len().min(self.max);
        let call = self.steps - 1;
        if let Some((_, d)) = self.calls.iter().find(|c| c.0 == call) {
            match d {
                Dev::Intr => return Err(Error::from(ErrorKind::Interrupted)),
                Dev::One => n = n.min(1),
                Dev::Half => n = n.div_ceil(2),
                Dev::AllButOne => n = if n > 1 { n - 1 } else { n },
            }
        }
        if let Some((c, kind)) = self.fail_call {
            if c == call {
                self.failed = true;
                return match kind {
                    Some(k) => Err(Error::new(k, "injected")),
                    None => Ok(0),
                };
            }
        }
        if let Some(c) = self.cuts.iter().find(|c| **c > pos) {
            n = n.min(c - pos);
        }
        if let Some((at, kind, times)) = &mut self.fail {
            if pos == *at && *times > 0 {
                *times -= 1;
                self.failed = true;
                return match kind {
                    Some(k) => Err(Error::new(*k, "injected")),
                    None => Ok(0),
                };
            }
            if *at > pos {
                n = n.min(*at - pos);
            }
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
