//! Fault-injecting streams: short transfers, spurious `Interrupted`, and an error at the k-th operation.
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Plan {
    /// maximum bytes moved by one read/write call; 0 = unlimited
    pub max_chunk: usize,
    /// probability (percent) that a read/write is answered with ErrorKind::Interrupted
    pub interrupt_pct: usize,
    /// fail the operation with this ordinal (counting reads/writes/seeks/flushes that reach the stream)
    pub fail_at: Option<u64>,
    /// what the failing operation does
    pub fail_kind: FailKind,
    /// keep failing after the first failure
    pub sticky: bool,
    /// the kind of error injected
    pub error: io::ErrorKind,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FailKind {
    Error,
    /// write returns Ok(0) / read returns Ok(0) (premature end of file)
    Zero,
    /// a partial transfer, and an error on the next call
    PartialThenError,
}

impl Plan {
    pub fn none() -> Plan {
        Plan {
            max_chunk: 0,
            interrupt_pct: 0,
            fail_at: None,
            fail_kind: FailKind::Error,
            sticky: true,
            error: io::ErrorKind::Other,
        }
    }
}

#[derive(Debug)]
pub struct Faulty {
    pub inner: Cursor<Vec<u8>>,
    pub plan: Plan,
    pub ops: u64,
    pub reads: u64,
    pub writes: u64,
    pub seeks: u64,
    pub interrupts: u64,
    pub short: u64,
    pub failed: u64,
    pending: bool,
    rng: Rng,
}

/// Errors a stream can answer with; none of them may be taken for success (unlike `Interrupted`, which is retried).
pub const ERRORS: [io::ErrorKind; 12] = [
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::WriteZero,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::AlreadyExists,
];

pub const MARK: &str = "injected-fault";

impl Faulty {
    pub fn new(data: Vec<u8>, plan: Plan, seed: u64) -> Self {
        Faulty {
            inner: Cursor::new(data),
            plan,
            ops: 0,
            reads: 0,
            writes: 0,
            seeks: 0,
            interrupts: 0,
            short: 0,
            failed: 0,
            pending: false,
            rng: Rng::new(seed),
        }
    }

    fn err(&self) -> io::Error {
        io::Error::new(self.plan.error, MARK)
    }

    /// None = proceed normally
    fn gate(&mut self) -> Option<FailKind> {
        let n = self.ops;
        self.ops += 1;
        if self.pending {
            if !self.plan.sticky {
                self.pending = false;
            }
            self.failed += 1;
            return Some(FailKind::Error);
        }
        match self.plan.fail_at {
            Some(k) if n == k => {
                self.failed += 1;
                self.pending = self.plan.sticky || self.plan.fail_kind == FailKind::PartialThenError;
                Some(self.plan.fail_kind)
            }
            _ => None,
        }
    }

    fn interrupted(&mut self) -> bool {
        if self.plan.interrupt_pct > 0 && self.rng.below(100) < self.plan.interrupt_pct {
            self.interrupts += 1;
            true
        } else {
            false
        }
    }

    fn chunk(&mut self, len: usize) -> usize {
        if self.plan.max_chunk == 0 || len <= 1 {
            len
        } else {
            let n = self.rng.range(1, self.plan.max_chunk.max(1)).min(len);
            if n < len {
                self.short += 1;
            }
            n
        }
    }
}

impl Read for Faulty {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.interrupted() {
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.reads += 1;
        match self.gate() {
            Some(FailKind::Error) => return Err(self.err()),
            Some(FailKind::Zero) => return Ok(0),
            Some(FailKind::PartialThenError) => {
                let n = buf.len() / 2;
                if n == 0 {
                    return Err(self.err());
                }
                return self.inner.read(&mut buf[..n]);
            }
            None => {}
        }
        let n = self.chunk(buf.len());
        self.inner.read(&mut buf[..n])
    }
}

impl Write for Faulty {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.interrupted() {
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.writes += 1;
        match self.gate() {
            Some(FailKind::Error) => return Err(self.err()),
            Some(FailKind::Zero) => return Ok(0),
            Some(FailKind::PartialThenError) => {
                let n = buf.len() / 2;
                if n == 0 {
                    return Err(self.err());
                }
                return self.inner.write(&buf[..n]);
            }
            None => {}
        }
        let n = self.chunk(buf.len());
        self.inner.write(&buf[..n])
    }

    fn flush(&mut self) -> io::Result<()> {
        match self.gate() {
            Some(_) => Err(self.err()),
            None => Ok(()),
        }
    }
}

impl Seek for Faulty {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.seeks += 1;
        match self.gate() {
            Some(_) => Err(self.err()),
            None => self.inner.seek(pos),
        }
    }
}
