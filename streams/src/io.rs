//! Simulated readers and writers: what each call delivers or accepts, and when
//! it is interrupted or fails, is decided by the plan.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};

/// What one call to the stream does.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// At most this many bytes are moved.
    Take(usize),
    /// EINTR.
    Intr,
    /// The stream fails from now on with this errno.
    Fail(i32),
    /// End of the stream / full writer from now on.
    End,
}

pub const BUDGET: u64 = 200_000;

fn errno_kind(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}

pub struct SimIo<'a> {
    steps: &'a [Step],
    at: usize,
    chunk: usize,
    dead: Option<Option<i32>>,
    pub data: Vec<u8>,
    pub pos: usize,
    pub calls: u64,
    pub fired: BTreeMap<String, u64>,
    /// (offset, what happened)
    pub events: Vec<(usize, String)>,
    /// A failure other than an interruption was reported to the caller.
    pub failed: bool,
}

impl<'a> SimIo<'a> {
    pub fn new(data: Vec<u8>, steps: &'a [Step], chunk: usize) -> Self {
        Self {
            steps,
            at: 0,
            chunk: chunk.max(1),
            dead: None,
            data,
            pos: 0,
            calls: 0,
            fired: BTreeMap::new(),
            events: vec![],
            failed: false,
        }
    }

    fn fire(&mut self, off: usize, what: &str) {
        *self.fired.entry(what.to_string()).or_default() += 1;
        if self.events.len() < 4096 {
            self.events.push((off, what.to_string()));
        }
    }

    /// Decides the next call: Ok(max bytes) or an error / end.
    fn next(&mut self, off: usize, writer: bool) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > BUDGET {
            panic!("no progress: {} calls on one stream", self.calls);
        }
        if let Some(d) = self.dead {
            self.failed = true;
            return match d {
                Some(e) => Err(errno_kind(e)),
                None => Ok(0),
            };
        }
        let step = if self.at < self.steps.len() {
            self.at += 1;
            self.steps[self.at - 1].clone()
        } else {
            Step::Take(self.chunk)
        };
        match step {
            Step::Take(n) => Ok(n.max(1)),
            Step::Intr => {
                self.fire(off, "interrupted-call");
                Err(io::Error::from(io::ErrorKind::Interrupted))
            }
            Step::Fail(e) => {
                self.fire(off, if writer { "write-error" } else { "read-error" });
                self.dead = Some(Some(e));
                self.failed = true;
                Err(errno_kind(e))
            }
            Step::End => {
                self.fire(off, if writer { "writer-full" } else { "early-end" });
                self.dead = Some(None);
                self.failed = true;
                Ok(0)
            }
        }
    }
}

/// Reads from `data`.
impl Read for SimIo<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.next(self.pos, false)?;
        let left = self.data.len() - self.pos;
        let k = n.min(buf.len()).min(left);
        if k < buf.len().min(left) {
            self.fire(self.pos, "short-read");
        }
        buf[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}

/// Appends to `data`.
impl Write for SimIo<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.next(self.data.len(), true)?;
        let k = n.min(buf.len());
        if k < buf.len() {
            self.fire(self.data.len(), "short-write");
        }
        self.data.extend_from_slice(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(Some(e)) = self.dead {
            return Err(errno_kind(e));
        }
        Ok(())
    }
}
