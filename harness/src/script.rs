//! A `Read` that follows a script, and counts what has been asked of it.
use std::{
    cell::Cell,
    fmt,
    io::{self, Read},
    rc::Rc,
};

/// The error put into the injected `io::Error`s, so that it can be recognised.
pub struct Fault(pub String);
impl fmt::Debug for Fault {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Fault<{}>", self.0)
    }
}
impl fmt::Display for Fault {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Fault {}

pub fn kind_of(name: &str) -> io::ErrorKind {
    use io::ErrorKind::*;
    match name {
        "NotFound" => NotFound,
        "PermissionDenied" => PermissionDenied,
        "ConnectionRefused" => ConnectionRefused,
        "ConnectionReset" => ConnectionReset,
        "ConnectionAborted" => ConnectionAborted,
        "NotConnected" => NotConnected,
        "BrokenPipe" => BrokenPipe,
        "AlreadyExists" => AlreadyExists,
        "WouldBlock" => WouldBlock,
        "InvalidInput" => InvalidInput,
        "InvalidData" => InvalidData,
        "TimedOut" => TimedOut,
        "WriteZero" => WriteZero,
        "Interrupted" => Interrupted,
        "UnexpectedEof" => UnexpectedEof,
        "Unsupported" => Unsupported,
        "OutOfMemory" => OutOfMemory,
        "Other" => Other,
        _ => panic!("unknown error kind {}", name),
    }
}

pub enum Step {
    /// Bytes; `true` when this is the beginning of a new physical line.
    Data(Vec<u8>, bool),
    Fail(io::ErrorKind, String),
    Interrupt,
}

#[derive(Clone, Default)]
pub struct Counters {
    /// physical lines handed out (begun)
    pub lines: Rc<Cell<usize>>,
    /// reads made after the failure or the end was reported
    pub after: Rc<Cell<usize>>,
}

pub struct Script {
    steps: std::vec::IntoIter<Step>,
    cur: Vec<u8>,
    pos: usize,
    pub counters: Counters,
    finished: bool,
}

impl Script {
    pub fn new(steps: Vec<Step>) -> Script {
        Script {
            steps: steps.into_iter(),
            cur: vec![],
            pos: 0,
            counters: Counters::default(),
            finished: false,
        }
    }
}

impl Read for Script {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.finished {
            self.counters.after.set(self.counters.after.get() + 1);
        }
        while self.pos >= self.cur.len() {
            match self.steps.next() {
                None => {
                    self.finished = true;
                    return Ok(0);
                }
                Some(Step::Data(d, begins)) => {
                    if begins {
                        self.counters.lines.set(self.counters.lines.get() + 1);
                    }
                    self.cur = d;
                    self.pos = 0;
                }
                Some(Step::Fail(k, m)) => {
                    self.finished = true;
                    return Err(io::Error::new(k, Fault(m)));
                }
                Some(Step::Interrupt) => {
                    return Err(io::Error::new(io::ErrorKind::Interrupted, Fault("interrupted".into())));
                }
            }
        }
        let n = buf.len().min(self.cur.len() - self.pos);
        buf[..n].copy_from_slice(&self.cur[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
