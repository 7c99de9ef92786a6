//! A reader whose every answer is a choice of the explorer.
use mccore::Ctx;
use std::{
    cell::RefCell,
    io::{self, Read, Seek, SeekFrom},
    rc::Rc,
};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Policy {
    /// Every call is answered in full.
    Faithful,
    /// Reads may be short or interrupted.
    Deliver,
    /// Calls may fail.
    Fail,
    /// Reads return at most so many octets.
    Chunk(usize),
}

/// Shared between the harness and the reader inside the code under test.
pub struct Env<'c> {
    pub cx: &'c mut Ctx,
    pub policy: Policy,
    pub reads: usize,
    pub seeks: usize,
    pub failed: usize,
    pub log: Vec<String>,
    /// After this many reads and seeks no more deviations are offered.
    pub horizon: usize,
}
impl<'c> Env<'c> {
    pub fn new(cx: &'c mut Ctx, policy: Policy) -> Rc<RefCell<Self>> {
        Rc::new(RefCell::new(Env {
            cx,
            policy,
            reads: 0,
            seeks: 0,
            failed: 0,
            log: vec![],
            horizon: usize::MAX,
        }))
    }
}

pub struct Rdr<'c, 'd> {
    pub env: Rc<RefCell<Env<'c>>>,
    data: &'d [u8],
    pos: u64,
}
impl<'c, 'd> Rdr<'c, 'd> {
    pub fn new(env: Rc<RefCell<Env<'c>>>, data: &'d [u8]) -> Self {
        Rdr { env, data, pos: 0 }
    }
    pub fn at(mut self, pos: u64) -> Self {
        self.pos = pos;
        self
    }
}

impl Read for Rdr<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let start = (self.pos.min(self.data.len() as u64)) as usize;
        let avail = (self.data.len() - start).min(buf.len());
        let mut e = self.env.borrow_mut();
        e.reads += 1;
        let mut n = avail;
        let on = e.reads + e.seeks <= e.horizon;
        match e.policy {
            Policy::Faithful => {}
            Policy::Chunk(k) => n = avail.min(k),
            Policy::Deliver if !on => {}
            Policy::Fail if !on => {}
            Policy::Deliver => {
                // full, interrupted, 1 byte, all but one, half, 15, 16 bytes
                match e.cx.deviate(7) {
                    0 => {}
                    1 => {
                        e.log.push(format!("read at {} interrupted", self.pos));
                        return Err(io::Error::from(io::ErrorKind::Interrupted));
                    }
                    2 => n = avail.min(1),
                    3 => n = if avail > 1 { avail - 1 } else { avail },
                    4 => n = if avail > 1 { avail / 2 } else { avail },
                    5 => n = avail.min(15),
                    _ => n = avail.min(16),
                }
                if n != avail {
                    let p = self.pos;
                    e.log.push(format!("read at {p} returned {n} of {avail}"));
                }
            }
            Policy::Fail => {
                let k = e.cx.deviate(4);
                if k != 0 {
                    e.failed += 1;
                    let p = self.pos;
                    e.log.push(format!("read at {p} failed"));
                    return Err(error(k));
                }
            }
        }
        buf[..n].copy_from_slice(&self.data[start..start + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

fn error(k: usize) -> io::Error {
    match k {
        1 => io::Error::new(io::ErrorKind::Other, "injected failure"),
        2 => io::Error::from(io::ErrorKind::UnexpectedEof),
        _ => io::Error::from(io::ErrorKind::WouldBlock),
    }
}

impl Seek for Rdr<'_, '_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let mut e = self.env.borrow_mut();
        e.seeks += 1;
        if e.policy == Policy::Fail && e.reads + e.seeks <= e.horizon {
            let k = e.cx.deviate(3);
            if k != 0 {
                e.failed += 1;
                e.log.push(format!("seek {p:?} failed"));
                return Err(error(if k == 2 { 3 } else { k }));
            }
        }
        let new = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if new < 0 || new > u64::MAX as i128 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.pos = new as u64;
        Ok(self.pos)
    }
}
