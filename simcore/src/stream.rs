//! The simulated disk: an in-memory file behind Read + Write + Seek whose every
//! call is a fault point.  "Durable" is exactly what reached `data`.
use crate::choice::Prng;
use crate::ctx::Ctx;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// this call fails with EIO, nothing transferred
    Eio,
    /// this call is interrupted (EINTR); std retries it
    Eintr,
    /// this call transfers at most n bytes and succeeds
    Short(usize),
    /// a write transfers n bytes to the disk and then fails with EIO
    Torn(usize),
    /// the write call reports 0 bytes written
    Zero,
    /// power/process loss at this call: n bytes of it reach the disk, and every
    /// later call fails
    Crash(usize),
    /// a read call returns 0 (EOF) although data remains
    Eof,
}

#[derive(Default)]
pub struct State {
    pub data: Vec<u8>,
    pub ops: u64,
    pub reads: u64,
    pub writes: u64,
    pub seeks: u64,
    pub flushes: u64,
    pub plan: BTreeMap<u64, Fault>,
    /// seeded short transfers on every call
    pub chunker: Option<(Prng, usize)>,
    /// probability (1/n) of EINTR per transfer call
    pub eintr_every: u64,
    /// disk full beyond this many bytes
    pub capacity: Option<usize>,
    pub crashed: bool,
    pub fired: Vec<&'static str>,
    pub append: bool,
    /// an error was returned to the code under test
    pub errors_returned: u64,
    /// the file begins with a hole of this many zero bytes which take no memory
    pub base: u64,
}

#[derive(Clone)]
pub struct SimFile {
    pub st: Rc<RefCell<State>>,
    pos: u64,
}

fn eio(what: &str) -> Error {
    Error::new(ErrorKind::Other, format!("simulated I/O error on {what}"))
}

impl SimFile {
    pub fn new(data: Vec<u8>) -> Self {
        SimFile {
            st: Rc::new(RefCell::new(State {
                data,
                ..Default::default()
            })),
            pos: 0,
        }
    }
    /// Put a hole in front of the content: what is at 0 now will be at `base`.
    pub fn set_base(&mut self, base: u64) {
        self.st.borrow_mut().base = base;
        self.pos = base;
    }
    /// Another handle onto the same disk bytes, at offset 0.
    pub fn reopen(&self) -> Self {
        SimFile {
            st: self.st.clone(),
            pos: 0,
        }
    }
    pub fn content(&self) -> Vec<u8> {
        self.st.borrow().data.clone()
    }
    pub fn ops(&self) -> u64 {
        self.st.borrow().ops
    }
    pub fn len(&self) -> usize {
        self.st.borrow().data.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn errors(&self) -> u64 {
        self.st.borrow().errors_returned
    }
    pub fn set_plan(&self, plan: BTreeMap<u64, Fault>) {
        let mut s = self.st.borrow_mut();
        s.plan = plan;
    }
    pub fn at(&self, op: u64, f: Fault) {
        self.st.borrow_mut().plan.insert(op, f);
    }
    pub fn clear_faults(&self) {
        let mut s = self.st.borrow_mut();
        s.plan.clear();
        s.capacity = None;
        s.eintr_every = 0;
        s.crashed = false;
    }
    /// Move the fault kinds that fired into the run's statistics.
    pub fn drain(&self, ctx: &mut Ctx) -> usize {
        let f = std::mem::take(&mut self.st.borrow_mut().fired);
        let n = f.len();
        let mut counts: BTreeMap<&str, u64> = BTreeMap::new();
        for k in f {
            *counts.entry(k).or_default() += 1;
        }
        for (k, c) in counts {
            ctx.event(format!("FAULT {k} x{c}"));
            *ctx.faults.entry(k.to_owned()).or_default() += c;
        }
        ctx.sim_us += self.st.borrow().ops;
        n
    }
    /// Draw the benign disturbances (short transfers, EINTR) for this file.
    pub fn disturb(&self, ctx: &mut Ctx) {
        let mode = ctx.draw(4);
        let mut s = self.st.borrow_mut();
        match mode {
            0 => {}
            1 => {
                let max = [1usize, 2, 3, 7, 16, 61, 257, 4096][ctx.draw(8) as usize];
                s.chunker = Some((ctx.sub_prng(), max));
            }
            2 => {
                s.chunker = Some((ctx.sub_prng(), 64));
                s.eintr_every = 2 + ctx.draw(20);
            }
            _ => {
                s.eintr_every = 1 + ctx.draw(9);
                if s.chunker.is_none() {
                    s.chunker = Some((ctx.sub_prng(), 1 << 30));
                }
            }
        }
    }
}

impl State {
    fn step(&mut self) -> Result<Option<Fault>, Error> {
        let op = self.ops;
        self.ops += 1;
        if self.crashed {
            self.errors_returned += 1;
            return Err(eio("crashed device"));
        }
        Ok(self.plan.get(&op).cloned())
    }
    fn limit(&mut self, want: usize, write: bool) -> Result<usize, Error> {
        if want == 0 {
            return Ok(0);
        }
        if let Some((p, max)) = &mut self.chunker {
            if self.ops > 50_000 && p.below(64) != 0 {
                // a big file: disturbed less often from here on
                return Ok(want);
            }
            if self.eintr_every > 0 && p.below(self.eintr_every + 1) == 0 {
                self.fired.push(if write { "eintr-write" } else { "eintr-read" });
                return Err(Error::from(ErrorKind::Interrupted));
            }
            let m = 1 + p.below(*max as u64) as usize;
            if m < want {
                self.fired.push(if write { "short-write" } else { "short-read" });
                return Ok(m);
            }
        }
        Ok(want)
    }
}

impl Read for SimFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.st.borrow_mut();
        s.reads += 1;
        let f = s.step()?;
        let base = s.base;
        let avail = match self.pos < base {
            true => (base - self.pos).min(usize::MAX as u64) as usize,
            false => (s.data.len() as u64).saturating_sub(self.pos - base) as usize,
        };
        let mut n = s.limit(buf.len().min(avail), false)?;
        match f {
            None => {}
            Some(Fault::Eintr) => {
                s.fired.push("eintr-read");
                return Err(Error::from(ErrorKind::Interrupted));
            }
            Some(Fault::Short(k)) => {
                if k.max(1) < n {
                    s.fired.push("short-read");
                    n = k.max(1);
                }
            }
            Some(Fault::Eof) | Some(Fault::Zero) => {
                if n > 0 {
                    s.fired.push("early-eof");
                }
                return Ok(0);
            }
            Some(Fault::Eio) | Some(Fault::Torn(_)) => {
                s.fired.push("read-error");
                s.errors_returned += 1;
                return Err(eio("read"));
            }
            Some(Fault::Crash(_)) => {
                s.crashed = true;
                s.fired.push("crash-in-read");
                s.errors_returned += 1;
                return Err(eio("read (crash)"));
            }
        }
        if n == 0 {
            return Ok(0);
        }
        if self.pos < base {
            buf[..n].fill(0);
        } else {
            let p = (self.pos - base) as usize;
            buf[..n].copy_from_slice(&s.data[p..p + n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for SimFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.st.borrow_mut();
        s.writes += 1;
        let f = s.step()?;
        let mut n = s.limit(buf.len(), true)?;
        let mut fail: Option<&'static str> = None;
        match f {
            None | Some(Fault::Eof) => {}
            Some(Fault::Eintr) => {
                s.fired.push("eintr-write");
                return Err(Error::from(ErrorKind::Interrupted));
            }
            Some(Fault::Short(k)) => {
                if k.max(1) < n {
                    s.fired.push("short-write");
                    n = k.max(1);
                }
            }
            Some(Fault::Zero) => {
                if n > 0 {
                    s.fired.push("zero-write");
                    s.errors_returned += 1;
                }
                return Ok(0);
            }
            Some(Fault::Eio) => {
                s.fired.push("write-error");
                s.errors_returned += 1;
                return Err(eio("write"));
            }
            Some(Fault::Torn(k)) => {
                n = n.min(k);
                fail = Some("torn-write");
            }
            Some(Fault::Crash(k)) => {
                n = n.min(k);
                s.crashed = true;
                fail = Some("crash-in-write");
            }
        }
        if s.append {
            self.pos = s.base + s.data.len() as u64;
        }
        if self.pos < s.base {
            return Err(Error::new(ErrorKind::InvalidInput, "simulated write into the hole"));
        }
        let base = s.base;
        if let Some(cap) = s.capacity {
            let room = cap.saturating_sub((self.pos - base) as usize);
            if n > room {
                s.fired.push("disk-full");
                if room == 0 && fail.is_none() {
                    s.errors_returned += 1;
                    return Err(Error::new(ErrorKind::StorageFull, "simulated disk full"));
                }
                n = n.min(room);
            }
        }
        let p = (self.pos - base) as usize;
        if s.data.len() < p + n {
            s.data.resize(p + n, 0);
        }
        s.data[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        if let Some(k) = fail {
            s.fired.push(k);
            s.errors_returned += 1;
            return Err(eio(k));
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.st.borrow_mut();
        s.flushes += 1;
        match s.step()? {
            Some(Fault::Eio) | Some(Fault::Torn(_)) | Some(Fault::Zero) => {
                s.fired.push("flush-error");
                s.errors_returned += 1;
                Err(eio("flush"))
            }
            Some(Fault::Crash(_)) => {
                s.crashed = true;
                s.fired.push("crash-in-flush");
                s.errors_returned += 1;
                Err(eio("flush (crash)"))
            }
            _ => Ok(()),
        }
    }
}

impl Seek for SimFile {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let mut s = self.st.borrow_mut();
        s.seeks += 1;
        match s.step()? {
            Some(Fault::Eio) | Some(Fault::Torn(_)) | Some(Fault::Zero) => {
                s.fired.push("seek-error");
                s.errors_returned += 1;
                return Err(eio("seek"));
            }
            Some(Fault::Crash(_)) => {
                s.crashed = true;
                s.fired.push("crash-in-seek");
                s.errors_returned += 1;
                return Err(eio("seek (crash)"));
            }
            _ => {}
        }
        let np = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => s.base as i128 + s.data.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if np < 0 || np > i64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "invalid seek"));
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}
