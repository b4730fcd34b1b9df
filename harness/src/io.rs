//! Transports that follow a plan from the specification's transport model.
use futures::io::{AsyncRead, AsyncWrite};
use std::future::Future;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

/// I/O error kinds by number, as used in plans.
pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,              // 0
    ErrorKind::ConnectionReset,    // 1
    ErrorKind::ConnectionRefused,  // 2
    ErrorKind::NotConnected,       // 3
    ErrorKind::AlreadyExists,      // 4
    ErrorKind::TimedOut,           // 5
    ErrorKind::UnexpectedEof,      // 6
    ErrorKind::BrokenPipe,         // 7
    ErrorKind::PermissionDenied,   // 8
    ErrorKind::ConnectionAborted,  // 9
    ErrorKind::InvalidData,        // 10
    ErrorKind::InvalidInput,       // 11
    ErrorKind::NotFound,           // 12
    ErrorKind::AddrInUse,          // 13
    ErrorKind::AddrNotAvailable,   // 14
    ErrorKind::WriteZero,          // 15
    ErrorKind::Unsupported,        // 16
    ErrorKind::OutOfMemory,        // 17
    ErrorKind::WouldBlock,         // 18
];
pub const WRITE_ZERO: i64 = 50;

/// Steps taken one per call: n > 0 transfer at most n bytes; 0 not ready (async; blocking
/// transports pass over it); -1 interrupted; -2 accept nothing.  Exhausted steps repeat when
/// `cyc`, otherwise everything is transferred.  At offset `fail.0` every call fails.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub steps: Vec<i64>,
    pub cyc: bool,
    pub fail: Option<(usize, usize)>,
    pub zero_at: Option<usize>,
    pub flush: Option<usize>,
    at: usize,
}

pub enum Act {
    Move(usize),
    Pend,
    Fail(ErrorKind),
    Zero,
}

impl Plan {
    pub fn free() -> Plan {
        Plan::default()
    }
    pub fn chunks(n: usize) -> Plan {
        Plan { steps: vec![n as i64], cyc: true, ..Plan::default() }
    }
    pub fn cycle(steps: &[i64]) -> Plan {
        Plan { steps: steps.to_vec(), cyc: true, ..Plan::default() }
    }
    pub fn once(steps: &[i64]) -> Plan {
        Plan { steps: steps.to_vec(), ..Plan::default() }
    }
    pub fn failing(mut self, off: usize, kind: usize) -> Plan {
        self.fail = Some((off, kind));
        self
    }
    pub fn flushing(mut self, kind: usize) -> Plan {
        self.flush = Some(kind);
        self
    }
    pub fn zero(mut self, off: usize) -> Plan {
        self.zero_at = Some(off);
        self
    }
    fn step(&mut self, asy: bool) -> Option<i64> {
        loop {
            if self.at >= self.steps.len() {
                if !self.cyc || self.steps.is_empty() {
                    return None;
                }
                self.at = 0;
            }
            let s = self.steps[self.at];
            self.at += 1;
            // a blocking transport is always ready; an async one is never interrupted
            if (s == 0 && !asy) || (s == -1 && asy) {
                if self.cyc && self.steps.iter().all(|x| *x == s) {
                    return None;
                }
                continue;
            }
            return Some(s);
        }
    }
    /// What the next call at offset `pos` does when `want` bytes are offered or asked for.
    pub fn act(&mut self, pos: usize, want: usize, asy: bool) -> Act {
        let mut n = want;
        match self.step(asy) {
            Some(0) => return Act::Pend,
            Some(-1) => return Act::Fail(ErrorKind::Interrupted),
            Some(-2) => return Act::Zero,
            Some(k) => n = n.min(k as usize),
            None => {}
        }
        if let Some((off, kind)) = self.fail {
            if pos >= off {
                return Act::Fail(KINDS[kind]);
            }
            n = n.min(off - pos);
        }
        if let Some(off) = self.zero_at {
            if pos >= off {
                return Act::Zero;
            }
            n = n.min(off - pos);
        }
        Act::Move(n)
    }
}

pub struct Src<'a> {
    pub data: &'a [u8],
    pub pos: &'a AtomicUsize,
    pub plan: Plan,
    pub calls: usize,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u8], pos: &'a AtomicUsize, plan: Plan) -> Self {
        Src { data, pos, plan, calls: 0 }
    }
    fn go(&mut self, buf: &mut [u8], asy: bool) -> Poll<io::Result<usize>> {
        self.calls += 1;
        if self.calls > 50_000_000 {
            panic!("transport called without end");
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let pos = self.pos.load(Relaxed);
        match self.plan.act(pos, buf.len(), asy) {
            Act::Pend => Poll::Pending,
            Act::Fail(k) => Poll::Ready(Err(io::Error::new(k, "planned failure"))),
            Act::Zero => Poll::Ready(Ok(0)),
            Act::Move(n) => {
                let n = n.min(self.data.len().saturating_sub(pos));
                if n == 0 {
                    return Poll::Ready(Ok(0));
                }
                buf[..n].copy_from_slice(&self.data[pos..pos + n]);
                self.pos.store(pos + n, Relaxed);
                Poll::Ready(Ok(n))
            }
        }
    }
}
impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.go(buf, false) {
            Poll::Ready(r) => r,
            Poll::Pending => unreachable!(),
        }
    }
}
impl Seek for Src<'_> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = match to {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::Current(n) => self.pos.load(Relaxed) as i64 + n,
            SeekFrom::End(n) => self.data.len() as i64 + n,
        };
        if p < 0 {
            return Err(io::Error::new(ErrorKind::InvalidInput, "before the start"));
        }
        self.pos.store(p as usize, Relaxed);
        Ok(p as u64)
    }
}
impl AsyncRead for Src<'_> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let r = self.go(buf, true);
        if r.is_pending() {
            cx.waker().wake_by_ref();
        }
        r
    }
}

#[derive(Clone)]
pub struct Sink {
    pub out: Arc<Mutex<Vec<u8>>>,
    pub plan: Plan,
    pub flushed: Arc<AtomicUsize>,
}

impl Sink {
    pub fn new(plan: Plan) -> Sink {
        Sink { out: Arc::new(Mutex::new(vec![])), plan, flushed: Arc::new(AtomicUsize::new(0)) }
    }
    fn go(&mut self, buf: &[u8], asy: bool) -> Poll<io::Result<usize>> {
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let mut out = self.out.lock().unwrap();
        match self.plan.act(out.len(), buf.len(), asy) {
            Act::Pend => Poll::Pending,
            Act::Fail(k) => Poll::Ready(Err(io::Error::new(k, "planned failure"))),
            Act::Zero => Poll::Ready(Ok(0)),
            Act::Move(n) => {
                out.extend_from_slice(&buf[..n]);
                Poll::Ready(Ok(n))
            }
        }
    }
    fn flushing(&self) -> io::Result<()> {
        self.plan.flush.map_or(Ok(()), |k| Err(io::Error::new(KINDS[k], "planned failure")))
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.out.lock().unwrap().clone()
    }
    pub fn len(&self) -> usize {
        self.out.lock().unwrap().len()
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.go(buf, false) {
            Poll::Ready(r) => r,
            Poll::Pending => unreachable!(),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed.fetch_add(1, Relaxed);
        self.flushing()
    }
}
impl AsyncWrite for Sink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let r = self.go(buf, true);
        if r.is_pending() {
            cx.waker().wake_by_ref();
        }
        r
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.flushed.fetch_add(1, Relaxed);
        Poll::Ready(self.flushing())
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

fn raw() -> RawWaker {
    fn clone(_: *const ()) -> RawWaker {
        raw()
    }
    fn noop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);
    RawWaker::new(std::ptr::null(), &VT)
}

/// Poll to completion; returns the number of polls too.
pub fn block_on<F: Future>(f: F) -> (F::Output, usize) {
    let mut f = Box::pin(f);
    let w = unsafe { Waker::from_raw(raw()) };
    let mut cx = Context::from_waker(&w);
    let mut polls = 0;
    loop {
        polls += 1;
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return (r, polls);
        }
        if polls > 50_000_000 {
            panic!("future polled without end");
        }
    }
}
