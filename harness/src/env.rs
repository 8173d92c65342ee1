//! The transport and the scheduler: every answer a reader or writer can get from outside is decided here.
use futures::io::{AsyncRead, AsyncWrite};
use std::future::Future;
use std::io::{self, ErrorKind, Read, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

/// A departure from the default transport answer at one call.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dev {
    /// deliver / accept one byte only
    Short,
    /// deliver / accept all but one of the bytes asked for (at least one)
    AllButOne,
    /// deliver / accept half
    Half,
    /// ErrorKind::Interrupted (synchronous transports only)
    Interrupted,
    /// Poll::Pending, waking the task (asynchronous transports only)
    Pending,
    /// Poll::Pending twice in a row
    PendingTwice,
    /// fail with this kind
    Fail(ErrorKind),
    /// accept zero bytes (writes only)
    Zero,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Mode {
    #[default]
    Normal,
    /// every call moves one byte
    OneByte,
    /// every call is interrupted / pending first, then moves everything
    Bumpy,
    /// both
    BumpyOneByte,
    /// every call is interrupted / pending so many times before it moves everything
    Stubborn(usize),
    /// at most this many bytes per call
    Chunk(usize),
    /// a transport of limited capacity: accepts `cap` bytes in total, then zero
    Capacity(usize),
    /// flushing fails with this kind
    FlushFails(ErrorKind),
    /// flushing is pending so many times (asynchronous) or interrupted (synchronous: a plain failure)
    FlushPending(usize),
    /// only the first bytes are kept, the rest is only counted; at most so many bytes per call
    Counting(usize, usize),
}

impl Mode {
    pub fn key(self) -> usize {
        match self {
            Mode::Normal => 0,
            Mode::OneByte => 1,
            Mode::Bumpy => 2,
            Mode::BumpyOneByte => 3,
            Mode::Chunk(n) => 4 + 3 * n,
            Mode::Capacity(n) => 5 + 3 * n,
            Mode::Stubborn(n) => 6 + 3 * n,
            Mode::FlushFails(_) => usize::MAX,
            Mode::FlushPending(n) => usize::MAX - 1 - n,
            Mode::Counting(n, k) => usize::MAX / 2 - n - k % 1000,
        }
    }
}
impl Dev {
    pub fn key(self) -> u8 {
        match self {
            Dev::Short => 0,
            Dev::AllButOne => 1,
            Dev::Interrupted => 2,
            Dev::Pending => 3,
            Dev::PendingTwice => 4,
            Dev::Zero => 5,
            Dev::Fail(_) => 6,
            Dev::Half => 7,
        }
    }
}
pub const MAX_CALLS: usize = 4_000_000;

/// Called before a transport call is answered: at one call, or (usize::MAX) at every one.
pub struct Hook<'a> {
    pub at: usize,
    pub f: Box<dyn FnMut() + Send + 'a>,
}
#[derive(Default)]
pub struct Env<'a> {
    pub hook: Option<Hook<'a>>,
    pub inp: &'a [u8],
    pub pos: usize,
    pub out: Vec<u8>,
    /// transport calls made so far
    pub calls: usize,
    pub devs: &'a [(usize, Dev)],
    pub mode: Mode,
    /// calls that asked for a byte when none was left
    pub eof_hits: usize,
    pub flushes: usize,
    /// bytes delivered when the last flush came
    pub flushed_len: usize,
    /// index of the call that failed, if any
    pub failed_at: Option<usize>,
    pub calls_after_failure: usize,
    /// bytes delivered and not kept
    pub dropped: usize,
    bump: bool,
    refused: usize,
    pend_again: bool,
    /// deviations that actually took effect
    pub applied: usize,
}

impl<'a> Env<'a> {
    pub fn reader(inp: &'a [u8]) -> Self {
        Env { inp, ..Default::default() }
    }
    pub fn writer() -> Self {
        Env::default()
    }
    fn tick(&mut self) -> usize {
        let c = self.calls;
        self.calls += 1;
        if let Some(h) = &mut self.hook {
            if h.at == c || h.at == usize::MAX {
                (h.f)();
            }
        }
        if self.failed_at.is_some() {
            self.calls_after_failure += 1;
        }
        if self.calls > MAX_CALLS + 8 * (self.inp.len() + self.out.len()) || self.eof_hits > 100_000 || self.calls_after_failure > 100_000 {
            panic!("LIVELOCK: the code under test keeps calling the transport");
        }
        c
    }
    /// Answer for a call that would move `n` bytes (n > 0). Ok(m): move m bytes.
    fn answer(&mut self, n: usize, is_async: bool, is_write: bool) -> Result<usize, Answer> {
        if self.pend_again {
            self.pend_again = false;
            return Err(Answer::Pending);
        }
        let c = self.tick();
        let dev = self.devs.iter().find(|d| d.0 == c).map(|d| d.1);
        if let Some(d) = dev {
            match d {
                Dev::Short if n > 1 => {
                    self.applied += 1;
                    return Ok(1);
                }
                Dev::AllButOne if n > 2 => {
                    self.applied += 1;
                    return Ok(n - 1);
                }
                Dev::Half if n > 3 => {
                    self.applied += 1;
                    return Ok(n / 2);
                }
                Dev::Interrupted if !is_async => {
                    self.applied += 1;
                    return Err(Answer::Fail(ErrorKind::Interrupted));
                }
                Dev::Pending if is_async => {
                    self.applied += 1;
                    return Err(Answer::Pending);
                }
                Dev::PendingTwice if is_async => {
                    self.applied += 1;
                    self.pend_again = true;
                    return Err(Answer::Pending);
                }
                Dev::Fail(k) => {
                    self.applied += 1;
                    self.failed_at = Some(c);
                    return Err(Answer::Fail(k));
                }
                Dev::Zero if is_write => {
                    self.applied += 1;
                    self.failed_at = Some(c);
                    return Ok(0);
                }
                _ => {}
            }
        }
        match self.mode {
            Mode::Normal | Mode::FlushFails(_) | Mode::FlushPending(_) => Ok(n),
            Mode::OneByte => Ok(1),
            Mode::Chunk(k) | Mode::Counting(_, k) => Ok(n.min(k)),
            Mode::Bumpy | Mode::BumpyOneByte => {
                self.bump = !self.bump;
                if self.bump {
                    return Err(if is_async { Answer::Pending } else { Answer::Fail(ErrorKind::Interrupted) });
                }
                Ok(if self.mode == Mode::Bumpy { n } else { 1 })
            }
            Mode::Stubborn(k) => {
                if self.refused < k {
                    self.refused += 1;
                    return Err(if is_async { Answer::Pending } else { Answer::Fail(ErrorKind::Interrupted) });
                }
                self.refused = 0;
                Ok(n)
            }
            Mode::Capacity(cap) => {
                let room = cap.saturating_sub(self.out.len());
                if room == 0 {
                    self.failed_at = Some(c);
                }
                Ok(n.min(room))
            }
        }
    }
    fn do_read(&mut self, buf: &mut [u8], is_async: bool) -> Result<usize, Answer> {
        if buf.is_empty() {
            return Ok(0);
        }
        let left = self.inp.len() - self.pos;
        let want = buf.len().min(left);
        let n = self.answer(want.max(1), is_async, false)?;
        if left == 0 {
            self.eof_hits += 1;
            return Ok(0);
        }
        let n = n.min(want);
        buf[..n].copy_from_slice(&self.inp[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
    fn do_write(&mut self, buf: &[u8], is_async: bool) -> Result<usize, Answer> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.answer(buf.len(), is_async, true)?.min(buf.len());
        let keep = match self.mode {
            Mode::Counting(keep, _) => keep.saturating_sub(self.out.len()).min(n),
            _ => n,
        };
        self.out.extend_from_slice(&buf[..keep]);
        self.dropped += n - keep;
        Ok(n)
    }
}

enum Answer {
    Pending,
    Fail(ErrorKind),
}
/// An I/O failure of a kind, in each of the forms one can have: with a message, bare, from the operating system,
/// around another failure.
pub fn ioerr(k: ErrorKind, form: usize) -> io::Error {
    match form % 4 {
        0 => io::Error::new(k, "injected"),
        1 => io::Error::from(k),
        2 => match (1..200).map(io::Error::from_raw_os_error).find(|e| e.kind() == k) {
            Some(e) => e,
            None => io::Error::new(k, "end of file"),
        },
        _ => io::Error::new(k, io::Error::from(if k == ErrorKind::TimedOut { ErrorKind::UnexpectedEof } else { ErrorKind::TimedOut })),
    }
}

impl Read for Env<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.do_read(buf, false) {
            Ok(n) => Ok(n),
            Err(Answer::Fail(k)) => Err(ioerr(k, self.calls)),
            Err(Answer::Pending) => unreachable!("harness: pending answer to a synchronous read"),
        }
    }
}
impl io::Seek for Env<'_> {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> {
        let n = match to {
            io::SeekFrom::Start(n) => n.min(i64::MAX as u64) as i64,
            io::SeekFrom::Current(n) => (self.pos as i64).saturating_add(n),
            io::SeekFrom::End(n) => (self.inp.len() as i64).saturating_add(n),
        };
        if n < 0 || n > self.inp.len() as i64 {
            return Err(io::Error::new(ErrorKind::InvalidInput, "outside"));
        }
        self.pos = n as usize;
        Ok(n as u64)
    }
}
impl Write for Env<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.do_write(buf, false) {
            Ok(n) => Ok(n),
            Err(Answer::Fail(k)) => Err(ioerr(k, self.calls)),
            Err(Answer::Pending) => unreachable!("harness: pending answer to a synchronous write"),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if let Mode::FlushFails(k) = self.mode {
            return Err(ioerr(k, self.calls));
        }
        self.flushed_len = self.out.len();
        Ok(())
    }
}
impl AsyncRead for Env<'_> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let e = self.get_mut();
        match e.do_read(buf, true) {
            Ok(n) => Poll::Ready(Ok(n)),
            Err(Answer::Fail(k)) => Poll::Ready(Err(ioerr(k, e.calls))),
            Err(Answer::Pending) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
}
impl AsyncWrite for Env<'_> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let e = self.get_mut();
        match e.do_write(buf, true) {
            Ok(n) => Poll::Ready(Ok(n)),
            Err(Answer::Fail(k)) => Poll::Ready(Err(ioerr(k, e.calls))),
            Err(Answer::Pending) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let e = self.get_mut();
        if let Mode::FlushPending(n) = e.mode {
            if e.refused < n {
                e.refused += 1;
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        e.flushes += 1;
        if let Mode::FlushFails(k) = e.mode {
            return Poll::Ready(Err(ioerr(k, e.calls)));
        }
        e.flushed_len = e.out.len();
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::Relaxed);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::Relaxed);
    }
}
thread_local! {
    static WAKER: (Arc<Flag>, Waker) = {
        let f = Arc::new(Flag(AtomicBool::new(false)));
        (f.clone(), Waker::from(f))
    };
}

/// One step of a task: up to where its transport lets it wait.
pub fn step<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    WAKER.with(|(flag, waker)| {
        flag.0.store(false, Ordering::Relaxed);
        let r = f.poll(&mut Context::from_waker(waker));
        if r.is_pending() && !flag.0.load(Ordering::Relaxed) {
            panic!("HANG: the future is pending but nothing will ever wake it");
        }
        r
    })
}
/// Single-task executor. A future that is pending without having been woken can never make progress
/// (the only event source is the transport above): that is a hang.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    WAKER.with(|(flag, waker)| {
        let mut cx = Context::from_waker(waker);
        loop {
            flag.0.store(false, Ordering::Relaxed);
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(v) => return v,
                Poll::Pending => {
                    if !flag.0.load(Ordering::Relaxed) {
                        panic!("HANG: the future is pending but nothing will ever wake it");
                    }
                }
            }
        }
    })
}
