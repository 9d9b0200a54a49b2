//! A reader that follows a script, under every reader trait, and a hand-driven executor.
use std::cell::RefCell;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    /// hand out up to this many bytes
    Data(usize),
    /// not ready
    Pend,
    Err(io::ErrorKind),
}

#[derive(Default)]
pub struct Core {
    pub data: Vec<u8>,
    pub pos: usize,
    pub script: Vec<Ev>,
    pub at: usize,
    pub waker: Option<Waker>,
    pub eofs: usize,
    /// the errors handed out
    pub errors: usize,
    pub pends: usize,
    /// bytes written to it
    pub written: Vec<u8>,
    pub flushed: usize,
    pub shut: usize,
}

/// A handle to the reader, which the check keeps a copy of
#[derive(Clone)]
pub struct Rd(pub Rc<RefCell<Core>>);

pub enum Got {
    Bytes(usize),
    Pend,
    Err(io::Error),
}

impl Rd {
    pub fn new(data: Vec<u8>, script: Vec<Ev>) -> Rd {
        Rd(Rc::new(RefCell::new(Core { data, script, ..Core::default() })))
    }
    /// The bytes which haven't been handed out
    #[allow(dead_code)]
    pub fn unread(&self) -> Vec<u8> {
        let c = self.0.borrow();
        c.data[c.pos..].to_vec()
    }
    fn step(&self, buf: &mut [u8]) -> Got {
        let mut c = self.0.borrow_mut();
        let ev = match c.script.get(c.at) {
            Some(e) => *e,
            None => Ev::Data(usize::MAX),
        };
        c.at += 1;
        match ev {
            Ev::Data(k) => {
                let n = k.max(1).min(buf.len()).min(c.data.len() - c.pos);
                buf[..n].copy_from_slice(&c.data[c.pos..c.pos + n]);
                c.pos += n;
                if n == 0 && !buf.is_empty() {
                    c.eofs += 1;
                }
                Got::Bytes(n)
            }
            Ev::Pend => {
                c.pends += 1;
                Got::Pend
            }
            Ev::Err(k) => {
                c.errors += 1;
                Got::Err(io::Error::new(k, "scripted"))
            }
        }
    }
    fn poll(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        match self.step(buf) {
            Got::Bytes(n) => Poll::Ready(Ok(n)),
            Got::Err(e) => Poll::Ready(Err(e)),
            Got::Pend => {
                self.0.borrow_mut().waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl io::Read for Rd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.step(buf) {
            Got::Bytes(n) => Ok(n),
            Got::Pend => Err(io::ErrorKind::WouldBlock.into()),
            Got::Err(e) => Err(e),
        }
    }
}
impl futures_io::AsyncRead for Rd {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.poll(cx, buf)
    }
}
impl tokio_02::io::AsyncRead for Rd {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.poll(cx, buf)
    }
}
macro_rules! tokio_read {
    ($($t: ident)*) => { $(
        impl $t::io::AsyncRead for Rd {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut $t::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
                let n = match self.poll(cx, buf.initialize_unfilled()) {
                    Poll::Ready(Ok(n)) => n,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => return Poll::Pending,
                };
                buf.advance(n);
                Poll::Ready(Ok(()))
            }
        }
    )* };
}
tokio_read!(tokio_03 tokio_1);

impl Rd {
    fn poll_w(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        // writes follow the same script: k bytes at a time, not ready, errors
        let mut c = self.0.borrow_mut();
        let ev = c.script.get(c.at).copied().unwrap_or(Ev::Data(usize::MAX));
        c.at += 1;
        match ev {
            Ev::Data(k) => {
                let n = k.max(1).min(buf.len());
                c.written.extend_from_slice(&buf[..n]);
                Poll::Ready(Ok(n))
            }
            Ev::Pend => {
                c.waker = Some(cx.waker().clone());
                Poll::Pending
            }
            Ev::Err(k) => Poll::Ready(Err(io::Error::new(k, "scripted"))),
        }
    }
}
macro_rules! tokio_write {
    ($($t: ident)*) => { $(
        impl $t::io::AsyncWrite for Rd {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                self.poll_w(cx, buf)
            }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.0.borrow_mut().flushed += 1;
                Poll::Ready(Ok(()))
            }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.0.borrow_mut().shut += 1;
                Poll::Ready(Ok(()))
            }
        }
    )* };
}
tokio_write!(tokio_02 tokio_03 tokio_1);

pub struct Wakes(AtomicU64);
impl Wake for Wakes {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

/// Polls `f` until it is done; `pending` is called each time it isn't and tells whether to go on
/// (true) or drop the future (None is returned then). A future that waits for nothing is an error.
pub fn drive<T>(rd: &Rd, f: impl Future<Output = T>, mut pending: impl FnMut() -> bool) -> Result<Option<T>, String> {
    let wakes = Arc::new(Wakes(AtomicU64::new(0)));
    let waker = Waker::from(wakes.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        rd.0.borrow_mut().waker = None;
        let before = wakes.0.load(SeqCst);
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return Ok(Some(v)),
            Poll::Pending => {
                match rd.0.borrow_mut().waker.take() {
                    Some(w) => w.wake(),
                    None => {}
                }
                if wakes.0.load(SeqCst) == before {
                    return Err("the future isn't ready but was not registered to be woken by the reader".into());
                }
                if !pending() {
                    return Ok(None);
                }
            }
        }
    }
}
