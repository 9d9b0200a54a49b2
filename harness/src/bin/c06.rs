#[path = "../h/mod.rs"]
#[macro_use]
mod h;
#[path = "../h/io.rs"]
mod io;
use combine::parser::range::take;
use combine::stream::buf_reader::BufReader;
use combine::stream::decoder::Error;
use combine::stream::Decoder;
use combine::{decode, decode_futures_03, decode_tokio, decode_tokio_02, decode_tokio_03, Parser};
use h::gen::*;
use h::runner::*;
use io::*;
use std::io::{BufRead, ErrorKind, Read};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Nop;
impl Wake for Nop {
    fn wake(self: Arc<Self>) {}
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Api {
    Std,
    Tokio02,
    Tokio03,
    Tokio1,
    Futures,
}
use Api::*;

#[derive(Clone, Debug)]
enum Op {
    /// read into a buffer of this size of which so much is filled already
    Read(usize, usize),
    /// read_exact, read_to_end, read_until of the std traits
    Exact(usize),
    ToEnd,
    Until(u8),
    Vectored(usize, usize),
    /// tokio 0.2's poll_read_buf into a vector
    ReadBuf,
    Fill,
    /// fill, then take this many of what it returned
    FillConsume(usize),
    Message(usize),
    Write(usize),
    FlushShutdown,
    GetMut,
    PinMut,
}

enum Ret {
    Bytes(Vec<u8>),
    Err(ErrorKind),
    Pend,
}

fn poll_ret<T>(p: Poll<std::io::Result<T>>, f: impl FnOnce(T) -> Vec<u8>) -> Ret {
    match p {
        Poll::Ready(Ok(v)) => Ret::Bytes(f(v)),
        Poll::Ready(Err(e)) => Ret::Err(e.kind()),
        Poll::Pending => Ret::Pend,
    }
}

macro_rules! readbuf {
    ($t: ident, $r: expr, $cx: expr, $size: expr, $fill: expr) => {{
        let mut space = vec![0xEEu8; $size + $fill];
        let mut rb = $t::io::ReadBuf::new(&mut space);
        let prefix: Vec<u8> = (0..$fill).map(|i| i as u8 ^ 0x5A).collect();
        rb.put_slice(&prefix);
        let p = $t::io::AsyncRead::poll_read(Pin::new($r), $cx, &mut rb);
        if rb.filled().len() < $fill || rb.filled()[..$fill] != prefix[..] {
            return Err("poll_read changed the part of the buffer that was filled already".into());
        }
        let got = rb.filled()[$fill..].to_vec();
        if !matches!(p, Poll::Ready(Ok(()))) && !got.is_empty() {
            return Err("poll_read filled the buffer but isn't done".into());
        }
        poll_ret(p, |_| got)
    }};
}

fn gen_op(g: &mut Gen, len: usize) -> Op {
    let size = |g: &mut Gen| match g.below(6) {
        0 => 0,
        1 => 10_000,
        2 => g.below(len as u32 + 2) as usize,
        _ => 1 + g.below(8) as usize,
    };
    match g.weighted(&[8, 1, 1, 1, 1, 2, 3, 4, 5, 1, 1, 1, 1]) {
        0 => {
            let n = size(g);
            Op::Read(n, if g.bool() { g.below(9) as usize } else { 0 })
        }
        1 => Op::Exact(size(g)),
        2 => Op::ToEnd,
        3 => Op::Until(g.below(4) as u8),
        4 => Op::Vectored(size(g), size(g)),
        5 => Op::ReadBuf,
        6 => Op::Fill,
        7 => Op::FillConsume(size(g)),
        8 => Op::Message(size(g)),
        9 => Op::Write(g.below(9) as usize),
        10 => Op::FlushShutdown,
        11 => Op::GetMut,
        _ => Op::PinMut,
    }
}

fn run(g: &mut Gen, data: Vec<u8>, script: Vec<Ev>, cap: Option<usize>, ops: Vec<(Api, Op)>) -> Res {
    let len = data.len();
    let rd = Rd::new(data.clone(), script);
    let mut r = match cap {
        Some(c) => BufReader::with_capacity(c, rd.clone()),
        None => BufReader::new(rd.clone()),
    };
    let waker = Waker::from(Arc::new(Nop));
    let mut cx = Context::from_waker(&waker);
    let cx = &mut cx;
    let mut at = 0; // bytes the caller has seen
    let mut written: Vec<u8> = vec![];
    let mut partial = 0;
    for (i, (api, op)) in ops.iter().enumerate() {
        let start = at;
        let ctx = move |m: String| format!("operation {} ({:?} {:?}) at byte {}: {}", i, api, op, start, m);
        let before_errors = rd.0.borrow().errors + rd.0.borrow().pends;
        let had = r.buffer().len();
        let eof = |at: usize| at == len;
        rd.0.borrow_mut().waker = None;
        // what was handed out
        let mut want_nonempty = true;
        let mut short_is_eof = None;
        let ret = match (op, api) {
            (Op::Read(n, pre), Std | Futures) => {
                let _ = pre;
                want_nonempty = *n > 0;
                let mut b = vec![0xEEu8; *n];
                match r.read(&mut b) {
                    Ok(k) if k > *n => return Err(ctx(format!("read {} of {}", k, n))),
                    Ok(k) => {
                        if b[k..].iter().any(|x| *x != 0xEE) && k < *n {
                            // contents behind what was read are unspecified
                        }
                        b.truncate(k);
                        Ret::Bytes(b)
                    }
                    Err(e) => Ret::Err(e.kind()),
                }
            }
            (Op::Read(n, _), Tokio02) => {
                want_nonempty = *n > 0;
                let mut b = vec![0xEEu8; *n];
                let p = tokio_02::io::AsyncRead::poll_read(Pin::new(&mut r), cx, &mut b);
                poll_ret(p, |k| b[..k].to_vec())
            }
            (Op::Read(n, pre), Tokio03) => {
                want_nonempty = *n > 0;
                readbuf!(tokio_03, &mut r, cx, *n, *pre)
            }
            (Op::Read(n, pre), Tokio1) => {
                want_nonempty = *n > 0;
                readbuf!(tokio_1, &mut r, cx, *n, *pre)
            }
            (Op::Exact(n), _) => {
                // exact reads lose what was read when they fail; only done when they can succeed
                let enough = len - at >= *n && {
                    let c = rd.0.borrow();
                    c.script[c.at.min(c.script.len())..].iter().all(|e| !matches!(e, Ev::Err(k) if *k != ErrorKind::Interrupted) && *e != Ev::Pend)
                };
                if !enough {
                    continue;
                }
                want_nonempty = *n > 0;
                let mut b = vec![0; *n];
                match r.read_exact(&mut b) {
                    Ok(()) => Ret::Bytes(b),
                    Err(e) => return Err(ctx(format!("read_exact failed: {}", e))),
                }
            }
            (Op::ToEnd, _) => {
                let mut b = vec![];
                let res = r.read_to_end(&mut b);
                want_nonempty = false;
                match res {
                    Ok(k) if k == b.len() => {
                        short_is_eof = Some(usize::MAX);
                        Ret::Bytes(b)
                    }
                    Ok(k) => return Err(ctx(format!("read_to_end returned {} for {}", k, b.len()))),
                    // what arrived before the error is in the vector
                    Err(_) => {
                        partial += 1;
                        Ret::Bytes(b)
                    }
                }
            }
            (Op::Until(x), _) => {
                let mut b = vec![];
                let res = r.read_until(*x, &mut b);
                want_nonempty = false;
                if res.is_ok() {
                    let end = data[at..].iter().position(|d| d == x).map_or(len, |p| at + p + 1);
                    if b[..] != data[at..end] {
                        return Err(ctx(format!("read_until({}) returned {:?} instead of {:?}", x, b, &data[at..end])));
                    }
                } else {
                    partial += 1;
                }
                Ret::Bytes(b)
            }
            (Op::Vectored(n, m), _) => {
                want_nonempty = n + m > 0;
                let (mut a, mut b) = (vec![0; *n], vec![0; *m]);
                let res = r.read_vectored(&mut [std::io::IoSliceMut::new(&mut a), std::io::IoSliceMut::new(&mut b)]);
                match res {
                    Ok(k) => {
                        a.extend(b);
                        a.truncate(k);
                        Ret::Bytes(a)
                    }
                    Err(e) => Ret::Err(e.kind()),
                }
            }
            (Op::ReadBuf, _) => {
                let mut v = vec![7u8, 8, 9];
                let p = tokio_02::io::AsyncRead::poll_read_buf(Pin::new(&mut r), cx, &mut v);
                if v[..3] != [7, 8, 9] {
                    return Err(ctx("poll_read_buf changed the start of the vector".into()));
                }
                poll_ret(p, |k| {
                    assert!(v.len() == 3 + k, "poll_read_buf returned {} for {} bytes", k, v.len() - 3);
                    v[3..].to_vec()
                })
            }
            (Op::Fill, _) | (Op::FillConsume(_), _) => {
                let ret = match api {
                    Std | Futures => match r.fill_buf() {
                        Ok(b) => Ret::Bytes(b.to_vec()),
                        Err(e) => Ret::Err(e.kind()),
                    },
                    Tokio02 => poll_ret(tokio_02::io::AsyncBufRead::poll_fill_buf(Pin::new(&mut r), cx), |b| b.to_vec()),
                    Tokio03 => poll_ret(tokio_03::io::AsyncBufRead::poll_fill_buf(Pin::new(&mut r), cx), |b| b.to_vec()),
                    Tokio1 => poll_ret(tokio_1::io::AsyncBufRead::poll_fill_buf(Pin::new(&mut r), cx), |b| b.to_vec()),
                };
                match ret {
                    Ret::Bytes(b) => {
                        if b != r.buffer() {
                            return Err(ctx(format!("fill_buf returned {:?} but the buffer is {:?}", b, r.buffer())));
                        }
                        if b.is_empty() && !eof(at) {
                            return Err(ctx("fill_buf reports the end too early".into()));
                        }
                        if b.len() > len - at || b[..] != data[at..at + b.len()] {
                            return Err(ctx(format!("fill_buf shows {:?}, not {:?}", b, &data[at..])));
                        }
                        let k = match op {
                            Op::FillConsume(k) => (*k).min(b.len()),
                            _ => 0,
                        };
                        match api {
                            Std | Futures => r.consume(k),
                            Tokio02 => tokio_02::io::AsyncBufRead::consume(Pin::new(&mut r), k),
                            Tokio03 => tokio_03::io::AsyncBufRead::consume(Pin::new(&mut r), k),
                            Tokio1 => tokio_1::io::AsyncBufRead::consume(Pin::new(&mut r), k),
                        }
                        want_nonempty = false;
                        Ret::Bytes(b[..k].to_vec())
                    }
                    r => r,
                }
            }
            (Op::Message(n), _) => {
                // a new decoder each time: it keeps nothing but the state of `take`
                macro_rules! msg {
                    ($mac: ident) => {{
                        let mut d = Decoder::<_, combine::stream::PointerOffset<[u8]>, _>::new_bufferless();
                        let x: Result<Vec<u8>, Error<combine::error::UnexpectedParse, _>> =
                            $mac!(d, r, take(*n).map(|b: &[u8]| b.to_vec()));
                        match x {
                            Ok(b) => Ok(Some(b)),
                            Err(Error::Parse(_)) => Ok(None),
                            Err(Error::Io { error, .. }) => Err(error.kind()),
                        }
                    }};
                    (async $mac: ident) => {{
                        // dropped when it isn't ready
                        let mut f = Box::pin(async { Ok::<_, ErrorKind>(msg!($mac)?) });
                        match std::future::Future::poll(f.as_mut(), cx) {
                            Poll::Ready(v) => v,
                            Poll::Pending => Err(ErrorKind::WouldBlock),
                        }
                    }};
                }
                let res = match api {
                    Std => (|| Ok::<_, ErrorKind>(msg!(decode)?))(),
                    Tokio02 => msg!(async decode_tokio_02),
                    Tokio03 => msg!(async decode_tokio_03),
                    Tokio1 => msg!(async decode_tokio),
                    Futures => msg!(async decode_futures_03),
                };
                want_nonempty = false;
                match res {
                    Ok(Some(b)) => {
                        if b.len() != *n {
                            return Err(ctx(format!("take({}) returned {:?}", n, b)));
                        }
                        Ret::Bytes(b)
                    }
                    Ok(None) => {
                        if len - at >= *n || rd.0.borrow().pos < len {
                            return Err(ctx("the message was refused although it is there".into()));
                        }
                        Ret::Bytes(vec![])
                    }
                    Err(k) => {
                        if before_errors == rd.0.borrow().errors + rd.0.borrow().pends {
                            return Err(ctx(format!("error {:?} out of nowhere", k)));
                        }
                        partial += 1;
                        Ret::Bytes(vec![])
                    }
                }
            }
            (Op::Write(n), _) => {
                let b: Vec<u8> = (0..*n).map(|_| g.below(256) as u8).collect();
                let p = match api {
                    Tokio02 => tokio_02::io::AsyncWrite::poll_write(Pin::new(&mut r), cx, &b),
                    Tokio03 => tokio_03::io::AsyncWrite::poll_write(Pin::new(&mut r), cx, &b),
                    _ => tokio_1::io::AsyncWrite::poll_write(Pin::new(&mut r), cx, &b),
                };
                if let Poll::Ready(Ok(k)) = p {
                    written.extend(&b[..k]);
                }
                if rd.0.borrow().written != written {
                    return Err(ctx(format!("wrote {:?} but the writer got {:?}", written, rd.0.borrow().written)));
                }
                want_nonempty = false;
                Ret::Bytes(vec![])
            }
            (Op::FlushShutdown, _) => {
                let (f0, s0) = (rd.0.borrow().flushed, rd.0.borrow().shut);
                match api {
                    Tokio02 => {
                        let _ = tokio_02::io::AsyncWrite::poll_flush(Pin::new(&mut r), cx);
                        let _ = tokio_02::io::AsyncWrite::poll_shutdown(Pin::new(&mut r), cx);
                    }
                    Tokio03 => {
                        let _ = tokio_03::io::AsyncWrite::poll_flush(Pin::new(&mut r), cx);
                        let _ = tokio_03::io::AsyncWrite::poll_shutdown(Pin::new(&mut r), cx);
                    }
                    _ => {
                        let _ = tokio_1::io::AsyncWrite::poll_flush(Pin::new(&mut r), cx);
                        let _ = tokio_1::io::AsyncWrite::poll_shutdown(Pin::new(&mut r), cx);
                    }
                }
                if (rd.0.borrow().flushed, rd.0.borrow().shut) != (f0 + 1, s0 + 1) {
                    return Err(ctx("flush or shutdown wasn't passed on".into()));
                }
                want_nonempty = false;
                Ret::Bytes(vec![])
            }
            (Op::GetMut, _) | (Op::PinMut, _) => {
                let same = match op {
                    Op::GetMut => std::rc::Rc::ptr_eq(&r.get_mut().0, &rd.0) && std::rc::Rc::ptr_eq(&r.get_ref().0, &rd.0),
                    _ => std::rc::Rc::ptr_eq(&Pin::new(&mut r).get_pin_mut().0, &rd.0),
                };
                if !same {
                    return Err(ctx("another reader".into()));
                }
                want_nonempty = false;
                Ret::Bytes(vec![])
            }
        };
        g.checks += 1;
        let faults = rd.0.borrow().errors + rd.0.borrow().pends;
        match ret {
            Ret::Bytes(b) => {
                if b.len() > len - at || b[..] != data[at..at + b.len()] {
                    return Err(ctx(format!("handed out {:?}, not {:?}", b, &data[at..len.min(at + b.len())])));
                }
                if b.is_empty() && want_nonempty && !eof(at) {
                    return Err(ctx("reports the end of the source too early".into()));
                }
                at += b.len();
                if short_is_eof.is_some() && at != len {
                    return Err(ctx("read_to_end stopped before the end".into()));
                }
                if !b.is_empty() {
                    g.label(match api {
                        Std => "std",
                        Tokio02 => "tokio02",
                        Tokio03 => "tokio03",
                        Tokio1 => "tokio1",
                        Futures => "futures",
                    });
                }
            }
            Ret::Err(k) => {
                if faults == before_errors {
                    return Err(ctx(format!("error {:?} out of nowhere", k)));
                }
                if had > 0 {
                    return Err(ctx(format!("error {:?} although {} bytes are buffered", k, had)));
                }
                g.label("error");
            }
            Ret::Pend => {
                if rd.0.borrow().waker.is_none() {
                    return Err(ctx("not ready, but nothing will wake it".into()));
                }
                if had > 0 {
                    return Err(ctx(format!("not ready although {} bytes are buffered", had)));
                }
                g.label("pending");
            }
        }
        // nothing lost or duplicated: seen + buffered + unread is the source
        let c = rd.0.borrow();
        if at + r.buffer().len() != c.pos || r.buffer() != &data[at..c.pos] {
            return Err(format!(
                "operation {} ({:?} {:?}): {} bytes seen, {} read from the source, but the buffer holds {:?} instead of {:?}",
                i, api, op, at, c.pos, r.buffer(), &data[at.min(c.pos)..c.pos]
            ));
        }
    }
    if at > 0 && at < len && ops.len() > 2 {
        g.label("stopped_within");
    }
    if partial > 0 {
        g.label("fault_within_operation");
    }
    if !std::rc::Rc::ptr_eq(&r.into_inner().0, &rd.0) {
        return Err("into_inner returned another reader".into());
    }
    Ok(())
}

fn gen_script(g: &mut Gen, len: usize, big: bool) -> Vec<Ev> {
    let n = g.below(8) as usize + g.small(0, 30);
    (0..n)
        .map(|_| match g.weighted(&[8, 1, 1]) {
            0 => Ev::Data(match g.below(4) {
                0 => 1,
                1 if big => 1 + g.below(len as u32 + 1) as usize,
                2 => 1 + g.below(16) as usize,
                _ => 1 + g.below(4) as usize,
            }),
            1 => Ev::Pend,
            _ => Ev::Err(*g.pick(&[ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::Other, ErrorKind::TimedOut])),
        })
        .collect()
}

fn case(g: &mut Gen, len: usize, big: bool) -> Res {
    let seed = g.below(251) as usize;
    // every byte tells where it is
    let data: Vec<u8> = (0..len).map(|i| ((i + seed) % 251) as u8 ^ (i >> 8) as u8).collect();
    let script = gen_script(g, len, big);
    let cap = *g.pick(&[Some(0), Some(1), Some(2), Some(5), Some(16), Some(64), Some(300), None]);
    let one = if g.chance(1, 2) { Some(*g.pick(&[Std, Tokio02, Tokio03, Tokio1, Futures])) } else { None };
    let n = 2 + g.small(0, 20) + g.below(6) as usize;
    let ops: Vec<(Api, Op)> = (0..n)
        .map(|_| {
            let api = one.unwrap_or_else(|| *g.pick(&[Std, Tokio02, Tokio03, Tokio1, Futures]));
            (api, gen_op(g, len))
        })
        .collect();
    g.describe(|| format!("{} bytes, capacity {:?}, source {:?}: {:?}", len, cap, script, ops));
    if n > 2 && len > 2 && !script.is_empty() {
        g.nontrivial(hash_str(&format!("{}{:?}{:?}{:?}", len, cap, script, ops)));
    }
    run(g, data, script, cap, ops)
}
fn small(g: &mut Gen) -> Res {
    let n = g.below(60) as usize;
    case(g, n, false)
}
fn large(g: &mut Gen) -> Res {
    let n = 5000 + g.below(25_000) as usize;
    case(g, n, true)
}

fn main() {
    h::runner::main(&Property {
        id: "C06",
        rule: "more than two operations on more than two bytes from a source with short reads, errors or pauses; distinct by the whole history",
        assumptions: &[
            "up to 25 operations per history, sources of up to 60 bytes (30000 in the large suite) whose end is permanent",
            "the source itself is only read through the buffered reader",
        ],
        suites: &[
            Suite { name: "small", quick: 4_000_000, thorough: 80_000_000, f: small },
            Suite { name: "large", quick: 100_000, thorough: 2_000_000, f: large },
        ],
        known: &[],
    })
}
