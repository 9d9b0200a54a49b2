#[path = "../h/mod.rs"]
#[macro_use]
mod h;
#[path = "../h/io.rs"]
mod io;
use combine::error::UnexpectedParse;
use combine::parser::range as pr;
use combine::stream::buf_reader::BufReader;
use combine::stream::decoder::Error;
use combine::stream::position::{self, IndexPositioner};
use combine::stream::{Decoder, MaybePartialStream, Positioned, RangeStreamOnce, ResetStream, StreamOnce};
use combine::{decode, decode_futures_03, decode_tokio, decode_tokio_02, decode_tokio_03, Parser};
use h::ast::*;
use h::build::*;
use h::gen::*;
use h::model::*;
use h::runner::*;
use io::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::ErrorKind;

// ---- bytes seen as the characters of the grammars ----

fn byte_of(c: char) -> u8 {
    match c {
        'é' => 0x80,
        '漢' => 0xff,
        '\u{1F980}' => 0xc3,
        'É' => 0xc9,
        c => {
            assert!((c as u32) < 0x80, "HARNESS: {:?}", c);
            c as u8
        }
    }
}
fn char_of(b: u8) -> char {
    match b {
        0x80 => 'é',
        0xff => '漢',
        0xc3 => '\u{1F980}',
        0xc9 => 'É',
        b => {
            assert!(b < 0x80, "a byte {} that was never sent", b);
            b as char
        }
    }
}
fn bytes_of(s: &str) -> Vec<u8> {
    s.chars().map(byte_of).collect()
}
fn lit_bytes(s: &'static str) -> &'static [u8] {
    thread_local! { static M: RefCell<HashMap<&'static str, &'static [u8]>> = RefCell::new(HashMap::new()); }
    M.with(|m| *m.borrow_mut().entry(s).or_insert_with(|| Box::leak(bytes_of(s).into_boxed_slice())))
}

type Inner = position::Stream<MaybePartialStream<&'static [u8]>, IndexPositioner>;
/// The stream of a decoder, with the bytes as characters. The buffer is only lent for the call
/// that `stream::decode` gets, nothing that outlives it refers to the buffer.
struct BS(Inner);
impl BS {
    fn new(i: MaybePartialStream<&[u8]>, pos: usize) -> BS {
        let i = MaybePartialStream(unsafe { lend_slice(i.0) }, i.1);
        BS(position::Stream::with_positioner(i, IndexPositioner::new_with_position(pos)))
    }
}
impl StreamOnce for BS {
    type Token = char;
    type Range = &'static [u8];
    type Position = usize;
    type Error = UnexpectedParse;
    fn uncons(&mut self) -> Result<char, UnexpectedParse> {
        self.0.uncons().map(char_of)
    }
    fn is_partial(&self) -> bool {
        self.0.is_partial()
    }
}
impl Positioned for BS {
    fn position(&self) -> usize {
        self.0.position()
    }
}
impl ResetStream for BS {
    type Checkpoint = <Inner as ResetStream>::Checkpoint;
    fn checkpoint(&self) -> Self::Checkpoint {
        self.0.checkpoint()
    }
    fn reset(&mut self, c: Self::Checkpoint) -> Result<(), UnexpectedParse> {
        self.0.reset(c)
    }
}
impl RangeStreamOnce for BS {
    fn uncons_range(&mut self, size: usize) -> Result<Self::Range, UnexpectedParse> {
        self.0.uncons_range(size)
    }
    fn uncons_while<F: FnMut(char) -> bool>(&mut self, mut f: F) -> Result<Self::Range, UnexpectedParse> {
        self.0.uncons_while(|b| f(char_of(b)))
    }
    fn uncons_while1<F: FnMut(char) -> bool>(&mut self, mut f: F) -> combine::ParseResult<Self::Range, UnexpectedParse> {
        self.0.uncons_while1(|b| f(char_of(b)))
    }
    fn distance(&self, end: &Self::Checkpoint) -> usize {
        self.0.distance(end)
    }
    fn range(&self) -> Self::Range {
        self.0.range()
    }
}

fn own(s: &'static [u8]) -> Val {
    Val::S(s.iter().map(|b| char_of(*b)).collect())
}
impl Src for BS {
    fn zero_pos() -> usize {
        0
    }
    fn range_leaf(r: &'static RLeaf) -> P<Self> {
        match *r {
            RLeaf::Range(s) => b(pr::range(lit_bytes(s)).map(own)),
            RLeaf::Take(n) => b(pr::take(n).map(own)),
            RLeaf::TakeWhile(p) => b(pr::take_while(move |c| p.test(c)).map(own)),
            RLeaf::TakeWhile1(p) => b(pr::take_while1(move |c| p.test(c)).map(own)),
            RLeaf::TakeUntil(s) => b(pr::take_until_range(lit_bytes(s)).map(own)),
        }
    }
    fn recog(a: &'static A) -> P<Self> {
        b(pr::recognize(build::<Self>(a)).map(own))
    }
    fn recog_val(a: &'static A) -> P<Self> {
        b(pr::recognize_with_value(build::<Self>(a)).map(|(s, v): (&'static [u8], Val)| Val::L(vec![own(s), v])))
    }
}

// ---- the decoders ----

/// What happens in one run
struct Plan {
    /// the parser is built again for every call of `decode`
    rebuild: bool,
    /// drop the future at the n-th time it is not ready (counted down), none once empty
    drops: Vec<bool>,
    max_retries: usize,
    max_messages: usize,
}

#[derive(Debug, PartialEq, Clone)]
enum Out {
    /// a message and the number of bytes the decoder went through so far
    Msg(Val, usize),
    Fail,
}

struct Ran {
    outs: Vec<Out>,
    /// bytes in the buffer afterwards
    buffered: Vec<u8>,
    retries: usize,
    drops: usize,
}

trait Pull {
    /// one call of the macro: None if it was abandoned while it wasn't ready
    fn next(&mut self, a: &'static A, plan: &mut Plan, dropped: &mut usize) -> Result<Option<Result<Val, Error<UnexpectedParse, usize>>>, String>;
    fn position(&self) -> usize;
    fn buffered(&self) -> Vec<u8>;
}

struct Buffered<R>(Decoder<combine::parser::combinator::AnyPartialState, usize>, R, P<BS>);
struct Unbuffered<R>(Decoder<combine::parser::combinator::AnyPartialState, usize, combine::stream::buf_reader::Bufferless>, BufReader<R>, P<BS>);

macro_rules! pull {
    (sync $name: ident, $un: ident, $mac: ident) => {
        struct $name(Buffered<Rd>);
        struct $un(Unbuffered<Rd>);
        pull!(@sync $name, $mac, |x| x.0.buffer().to_vec());
        pull!(@sync $un, $mac, |x| x.1.buffer().to_vec());
    };
    (@sync $name: ident, $mac: ident, |$x: ident| $buf: expr) => {
        impl Pull for $name {
            fn next(&mut self, a: &'static A, plan: &mut Plan, _: &mut usize) -> Result<Option<Result<Val, Error<UnexpectedParse, usize>>>, String> {
                let me = &mut self.0;
                Ok(Some($mac!(me.0, me.1, { if plan.rebuild { me.2 = build::<BS>(a); } &mut me.2 }, |i, p| BS::new(i, p))))
            }
            fn position(&self) -> usize { *self.0 .0.position() }
            fn buffered(&self) -> Vec<u8> { let $x = &self.0; $buf }
        }
    };
    (async $name: ident, $un: ident, $mac: ident) => {
        struct $name(Buffered<Rd>);
        struct $un(Unbuffered<Rd>);
        pull!(@async $name, $mac, |x| x.0.buffer().to_vec(), |x| x.1.clone());
        pull!(@async $un, $mac, |x| x.1.buffer().to_vec(), |x| x.1.get_ref().clone());
    };
    (@async $name: ident, $mac: ident, |$x: ident| $buf: expr, |$y: ident| $rd: expr) => {
        impl Pull for $name {
            fn next(&mut self, a: &'static A, plan: &mut Plan, dropped: &mut usize) -> Result<Option<Result<Val, Error<UnexpectedParse, usize>>>, String> {
                let me = &mut self.0;
                let rd = { let $y = &*me; $rd };
                let rebuild = plan.rebuild;
                drive(
                    &rd,
                    async { $mac!(me.0, me.1, { if rebuild { me.2 = build::<BS>(a); } &mut me.2 }, |i, p| BS::new(i, p)) },
                    || match plan.drops.pop() {
                        Some(true) => { *dropped += 1; false }
                        _ => true,
                    },
                )
            }
            fn position(&self) -> usize { *self.0 .0.position() }
            fn buffered(&self) -> Vec<u8> { let $x = &self.0; $buf }
        }
    };
}
pull!(sync Sync, SyncUn, decode);
pull!(async Futures, FuturesUn, decode_futures_03);
pull!(async Tokio02, Tokio02Un, decode_tokio_02);
pull!(async Tokio03, Tokio03Un, decode_tokio_03);
pull!(async Tokio1, Tokio1Un, decode_tokio);

const FLAVOURS: [&str; 10] = [
    "decode!", "decode_futures_03!", "decode_tokio_02!", "decode_tokio_03!", "decode_tokio!",
    "decode! bufferless", "decode_futures_03! bufferless", "decode_tokio_02! bufferless", "decode_tokio_03! bufferless", "decode_tokio! bufferless",
];
fn flavour(k: usize, a: &'static A, rd: Rd, cap: usize) -> Box<dyn Pull> {
    let p = build::<BS>(a);
    if k < 5 {
        let x = Buffered(Decoder::new(), rd, p);
        match k {
            0 => Box::new(Sync(x)),
            1 => Box::new(Futures(x)),
            2 => Box::new(Tokio02(x)),
            3 => Box::new(Tokio03(x)),
            _ => Box::new(Tokio1(x)),
        }
    } else {
        let x = Unbuffered(Decoder::new_bufferless(), BufReader::with_capacity(cap, rd), p);
        match k - 5 {
            0 => Box::new(SyncUn(x)),
            1 => Box::new(FuturesUn(x)),
            2 => Box::new(Tokio02Un(x)),
            3 => Box::new(Tokio03Un(x)),
            _ => Box::new(Tokio1Un(x)),
        }
    }
}

fn run(d: &mut dyn Pull, rd: &Rd, a: &'static A, mut plan: Plan) -> Result<Ran, String> {
    let mut r = Ran { outs: vec![], buffered: vec![], retries: 0, drops: 0 };
    while r.outs.len() < plan.max_messages {
        match d.next(a, &mut plan, &mut r.drops)? {
            None => {}
            Some(Ok(v)) => {
                let pos = d.position();
                let buffered = d.buffered();
                // what the decoder went through, holds and hasn't read is the whole source
                let c = rd.0.borrow();
                if pos + buffered.len() != c.pos || c.data[pos.min(c.pos)..c.pos] != buffered[..] {
                    return Err(format!(
                        "after {} message(s) at position {} of {} bytes read, the buffer holds {:?}, not {:?}",
                        r.outs.len() + 1, pos, c.pos, buffered, &c.data[pos.min(c.pos)..c.pos]
                    ));
                }
                r.outs.push(Out::Msg(v, pos));
            }
            Some(Err(Error::Parse(_))) => {
                r.outs.push(Out::Fail);
                break;
            }
            Some(Err(Error::Io { error, position })) => {
                if position != d.position() {
                    return Err(format!("an I/O error at {} is reported at {}", d.position(), position));
                }
                r.retries += 1;
                if r.retries > plan.max_retries {
                    return Err(format!("more I/O errors than the source returned: {}", error));
                }
            }
        }
    }
    r.buffered = d.buffered();
    Ok(r)
}

/// The messages, as the reference interpreter reads them from all the bytes
fn reference(a: &A, cs: &[char], max: usize) -> Vec<Out> {
    let mut at = 0;
    let mut out = vec![];
    while out.len() < max {
        let mut m = M::new(&cs[at..]);
        m.width = |_| 1;
        match m.run(a) {
            R::Ok(v, _) => {
                let n = m.pos;
                at += n;
                out.push(Out::Msg(v, at));
                if n == 0 {
                    break;
                }
            }
            R::Err(_) => {
                out.push(Out::Fail);
                break;
            }
        }
    }
    out
}

fn gen_script(g: &mut Gen, len: usize, asy: bool) -> Vec<Ev> {
    let style = g.below(5);
    let n = match style {
        0 => len + 2,
        _ => g.small(0, len + 4),
    };
    (0..n)
        .map(|_| match g.weighted(&[8, 1, 1]) {
            0 => Ev::Data(match style {
                0 => 1,
                1 => 1 + g.below(3) as usize,
                2 => 1 + g.below(8) as usize,
                _ => 1 + g.below(len as u32 + 1) as usize,
            }),
            1 if asy => Ev::Pend,
            _ => Ev::Err(*g.pick(&[ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::UnexpectedEof])),
        })
        .collect()
}

fn check(g: &mut Gen, a: &A, s: &str, runs: usize, max_messages: usize) -> Res {
    let cs: Vec<char> = s.chars().collect();
    let data = bytes_of(s);
    let want = reference(a, &cs, max_messages);
    let sa = unsafe { lend(a) };
    for _ in 0..runs {
        let k = g.below(10) as usize;
        let script = gen_script(g, data.len(), k % 5 != 0);
        let cap = *g.pick(&[0, 1, 2, 3, 7, 16, 64, 8096]);
        let plan = Plan {
            rebuild: g.bool(),
            drops: (0..g.below(4)).map(|_| g.bool()).collect(),
            max_retries: script.iter().filter(|e| matches!(e, Ev::Err(_) | Ev::Pend)).count(),
            // a message that consumes nothing would be found over and over
            max_messages: want.len(),
        };
        g.describe(|| {
            format!(
                "{} (capacity {}): {:?} on {:?}, reads {:?}, drops {:?}{}",
                FLAVOURS[k], cap, a, s, script, plan.drops, if plan.rebuild { ", parser rebuilt" } else { "" }
            )
        });
        let short = script.iter().any(|e| matches!(e, Ev::Data(n) if *n < data.len()));
        let faulty = plan.max_retries > 0;
        let rd = Rd::new(data.clone(), script);
        let mut d = flavour(k, sa, rd.clone(), cap);
        let got = run(&mut *d, &rd, sa, plan).map_err(|e| format!("{} on {:?}: {}", FLAVOURS[k], s, e))?;
        g.checks += 1;
        if got.outs != want {
            return Err(format!("{} on {:?} gives {:?} instead of {:?}", FLAVOURS[k], s, got.outs, want));
        }
        g.label(FLAVOURS[k]);
        if got.retries > 0 {
            g.label("io_error_retried");
        }
        if got.drops > 0 {
            g.label("future_dropped_and_restarted");
        }
        if want.len() > 2 {
            g.label("several_messages");
        }
        if want.last() == Some(&Out::Fail) {
            let end = match want.iter().rev().nth(1) {
                Some(Out::Msg(_, at)) => *at,
                _ => 0,
            };
            g.label(if end == data.len() { "clean_end" } else { "truncated_or_malformed" });
        }
        if want.len() > 1 && (short || faulty) {
            g.nontrivial(hash_str(&format!("{:?}{:?}{}{}", a, s, k, got.retries)));
        }
    }
    Ok(())
}

fn opts(depth: usize) -> Opts {
    Opts { range: true, partial: true, depth, ..Opts::full() }
}

fn messages(g: &mut Gen) -> Res {
    let d = 1 + g.small(0, 2);
    let a = gen_consuming(g, &opts(3), d);
    let mut s = String::new();
    for _ in 0..g.small(1, 4) {
        sample(&a, g, &mut s);
    }
    // cut short or damaged
    if g.chance(1, 4) && !s.is_empty() {
        let cs: Vec<char> = s.chars().collect();
        let n = g.below(cs.len() as u32) as usize;
        s = cs[..n].iter().collect();
    }
    if g.chance(1, 6) {
        s.push(gen_char(g));
    }
    check(g, &a, &s, 3, 12)
}

/// more than the decoder reads at a time
fn large(g: &mut Gen) -> Res {
    let d = g.small(0, 2);
    let a = gen_consuming(g, &opts(2), d);
    let n = 8000 + g.below(20000) as usize;
    let mut s = String::new();
    let mut tries = 0;
    while s.len() < n && tries < 3000 {
        sample(&a, g, &mut s);
        tries += 1;
        if s.len() > 200 {
            // the rest are copies
            let copy = s.clone();
            while s.len() < n {
                s.push_str(&copy);
            }
        }
    }
    check(g, &a, &s, 2, 30_000)
}

/// One message that fills the buffer several times
fn long_message(g: &mut Gen) -> Res {
    let el = gen_token_leaf(g, &opts(2));
    let a = match g.below(4) {
        0 => A::Seq(vec![A::W(Wrap::Ignore, Box::new(A::Recognize(Box::new(A::Many1(Box::new(el.clone())))))), A::Eof]),
        _ => A::Seq(vec![A::Many1(Box::new(el.clone())), A::Opt(Box::new(A::Tok(';')))]),
    };
    let n = 100 + g.below(12_000) as usize;
    let mut one = String::new();
    for _ in 0..5 {
        sample(&el, g, &mut one);
    }
    let mut s = String::new();
    while s.len() < n && !one.is_empty() {
        s.push_str(&one);
    }
    check(g, &a, &s, 2, 4)
}


// ---- the macros with fewer and more arguments, on frames of a length and that many bytes ----

combine::parser! {
    type PartialState = combine::parser::combinator::AnyPartialState;
    fn frame[Input]()(Input) -> Vec<u8>
    where [Input: combine::RangeStream<Token = u8>, Input::Range: AsRef<[u8]> + combine::stream::Range]
    {
        combine::parser::combinator::any_partial_state(
            combine::parser::token::any().then_partial(|n: &mut u8| {
                let n = *n as usize;
                combine::attempt(pr::take(n)).map(|r: Input::Range| r.as_ref().to_vec())
            })
        )
    }
}

macro_rules! forms {
    ($out: ident, $mac: ident, $n: expr, $form: expr, $bufferless: expr, $cap: expr, $rd: expr, ($($wrap: tt)*)) => {{
        let rd: Rd = $rd;
        let seen = std::cell::Cell::new(0usize);
        macro_rules! step {
            ($d: ident, $r: ident) => {
                match $form {
                    0 => $($wrap)*($mac!($d, $r, frame()).map_err(|e| matches!(e, Error::Io { .. }))),
                    1 => $($wrap)*($mac!($d, $r, frame(), |input, _| input).map_err(|e| matches!(e, Error::Io { .. }))),
                    2 => $($wrap)*($mac!($d, $r, frame(), |input, _| combine::easy::Stream::from(input)).map_err(|e| matches!(e, Error::Io { .. }))),
                    _ => $($wrap)*($mac!($d, $r, frame(), |input, _| input, |s: MaybePartialStream<&[u8]>| seen.set(s.0.len())).map_err(|e| matches!(e, Error::Io { .. }))),
                }
            };
        }
        if $bufferless {
            let mut r = BufReader::with_capacity($cap, rd.clone());
            let mut d = Decoder::<_, combine::stream::PointerOffset<[u8]>, _>::new_bufferless();
            for _ in 0..$n {
                let v: Result<Vec<u8>, bool> = step!(d, r);
                if v.is_ok() && $form == 3 && seen.get() != r.buffer().len() {
                    return Err(format!("the stream handed back has {} bytes left, the buffer {}", seen.get(), r.buffer().len()));
                }
                $out.push(v);
            }
        } else {
            let mut r = rd.clone();
            let mut d = Decoder::<_, combine::stream::PointerOffset<[u8]>>::new_buffer();
            for _ in 0..$n {
                let v: Result<Vec<u8>, bool> = step!(d, r);
                if v.is_ok() && $form == 3 && seen.get() != d.buffer().len() {
                    return Err(format!("the stream handed back has {} bytes left, the buffer {}", seen.get(), d.buffer().len()));
                }
                $out.push(v);
            }
        }
    }};
}

fn frames(g: &mut Gen) -> Res {
    let n = g.below(5) as usize;
    let mut data = vec![];
    let mut msgs = vec![];
    for _ in 0..n {
        let m: Vec<u8> = (0..g.small(0, 40)).map(|_| g.below(256) as u8).collect();
        data.push(m.len() as u8);
        data.extend(&m);
        msgs.push(m);
    }
    let mut cut = 0;
    if g.chance(1, 3) && !data.is_empty() {
        cut = 1 + g.below(data.len() as u32) as usize;
        data.truncate(data.len() - cut);
    }
    // the messages that are whole
    let mut want: Vec<Result<Vec<u8>, bool>> = vec![];
    let mut at = 0;
    while at < data.len() && at + 1 + data[at] as usize <= data.len() {
        let l = data[at] as usize;
        want.push(Ok(data[at + 1..at + 1 + l].to_vec()));
        at += 1 + l;
    }
    want.push(Err(false));
    let k = g.below(5) as usize;
    let form = g.below(4);
    let un = g.bool();
    let cap = *g.pick(&[0, 1, 3, 16, 8096]);
    let script = gen_script(g, data.len(), k != 0);
    let faults = script.iter().filter(|e| matches!(e, Ev::Err(_) | Ev::Pend)).count();
    g.describe(|| format!("{} form {} bufferless {}: {:?}, reads {:?}", FLAVOURS[k], form, un, data, script));
    let rd = Rd::new(data.clone(), script);
    // the decoder is called until it can't have any more I/O errors to report
    let mut out: Vec<Result<Vec<u8>, bool>> = vec![];
    let calls = want.len() + faults;
    async fn id<T>(f: impl std::future::Future<Output = T>) -> T {
        f.await
    }
    let r: Result<(), String> = match k {
        0 => (|| {
            forms!(out, decode, calls, form, un, cap, rd.clone(), ());
            Ok(())
        })(),
        _ => {
            let rd2 = rd.clone();
            let f = async {
                match k {
                    1 => forms!(out, decode_futures_03, calls, form, un, cap, rd2, ()),
                    2 => forms!(out, decode_tokio_02, calls, form, un, cap, rd2, ()),
                    3 => forms!(out, decode_tokio_03, calls, form, un, cap, rd2, ()),
                    _ => forms!(out, decode_tokio, calls, form, un, cap, rd2, ()),
                }
                Ok::<(), String>(())
            };
            drive(&rd, id(f), || true)?.unwrap()
        }
    };
    r?;
    g.checks += 1;
    let got: Vec<Result<Vec<u8>, bool>> = out.into_iter().filter(|r| *r != Err(true)).take(want.len()).collect();
    if got != want {
        return Err(format!("{} form {}: {:?} instead of {:?} (cut {})", FLAVOURS[k], form, got, want, cut));
    }
    if want.len() > 1 {
        g.nontrivial(hash_str(&format!("{:?}{}{}{}", data, k, form, un)));
    }
    Ok(())
}

// ---- stream::decode and stream::decode_tokio driven by a codec ----

/// The loop of tokio_util's `Framed`: bytes arrive in chunks; at the end `decode_eof`
fn codec_run(a: &'static A, data: &[u8], cuts: &[usize], max: usize) -> Result<(Vec<Out>, bool), String> {
    let mut buf: Vec<u8> = vec![];
    let mut read = 0;
    let mut c = 0;
    let mut at = 0;
    let mut state = combine::parser::combinator::AnyPartialState::default();
    let mut outs = vec![];
    let mut eof = false;
    // bytes of the current message that are gone from the buffer
    let mut pending = 0;
    loop {
        if outs.len() >= max {
            return Ok((outs, false));
        }
        let mut input = BS::new(MaybePartialStream(&buf[..], !eof), at);
        match combine::stream::decode_tokio(build::<BS>(a), &mut input, &mut state) {
            Ok((Some(v), n)) => {
                if n > buf.len() {
                    return Err(format!("consumed {} of {} bytes", n, buf.len()));
                }
                buf.drain(..n);
                at += n;
                pending = 0;
                outs.push(Out::Msg(v, at));
            }
            Ok((None, n)) => {
                buf.drain(..n);
                at += n;
                pending += n;
                if eof {
                    if !buf.is_empty() {
                        return Err(format!("asks for more at the end with {:?} in the buffer", buf));
                    }
                    // the end between two messages, or (known) in a message whose start is gone
                    return Ok((outs, pending > 0));
                }
                if read == data.len() {
                    eof = true;
                } else {
                    let end = cuts.get(c).copied().unwrap_or(data.len()).max(read);
                    c += 1;
                    buf.extend(&data[read..end]);
                    read = end;
                }
            }
            Err(_) => {
                outs.push(Out::Fail);
                return Ok((outs, false));
            }
        }
    }
}

fn codec(g: &mut Gen) -> Res {
    let d = 1 + g.small(0, 2);
    let a = gen_consuming(g, &opts(3), d);
    let mut s = String::new();
    for _ in 0..g.small(1, 4) {
        sample(&a, g, &mut s);
    }
    if g.chance(1, 4) && !s.is_empty() {
        let cs: Vec<char> = s.chars().collect();
        let n = g.below(cs.len() as u32) as usize;
        s = cs[..n].iter().collect();
    }
    let cs: Vec<char> = s.chars().collect();
    let data = bytes_of(&s);
    let mut want = reference(&a, &cs, 12);
    let end = match want.iter().rev().nth(1) {
        Some(Out::Msg(_, at)) => *at,
        _ => 0,
    };
    // what decode_tokio does at the end of its input if no byte is left: no message and no error,
    // if a message fails there for the lack of bytes
    let clean = end == data.len() && want.last() == Some(&Out::Fail);
    let sa = unsafe { lend(&a) };
    let m = g.below(6) as usize;
    let mut cuts: Vec<usize> = (0..m).map(|_| g.below(data.len() as u32 + 1) as usize).collect();
    cuts.sort();
    if g.chance(1, 3) {
        cuts = (1..=data.len()).collect();
    }
    g.describe(|| format!("decode_tokio: {:?} on {:?} cut at {:?}", a, s, cuts));
    let (mut got, known) = codec_run(sa, &data, &cuts, want.len())?;
    g.checks += 1;
    if clean && want.last() == Some(&Out::Fail) {
        // both an error and a quiet end will do when there is nothing left
        want.pop();
        if got.last() == Some(&Out::Fail) {
            got.pop();
        }
    } else if known && want.last() == Some(&Out::Fail) {
        // listed in known-findings.txt: key decode-tokio-truncated
        g.label("truncated_message_dropped_silently");
        want.pop();
    }
    if got != want {
        return Err(format!("decode_tokio on {:?} cut at {:?}: {:?} instead of {:?}", s, cuts, got, want));
    }
    if want.len() > 1 && cuts.iter().any(|c| *c > 0 && *c < data.len()) {
        g.nontrivial(hash_str(&format!("{:?}{:?}{:?}", a, s, cuts)));
    }
    Ok(())
}

/// A message of three bytes of which only two arrive
fn known_truncated() -> Res {
    let a: &'static A = Box::leak(Box::new(A::Seq(vec![A::Any, A::Any, A::Any])));
    match codec_run(a, b"ab", &[2], 5)? {
        (outs, true) if outs.is_empty() => Err(
            "decode_tokio reports a clean end for a source that ends within a message whose first bytes it has already taken out of the buffer".into(),
        ),
        (outs, false) if outs == [Out::Fail] => Ok(()),
        o => Err(format!("{:?}", o)),
    }
}

fn main() {
    h::runner::main(&Property {
        id: "C05",
        rule: "at least one message is decoded and the source returns short reads or errors; distinct by grammar, bytes, decoder and number of retries",
        assumptions: &[
            "message grammars consume at least one byte; grammars of depth up to 3, up to about 100 bytes (28000 in the large suites)",
            "after a parse error the decoder is not used again",
        ],
        suites: &[
            Suite { name: "messages", quick: 800_000, thorough: 16_000_000, f: messages },
            Suite { name: "frames", quick: 200_000, thorough: 4_000_000, f: frames },
            Suite { name: "codec", quick: 500_000, thorough: 10_000_000, f: codec },
            Suite { name: "large", quick: 1_000, thorough: 20_000, f: large },
            Suite { name: "long_message", quick: 2_000, thorough: 40_000, f: long_message },
        ],
        known: &[Known { key: "decode-tokio-truncated", f: known_truncated }],
    })
}
