#[path = "../h/mod.rs"]
#[macro_use]
mod h;
#[path = "../h/slice.rs"]
mod slice;
use combine::error::{ParseError, StringStreamError, Tracked};
use combine::parser::repeat as rep;
use combine::parser::token as tok;
use combine::stream::position::{self, IndexPositioner, SourcePosition};
use combine::stream::{buffered, easy, read, IteratorStream, PartialStream, Positioned, ResetStream, StreamErrorFor, StreamOnce};
use combine::ParseResult::*;
use combine::{attempt, choice, look_ahead, optional, Parser};
use h::ast::*;
use h::build::*;
use h::gen::*;
use h::runner::*;
use slice::*;

/// How many tokens back a buffer for `n` can go for certain, and how many at the very most
fn limits(n: usize) -> (usize, usize) {
    // a buffer for no tokens still gets a few places
    (n, if n == 0 { 4 } else { n })
}

/// A source: tokens, then the end or an error that stays, or both in turns
#[derive(Clone, Copy, Debug, PartialEq)]
enum Tail {
    End,
    Fault,
}

/// A reader that fails for good at the end of its data
struct Faulty(&'static [u8], Tail, u32);
impl std::io::Read for Faulty {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.2 = self.2.wrapping_mul(5).wrapping_add(3);
        if self.2 / 8 % 5 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.0.is_empty() {
            return match self.1 {
                Tail::End => Ok(0),
                Tail::Fault => Err(std::io::Error::new(std::io::ErrorKind::Other, "gone")),
            };
        }
        let n = self.0.len().min(buf.len()).min(1 + (self.2 / 4 % 3) as usize);
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// What an error is about: the end, a fault of the source, or something else
#[derive(Debug, PartialEq, Clone, Copy)]
enum What {
    End,
    Fault,
    Other,
}
trait Kind {
    fn kind(&self) -> What;
}
impl Kind for read::Error {
    fn kind(&self) -> What {
        match self {
            read::Error::EndOfInput => What::End,
            read::Error::Io(_) => What::Fault,
            read::Error::Unexpected => What::Other,
        }
    }
}
impl Kind for StringStreamError {
    fn kind(&self) -> What {
        match self {
            StringStreamError::Eoi => What::End,
            _ => What::Other,
        }
    }
}
impl Kind for combine::error::UnexpectedParse {
    fn kind(&self) -> What {
        match self {
            combine::error::UnexpectedParse::Eoi => What::End,
            _ => What::Other,
        }
    }
}
impl<T: PartialEq, R: PartialEq> Kind for easy::Error<T, R> {
    fn kind(&self) -> What {
        match self {
            easy::Error::Other(_) => What::Fault,
            e if combine::error::StreamError::is_unexpected_end_of_input(e) => What::End,
            _ => What::Other,
        }
    }
}

trait IntoNum {
    fn n(&self) -> i64;
}
impl IntoNum for usize {
    fn n(&self) -> i64 {
        *self as i64
    }
}
impl IntoNum for SourcePosition {
    fn n(&self) -> i64 {
        (self.line as i64) << 32 | self.column as i64
    }
}

#[derive(Debug, Clone)]
enum Op {
    Next,
    Nexts(usize),
    Mark,
    Reset(usize),
    /// back and to the end again
    Forward,
    Look(usize),
    /// tokens, then nothing that fits
    Try(usize),
    /// alternatives of different length which do not fit, and one that does
    Choose(usize, usize),
    Skip(Test),
    Opt(usize),
}
fn gen_op(g: &mut Gen, n: usize, max: usize) -> Op {
    // around the limit
    let k = |g: &mut Gen| if g.bool() { (n + 2).saturating_sub(g.below(4) as usize) } else { g.below(max as u32 + 2) as usize };
    match g.below(16) {
        0..=2 => Op::Next,
        3 => Op::Nexts(k(g)),
        4 | 5 => Op::Mark,
        6..=8 => Op::Reset(g.below(4) as usize),
        9 => Op::Forward,
        10 => Op::Look(k(g)),
        11 => Op::Try(k(g)),
        12 | 13 => Op::Choose(k(g), k(g)),
        14 => Op::Skip(if g.bool() { Test::Mod(2, g.below(2)) } else { Test::All }),
        _ => Op::Opt(k(g)),
    }
}

/// The model: where it is, how far it has read, and the limit
struct State<'m> {
    toks: &'m [u32],
    pos: &'m dyn Fn(usize) -> i64,
    tail: What,
    at: usize,
    far: usize,
    n: usize,
}
impl State<'_> {
    /// whether a reset there has to work, has to fail, or may do either
    fn back(&self, to: usize) -> Option<bool> {
        let d = self.far - to;
        let (sure, most) = limits(self.n);
        if d <= sure {
            Some(true)
        } else if d > most {
            Some(false)
        } else {
            None
        }
    }
    fn go(&mut self, to: usize) {
        self.at = to;
        self.far = self.far.max(to);
    }
}

fn history<I>(name: &'static str, s: &mut I, m: &mut State, ops: &[Op], g: &mut Gen) -> Res
where
    I: ResetStream<Checkpoint = usize> + Positioned + 'static,
    I::Token: Tok,
    I::Position: IntoNum,
    StreamErrorFor<I>: Kind,
{
    let size = m.toks.len();
    let mut marks: Vec<(usize, usize)> = vec![(s.checkpoint(), 0)];
    for op in ops {
        g.checks += 1;
        let (at, n) = (m.at, m.n);
        let bad = |what: String| Err(format!("{} (lookahead {}) {:?} at token {}: {}", name, n, op, at, what));
        macro_rules! here {
            () => {
                if s.position().n() != (m.pos)(m.at) {
                    return bad(format!("position {} instead of {}", s.position().n(), (m.pos)(m.at)));
                }
            };
        }
        macro_rules! next {
            () => {{
                here!();
                match s.uncons() {
                    Ok(t) => {
                        if m.at >= size || t.num() != m.toks[m.at] {
                            return bad(format!("token {} instead of {:?} at {}", t.num(), m.toks.get(m.at), m.at));
                        }
                        let to = m.at + 1;
                        m.go(to);
                        true
                    }
                    Err(e) => {
                        if m.at < size || e.kind() != m.tail {
                            return bad(format!("{:?} at {} of {}", e.kind(), m.at, size));
                        }
                        g.label("end");
                        false
                    }
                }
            }};
        }
        macro_rules! reset {
            ($cp: expr, $to: expr) => {{
                let (r, want) = (s.reset($cp).is_ok(), m.back($to));
                if want.is_some() && want != Some(r) {
                    return bad(format!("reset from {} (read up to {}) to {} {}", m.at, m.far, $to, if r { "works" } else { "fails" }));
                }
                if r {
                    m.at = $to;
                    g.label("reset");
                } else {
                    g.label("too_far");
                }
                here!();
                r
            }};
        }
        match *op {
            Op::Next => {
                next!();
            }
            Op::Nexts(k) => {
                for _ in 0..k {
                    if !next!() {
                        break;
                    }
                }
            }
            Op::Mark => marks.push((s.checkpoint(), at)),
            Op::Reset(i) => {
                // the latest ones first
                let (cp, to) = marks[marks.len().saturating_sub(i + 1)];
                reset!(cp, to);
            }
            Op::Forward => {
                let (cp, to) = (s.checkpoint(), at);
                let (c0, t0) = marks[marks.len() / 2];
                if reset!(c0, t0) {
                    reset!(cp, to);
                }
            }
            _ => {
                let any = |k: usize| rep::skip_count_min_max(k, k, tok::any::<I>());
                let none = || tok::satisfy(|_: I::Token| false);
                // what happens: (may succeed at, reads up to, resets to)
                let start = s.checkpoint();
                let (r, steps): (_, Vec<(usize, usize)>) = match *op {
                    Op::Look(k) => (look_ahead(any(k)).parse_stream(s), vec![(at, k)]),
                    Op::Try(k) => (attempt((any(k), none()).map(|_| ())).parse_stream(s), vec![(at, k + 1)]),
                    Op::Choose(k, l) => (
                        choice((attempt((any(k), none()).map(|_| ())), attempt((any(l), none()).map(|_| ())), any(1))).parse_stream(s),
                        vec![(at, k + 1), (at, l + 1)],
                    ),
                    Op::Skip(t) => (rep::skip_many(tok::satisfy(move |c: I::Token| t.run(0, c.num()))).parse_stream(s), vec![]),
                    Op::Opt(k) => (optional(attempt((any(k), none()))).map(|_| ()).parse_stream(s), vec![(at, k + 1)]),
                    _ => unreachable!(),
                };
                // may it succeed, must it?
                let mut sure = Some(true);
                if let Op::Skip(t) = *op {
                    let mut to = at;
                    while to < size && t.run(0, m.toks[to]) {
                        to += 1;
                    }
                    m.far = m.far.max((to + 1).min(size));
                    // a fault is an error like any other: the repetition stops there
                    if m.back(to) != Some(true) {
                        sure = m.back(to);
                    }
                    m.at = to;
                } else {
                    for (to, k) in steps {
                        m.far = m.far.max((at + k).min(size));
                        let short = at + k > size;
                        match *op {
                            // a lookahead that reaches the end is rewound by whoever asked for it
                            Op::Look(_) if short => sure = Some(false),
                            Op::Try(_) => sure = Some(false),
                            _ => sure = m.back(to),
                        }
                        if sure != Some(true) {
                            // the next alternative may never be tried
                            break;
                        }
                    }
                    if let Op::Choose(..) = op {
                        if at == size {
                            sure = Some(false);
                        }
                        if sure == Some(true) {
                            m.go(at + 1);
                        }
                    }
                }
                let ok = matches!(r, CommitOk(_) | PeekOk(_));
                if sure.is_some() && sure != Some(ok) {
                    return bad(format!("{} (read up to {})", if ok { "succeeds" } else { "fails" }, m.far));
                }
                match (ok, sure, &r) {
                    (true, Some(true), _) => {
                        g.label("parsed");
                        here!();
                    }
                    (false, _, CommitErr(_)) => {
                        // where it stopped is not known
                        g.label("parse_error");
                        let to = s.checkpoint();
                        m.at = to;
                        if sure.is_some() && m.at > m.far {
                            return bad(format!("checkpoint {} beyond {}", m.at, m.far));
                        }
                        here!();
                        if sure.is_none() {
                            break;
                        }
                    }
                    _ => {
                        m.at = s.checkpoint();
                        if sure.is_none() {
                            break;
                        }
                        reset!(start, at);
                    }
                }
            }
        }
    }
    // the rest of the tokens come as they are
    loop {
        if s.position().n() != (m.pos)(m.at) {
            return Err(format!("{} (lookahead {}): at the end of the history, token {}: position", name, m.n, m.at));
        }
        match s.uncons() {
            Ok(t) if m.at < size && t.num() == m.toks[m.at] => m.at += 1,
            Err(e) if m.at == size && e.kind() == m.tail => return Ok(()),
            Ok(t) => return Err(format!("{} (lookahead {}): token {} at {} of {:?}", name, m.n, t.num(), m.at, m.toks)),
            Err(e) => return Err(format!("{} (lookahead {}): {:?} at {} of {}", name, m.n, e.kind(), m.at, size)),
        }
    }
}

fn index(i: usize) -> i64 {
    i as i64
}
fn histories(g: &mut Gen, max: usize) -> Res {
    let size = g.below(max as u32 + 1) as usize;
    let n = if g.chance(1, 12) { 0 } else { 1 + g.small(0, max) };
    let d = gen_data(g, size, &['a', 'b', '\n', 'é', '漢', 'c']);
    let kind = g.below(6);
    let fault = g.chance(1, 3) && kind == 5;
    let seed = g.below(1000);
    let ops: Vec<Op> = (0..g.small(1, 14)).map(|_| gen_op(g, n, max)).collect();
    g.describe(|| format!("kind {} over {:?}, lookahead {}, fault {}: {:?}", kind, d.text, n, fault, ops));
    if size > n && ops.iter().any(|o| matches!(o, Op::Reset(_) | Op::Try(_) | Op::Choose(..) | Op::Look(_) | Op::Opt(_))) {
        g.nontrivial(hash_str(&format!("{}{}{}{:?}", kind, d.text, n, ops)));
    }
    let nums = |c: bool| -> Vec<u32> { if c { d.chars.iter().map(|c| c.num()).collect() } else { d.bytes.iter().map(|c| c.num()).collect() } };
    let source = |i: usize| {
        let line = 1 + d.chars[..i].iter().filter(|c| **c == '\n').count();
        let col = 1 + d.chars[..i].iter().rev().take_while(|c| **c != '\n').count();
        (line as i64) << 32 | col as i64
    };
    let (c, b): (&'static [char], &'static [u8]) = (sl(&d.chars), sl(&d.bytes));
    let toks = nums(kind < 3);
    let pos: &dyn Fn(usize) -> i64 = if kind == 0 || kind == 2 { &source } else { &index };
    let mut m = State { toks: &toks, pos, tail: if fault { What::Fault } else { What::End }, at: 0, far: 0, n };
    match kind {
        0 => {
            let it = IteratorStream::new(c.iter().copied());
            let mut s = buffered::Stream::new(easy::Stream(position::Stream::with_positioner(it, SourcePosition::new())), n);
            history("easy position iterator", &mut s, &mut m, &ops, g)
        }
        1 => {
            let mut s = buffered::Stream::new(position::Stream::new(IteratorStream::new(c.iter())), n);
            history("index iterator", &mut s, &mut m, &ops, g)
        }
        2 => {
            let mut s = buffered::Stream::new(position::Stream::new(text(&d)), n);
            history("position str", &mut s, &mut m, &ops, g)
        }
        3 => {
            // a buffer behind a buffer
            let inner = buffered::Stream::new(position::Stream::new(b), 1);
            let mut s = buffered::Stream::new(inner, n);
            history("buffered index [u8]", &mut s, &mut m, &ops, g)
        }
        4 => {
            let mut s = buffered::Stream::new(position::Stream::new(read::Stream::new(Faulty(b, Tail::End, seed))), n);
            history("reader", &mut s, &mut m, &ops, g)
        }
        _ => {
            let tail = if fault { Tail::Fault } else { Tail::End };
            let mut s = buffered::Stream::new(position::Stream::new(read::Stream::new(Faulty(b, tail, seed))), n);
            history("failing reader", &mut s, &mut m, &ops, g)
        }
    }
}
fn small(g: &mut Gen) -> Res {
    histories(g, 8)
}
fn large(g: &mut Gen) -> Res {
    histories(g, 60)
}

// ---- grammars: with enough lookahead as with any, without a failure

/// Watches how far back the resets go
struct Watch<S: StreamOnce> {
    s: S,
    at: usize,
    far: usize,
    back: usize,
    failed: bool,
}
impl<S: StreamOnce> StreamOnce for Watch<S> {
    type Token = S::Token;
    type Range = S::Range;
    type Position = S::Position;
    type Error = S::Error;
    fn uncons(&mut self) -> Result<S::Token, StreamErrorFor<Self>> {
        let t = self.s.uncons()?;
        self.at += 1;
        self.far = self.far.max(self.at);
        Ok(t)
    }
    fn is_partial(&self) -> bool {
        self.s.is_partial()
    }
}
impl<S: ResetStream> ResetStream for Watch<S> {
    type Checkpoint = (S::Checkpoint, usize);
    fn checkpoint(&self) -> Self::Checkpoint {
        (self.s.checkpoint(), self.at)
    }
    fn reset(&mut self, c: Self::Checkpoint) -> Result<(), S::Error> {
        self.back = self.back.max(self.far - c.1);
        let r = self.s.reset(c.0);
        match r {
            Ok(()) => self.at = c.1,
            Err(_) => self.failed = true,
        }
        r
    }
}
impl<S: Positioned> Positioned for Watch<S> {
    fn position(&self) -> S::Position {
        self.s.position()
    }
}
type Inner = position::Stream<IteratorStream<std::str::Chars<'static>>, IndexPositioner>;
type Stack = Watch<buffered::Stream<easy::Stream<Inner>>>;
tok_src!(Stack, 0);
fn stack(s: &'static str, n: usize) -> Stack {
    let inner: Inner = position::Stream::new(IteratorStream::new(s.chars()));
    Watch { s: buffered::Stream::new(easy::Stream(inner), n), at: 0, far: 0, back: 0, failed: false }
}

#[derive(Debug, PartialEq)]
struct Outcome {
    status: &'static str,
    value: Option<Val>,
    at: usize,
    rest: String,
    error: Option<String>,
}
fn outcome(a: &'static A, w: &mut Stack) -> Outcome {
    let r = build::<Stack>(a).parse_stream(w);
    let (status, value, error) = match r {
        CommitOk(v) => ("CommitOk", Some(v), None),
        PeekOk(v) => ("PeekOk", Some(v), None),
        CommitErr(e) => ("CommitErr", None, Some(format!("{:?}", e))),
        PeekErr(Tracked { error, .. }) => ("PeekErr", None, Some(format!("{:?}", error))),
    };
    let at = w.position();
    let mut rest = String::new();
    while let Ok(c) = w.uncons() {
        rest.push(c)
    }
    Outcome { status, value, at, rest, error }
}

fn grammars(g: &mut Gen) -> Res {
    let o = Opts::full();
    let depth = g.range(1, 4);
    let a = gen_ast(g, &o, depth);
    let text = gen_input(&a, g);
    let (sa, s) = unsafe { (lend(&a), lend_str(&text)) };
    let more = text.chars().count() + 1;
    let mut w = stack(s, more);
    let want = outcome(sa, &mut w);
    let back = w.back;
    if w.failed {
        return Err(format!("on {:?}: a reset fails although everything fits", text));
    }
    let n = if g.chance(1, 3) { back + g.below(3) as usize } else { g.below(more as u32) as usize };
    g.describe(|| format!("{:?} on {:?}, goes back {}, lookahead {}", a, text, back, n));
    let mut w = stack(s, n);
    let got = outcome(sa, &mut w);
    g.checks += 2;
    let (sure, most) = limits(n);
    if back <= sure {
        if got != want || w.failed {
            return Err(format!("on {:?}, goes back {}, lookahead {}: {:?} instead of {:?}", text, back, n, got, want));
        }
        g.label("enough");
    } else {
        if back > most && !w.failed {
            return Err(format!("on {:?}, goes back {}, lookahead {}: no reset fails", text, back, n));
        }
        if w.failed && got.value.is_some() {
            return Err(format!("on {:?}, goes back {}, lookahead {}: a reset failed, yet {:?}", text, back, n, got));
        }
        g.label(if w.failed { "too_short" } else { "spared" });
    }
    if back > 0 && want.status != "PeekErr" {
        g.nontrivial(hash_str(&format!("{:?}|{}|{}", a, text, n)));
    }
    Ok(())
}

// ---- a partial source behind the buffer

fn partial(g: &mut Gen) -> Res {
    let size = g.below(8) as usize;
    let d = gen_data(g, size, &['a', 'b']);
    let n = 1 + g.below(4) as usize;
    let k = g.below(6) as usize;
    g.describe(|| format!("partial {:?}, lookahead {}, asks for {}", d.text, n, k));
    let mut s = buffered::Stream::new(easy::Stream(position::Stream::with_positioner(PartialStream(text(&d)), SourcePosition::new())), n);
    g.checks += 2;
    if !s.is_partial() {
        return Err("a partial source is not partial any more".into());
    }
    let r = rep::skip_count_min_max(k, k, tok::any()).parse_stream(&mut s);
    match r {
        CommitOk(_) | PeekOk(_) if k <= size => {}
        CommitErr(e) if k > size && e.is_unexpected_end_of_input() && e.position.column as usize == size + 1 => {
            g.nontrivial(hash_str(&format!("{}{}{}", d.text, n, k)));
        }
        r => return Err(format!("{:?}", r)),
    }
    Ok(())
}

fn main() {
    h::runner::main(&Property {
        id: "C11",
        rule: "small, large: more tokens than lookahead and something that goes back; grammars: some reset goes back over tokens; partial: more asked for than there is",
        assumptions: &[
            "the source keeps reporting the end or the error it has reported once",
            "a lookahead of 0 may behave like one of up to 4",
            "how far back a reset goes is counted from the furthest token read",
        ],
        suites: &[
            Suite { name: "small", quick: 2_000_000, thorough: 40_000_000, f: small },
            Suite { name: "large", quick: 400_000, thorough: 8_000_000, f: large },
            Suite { name: "grammars", quick: 300_000, thorough: 6_000_000, f: grammars },
            Suite { name: "partial", quick: 50_000, thorough: 500_000, f: partial },
        ],
        known: &[],
    })
}
