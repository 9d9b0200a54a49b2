#[path = "../h/mod.rs"]
#[macro_use]
mod h;
#[path = "../h/slice.rs"]
mod slice;
use combine::error::{ParseError, StringStreamError, UnexpectedParse};
use combine::parser::range as pr;
use combine::parser::repeat as rep;
use combine::parser::token as tok;
use combine::stream::position::{self, IndexPositioner, Positioner, RangePositioner, SourcePosition};
use combine::stream::span::{self, Span};
use combine::stream::{
    buffered, easy, read, state, CompleteStream, IteratorStream, MaybePartialStream, PartialStream, PointerOffset, Positioned,
    Range, RangeStream, SliceStream, Stream, StreamOnce,
};
use combine::ParseResult::{self, *};
use combine::{attempt, look_ahead, not_followed_by, optional, EasyParser, Parser};
use h::ast::*;
use h::build::*;
use h::gen::*;
use h::model::*;
use h::runner::*;
use slice::*;

/// A position as numbers: line and column, or an offset
pub type Pos = (i64, i64);
pub trait ToPos {
    fn to_pos(&self, addr: usize) -> Pos;
}
impl ToPos for usize {
    fn to_pos(&self, _: usize) -> Pos {
        (*self as i64, 0)
    }
}
impl ToPos for SourcePosition {
    fn to_pos(&self, _: usize) -> Pos {
        (self.line as i64, self.column as i64)
    }
}
impl<T: ?Sized> ToPos for PointerOffset<T> {
    fn to_pos(&self, addr: usize) -> Pos {
        (self.0 as i64 - addr as i64, 0)
    }
}
impl<P: ToPos> ToPos for Span<P> {
    fn to_pos(&self, a: usize) -> Pos {
        if self.start.to_pos(a) == self.end.to_pos(a) {
            self.start.to_pos(a)
        } else {
            (-1000 - self.start.to_pos(a).0, -1000 - self.end.to_pos(a).0)
        }
    }
}

/// A positioner of a user: hashes all tokens seen, in order
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord, Default)]
struct Seen(usize, u64);
impl Seen {
    fn push(&mut self, t: u32) {
        self.0 += 1;
        self.1 = mix(self.1 ^ t as u64);
    }
}
impl ToPos for Seen {
    fn to_pos(&self, _: usize) -> Pos {
        (self.0 as i64, (self.1 >> 1) as i64)
    }
}
impl<T: Tok> Positioner<T> for Seen {
    type Position = Seen;
    type Checkpoint = Seen;
    fn position(&self) -> Seen {
        self.clone()
    }
    fn update(&mut self, t: &T) {
        self.push(t.num())
    }
    fn checkpoint(&self) -> Seen {
        self.clone()
    }
    fn reset(&mut self, c: Seen) {
        *self = c
    }
}
impl<T: Tok, R: Loc> RangePositioner<T, R> for Seen {
    fn update_range(&mut self, r: &R) {
        for t in r.nums() {
            self.push(t)
        }
    }
}

/// What positions mean, given the tokens consumed before
#[derive(Clone, Copy, PartialEq, Debug)]
enum Unit {
    Source,
    Index,
    Bytes,
    Seen,
    /// a reference to a positioner of the user
    None,
}
impl Unit {
    fn at(self, m: &Model, i: usize, from: Pos) -> Pos {
        match self {
            Unit::Source => {
                let (mut l, mut c) = from;
                for t in &m.toks[..i] {
                    if *t == 10 {
                        l += 1;
                        c = 1;
                    } else {
                        c += 1;
                    }
                }
                (l, c)
            }
            Unit::Index => (from.0 + i as i64, 0),
            Unit::Bytes => (m.bytes[i] as i64, 0),
            Unit::Seen => {
                let mut s = Seen::default();
                for t in &m.toks[..i] {
                    s.push(*t)
                }
                s.to_pos(0)
            }
            Unit::None => (0, 0),
        }
    }
}

/// The position in an error, if it has one
trait ErrPos {
    fn err_pos(&self, addr: usize) -> Option<Pos>;
}
impl<T: PartialEq, R: PartialEq, P: ToPos + Ord + Clone> ErrPos for easy::Errors<T, R, P> {
    fn err_pos(&self, addr: usize) -> Option<Pos> {
        if ParseError::<T, R, P>::position(self).to_pos(addr) != self.position.to_pos(addr) {
            return Some((i64::MIN, 0));
        }
        Some(self.position.to_pos(addr))
    }
}
impl ErrPos for StringStreamError {
    fn err_pos(&self, _: usize) -> Option<Pos> {
        None
    }
}
impl ErrPos for UnexpectedParse {
    fn err_pos(&self, _: usize) -> Option<Pos> {
        None
    }
}
impl ErrPos for read::Error {
    fn err_pos(&self, _: usize) -> Option<Pos> {
        None
    }
}

#[derive(Debug, Clone)]
enum Op {
    Uncons,
    Position,
    Many(Test),
    Exactly(usize),
    Attempt(usize, Test),
    Look(Test),
    Not(u32, u32),
    Opt(usize),
    Checkpoint,
    Reset(usize),
    Range(usize),
    While(Test),
    While1(Test),
    Take(usize),
    TakeUntil(usize, usize),
    Recognize(Test),
    Literal(usize),
    /// a token that is not there
    Miss(u32, u32),
    Wrong,
    Eof,
}

fn by_value(g: &mut Gen) -> Test {
    if g.chance(1, 5) {
        Test::All
    } else {
        Test::Mod(2 + g.below(4), g.below(3))
    }
}
fn gen_op(g: &mut Gen, n: usize, units: usize) -> Op {
    let near = |g: &mut Gen| if g.bool() { g.below(4) as usize } else { g.below(n as u32 + 2) as usize };
    match g.below(21) {
        0 | 1 => Op::Uncons,
        2 => Op::Position,
        3 => Op::Many(by_value(g)),
        4 => Op::Exactly(near(g)),
        5 => Op::Attempt(near(g), by_value(g)),
        6 => Op::Look(by_value(g)),
        7 => Op::Not(2 + g.below(3), g.below(3)),
        8 => Op::Opt(near(g)),
        9 => Op::Checkpoint,
        10 => Op::Reset(g.below(4) as usize),
        11 => Op::Range(g.below(units as u32 + 2) as usize),
        12 => Op::While(gen_test(g, n)),
        13 => Op::While1(gen_test(g, n)),
        14 => Op::Take(g.below(6.min(units as u32 + 2)) as usize),
        15 => Op::TakeUntil(near(g), g.small(0, 3)),
        16 => Op::Recognize(by_value(g)),
        17 => Op::Literal(near(g)),
        18 => Op::Miss(2 + g.below(3), g.below(3)),
        19 => Op::Wrong,
        _ => Op::Eof,
    }
}

/// What happened: the error position, if there was an error with a position
type Did = Result<(), Option<Pos>>;
fn did<T, E: ErrPos>(r: &ParseResult<T, E>, addr: usize) -> Did {
    match r {
        CommitOk(_) | PeekOk(_) => Ok(()),
        CommitErr(e) => Err(e.err_pos(addr)),
        PeekErr(e) => Err(e.error.err_pos(addr)),
    }
}

struct Walk<'m, 'g, I: Stream> {
    name: &'static str,
    unit: Unit,
    from: Pos,
    m: &'m Model,
    g: &'g mut Gen,
    s: I,
    at: usize,
    cps: Vec<(I::Checkpoint, usize)>,
    trace: Vec<String>,
}

impl<'m, 'g, I> Walk<'m, 'g, I>
where
    I: Stream + 'static,
    I::Token: Tok,
    I::Position: ToPos,
    I::Error: ErrPos,
{
    fn here(&mut self, what: &dyn Fn() -> String) -> Res {
        self.g.checks += 1;
        let got = self.s.position().to_pos(self.m.addr);
        let want = self.unit.at(self.m, self.at, self.from);
        if got != want {
            return Err(format!(
                "{}: after {} at token {} of {:?} the position is {:?} instead of {:?}",
                self.name, what(), self.at, self.m.toks, got, want
            ));
        }
        Ok(())
    }
    /// An operation that should end at `to`, or fail at one of `errs`
    fn expect(&mut self, op: &Op, r: Did, want: Result<usize, &[usize]>, before: I::Checkpoint) -> Res {
        let ctx = |w: &Walk<'m, 'g, I>, e: String| {
            Err(format!("{}: {:?} at token {} of {:?}: {}", w.name, op, w.at, w.m.toks, e))
        };
        match (r, want) {
            (Ok(()), Ok(to)) => {
                self.at = to;
                self.g.label("ok");
            }
            (Err(p), Err(at)) => {
                self.g.label("error");
                if let (Some(p), false) = (p, self.unit == Unit::None) {
                    let wants: Vec<Pos> = at.iter().map(|i| self.unit.at(self.m, *i, self.from)).collect();
                    self.g.label("error_position");
                    if !wants.contains(&p) {
                        return ctx(self, format!("error at {:?} instead of {:?}", p, wants));
                    }
                }
                if self.s.reset(before).is_err() {
                    return ctx(self, "reset failed".into());
                }
            }
            (Ok(()), Err(_)) => return ctx(self, "HARNESS: succeeds, which the model does not expect".into()),
            (Err(_), Ok(_)) => return ctx(self, "HARNESS: fails, which the model does not expect".into()),
        }
        self.here(&|| format!("{:?}", op))
    }
    fn step(&mut self, op: &Op) -> Option<Res> {
        let m = self.m;
        let (at, n, addr) = (self.at, m.toks.len(), m.addr);
        let sat = |t: Test| tok::satisfy(move |c: I::Token| t.run(0, c.num()));
        let before = self.s.checkpoint();
        let s = &mut self.s;
        // what a run of tokens does: on partial input the end of a run has to be seen
        let run = |t: Test| m.span(at, t).0;
        let ends = |to: usize| if m.partial && to == n { Err(n) } else { Ok(to) };
        let (r, want): (Did, Result<usize, usize>) = match *op {
            Op::Uncons => (did(&tok::any().parse_stream(s), addr), if at < n { Ok(at + 1) } else { Err(n) }),
            Op::Position => {
                let r = combine::position().parse_stream(s);
                if let PeekOk(p) = &r {
                    let (got, want) = (p.to_pos(addr), self.unit.at(m, at, self.from));
                    if got != want {
                        return Some(Err(format!("{}: position() gives {:?} instead of {:?} at token {} of {:?}", self.name, got, want, at, m.toks)));
                    }
                }
                (did(&r, addr), Ok(at))
            }
            Op::Many(t) => (did(&rep::skip_many(sat(t)).parse_stream(s), addr), ends(run(t))),
            Op::Exactly(k) => (
                did(&rep::skip_count_min_max(k, k, tok::any()).parse_stream(s), addr),
                if at + k <= n { Ok(at + k) } else { Err(n) },
            ),
            Op::Attempt(k, t) => {
                let x = run(t);
                let r = did(&attempt((rep::skip_many(sat(t)), rep::skip_count_min_max(k, k, tok::any()))).parse_stream(s), addr);
                (r, if m.partial && x == n { Err(n) } else if x + k <= n { Ok(x + k) } else { Err(n) })
            }
            Op::Look(t) => (did(&look_ahead(rep::skip_many(sat(t))).parse_stream(s), addr), ends(run(t)).map(|_| at)),
            Op::Not(a, b) => {
                let r = did(&not_followed_by(tok::satisfy(move |c: I::Token| c.num() % a == b).map(|_| "")).parse_stream(s), addr);
                // without input nothing follows
                if at == n && m.partial {
                    return None;
                }
                (r, if at < n && m.toks[at] % a == b { Err(at) } else { Ok(at) })
            }
            Op::Opt(k) => {
                let r = did(&optional(attempt(rep::skip_count_min_max(k, k, tok::any()))).parse_stream(s), addr);
                (r, if at + k <= n { Ok(at + k) } else if m.partial { Err(n) } else { Ok(at) })
            }
            Op::Miss(a, b) => {
                let r = did(&tok::satisfy(move |c: I::Token| c.num() % a == b).parse_stream(s), addr);
                (r, if at < n && m.toks[at] % a == b { Ok(at + 1) } else { Err(at) })
            }
            Op::Wrong => (did(&combine::unexpected_any::<_, _, ()>("that").parse_stream(s), addr), Err(at)),
            Op::Eof => (did(&tok::eof().parse_stream(s), addr), if at < n { Err(at) } else if m.partial { return None } else { Ok(at) }),
            Op::Checkpoint => {
                self.cps.push((before, at));
                return Some(self.here(&|| "checkpoint".into()));
            }
            Op::Reset(i) => {
                if i >= self.cps.len() {
                    return Some(Ok(()));
                }
                let (cp, to) = (self.cps[i].0.clone(), self.cps[i].1);
                if s.reset(cp).is_err() {
                    return Some(Err(format!("{}: reset failed", self.name)));
                }
                self.at = to;
                return Some(self.here(&|| format!("reset to token {}", to)));
            }
            _ => return None,
        };
        Some(match want {
            Ok(to) => self.expect(op, r, Ok(to), before),
            Err(e) => self.expect(op, r, Err(&[e]), before),
        })
    }
}

impl<'m, 'g, I> Walk<'m, 'g, I>
where
    I: RangeStream + 'static,
    I::Token: Tok,
    I::Position: ToPos,
    I::Error: ErrPos,
    I::Range: Loc + Range + PartialEq,
{
    fn range_step(&mut self, op: &Op, lit: &dyn Fn(usize, usize) -> I::Range) -> Res {
        let m = self.m;
        let (at, n, addr) = (self.at, m.toks.len(), m.addr);
        let before = self.s.checkpoint();
        let s = &mut self.s;
        let run = |t: Test| m.span(at, t).0;
        let ends = |to: usize| if m.partial && to == n { Err(None) } else { Ok(to) };
        let sized = |k: usize| match m.size(at, k) {
            Size::Fits(to) => Ok(to),
            _ => Err(Some(at)),
        };
        // an error at a token, or anywhere
        let (r, want): (Did, Result<usize, Option<usize>>) = match *op {
            Op::Range(k) => (s.uncons_range(k).map(|_| ()).map_err(|_| None), sized(k)),
            Op::While(t) => {
                let mut i = 0;
                let r = did(
                    &pr::take_while(|c: I::Token| {
                        i += 1;
                        t.run(i - 1, c.num())
                    })
                    .parse_stream(s),
                    addr,
                );
                (r, ends(run(t)))
            }
            Op::While1(t) => {
                let mut i = 0;
                let r = did(
                    &pr::take_while1(|c: I::Token| {
                        i += 1;
                        t.run(i - 1, c.num())
                    })
                    .parse_stream(s),
                    addr,
                );
                let to = run(t);
                (r, if to == at { Err(Some(at)) } else { ends(to) })
            }
            Op::Take(k) => (did(&pr::take(k).parse_stream(s), addr), sized(k)),
            Op::TakeUntil(a, k) => {
                let (a, b) = (a.min(n), (a + k).min(n));
                let found = (at..=n).find(|i| i + (b - a) <= n && m.toks[*i..i + b - a] == m.toks[a..b]);
                (did(&pr::take_until_range(lit(a, b)).parse_stream(s), addr), found.ok_or(None))
            }
            Op::Recognize(t) => {
                let r = did(&pr::recognize(rep::skip_many(tok::satisfy(move |c: I::Token| t.run(0, c.num())))).parse_stream(s), addr);
                (r, ends(run(t)))
            }
            Op::Literal(k) => {
                let b = (at + k).min(n);
                (did(&pr::range(lit(at, b)).parse_stream(s), addr), Ok(b))
            }
            _ => unreachable!(),
        };
        let all: Vec<usize> = (at..=n).collect();
        match want {
            Ok(to) => self.expect(op, r, Ok(to), before),
            Err(Some(e)) => self.expect(op, r, Err(&[e]), before),
            Err(None) => self.expect(op, r, Err(&all), before),
        }
    }
}

fn tokens<I>(name: &'static str, unit: Unit, from: Pos, s: I, m: &Model, ops: &[Op], g: &mut Gen) -> Res
where
    I: Stream + 'static,
    I::Token: Tok,
    I::Position: ToPos,
    I::Error: ErrPos,
{
    let mut w = Walk { name, unit, from, m, g, s, at: 0, cps: vec![], trace: vec![] };
    w.here(&|| "nothing".into())?;
    for op in ops {
        w.trace.clear();
        if let Some(r) = w.step(op) {
            r?
        }
    }
    Ok(())
}
fn ranges<I>(name: &'static str, unit: Unit, from: Pos, s: I, m: &Model, lit: &dyn Fn(usize, usize) -> I::Range, ops: &[Op], g: &mut Gen) -> Res
where
    I: RangeStream + 'static,
    I::Token: Tok,
    I::Position: ToPos,
    I::Error: ErrPos,
    I::Range: Loc + Range + PartialEq,
{
    let mut w = Walk { name, unit, from, m, g, s, at: 0, cps: vec![], trace: vec![] };
    w.here(&|| "nothing".into())?;
    for op in ops {
        match op {
            Op::Range(_) | Op::While(_) | Op::While1(_) | Op::Take(_) | Op::TakeUntil(..) | Op::Recognize(_) | Op::Literal(_) => {
                w.range_step(op, lit)?
            }
            _ => {
                if let Some(r) = w.step(op) {
                    r?
                }
            }
        }
    }
    Ok(())
}

struct Case {
    d: Data,
    from: Pos,
    ops: Vec<Op>,
}
impl Case {
    fn src(&self) -> SourcePosition {
        SourcePosition { line: self.from.0 as i32, column: self.from.1 as i32 }
    }
    fn idx(&self) -> IndexPositioner {
        IndexPositioner::new_with_position(self.from.0 as usize)
    }
}
type Start = fn(&Case) -> Pos;
const ZERO: Start = |_| (0, 0);
const ONE: Start = |_| (1, 1);
const FROM: Start = |c| c.from;

macro_rules! kinds {
    ($( $name: literal, $how: ident, $data: ident, $partial: expr, $unit: expr, $from: expr, |$c: ident| $make: expr; )*) => {
        const KINDS: &[(&str, fn(&Case, &mut Gen) -> Res)] = &[ $( ($name, |c: &Case, g| {
            let $c = c;
            let s = $make;
            kinds!(@m $data, m, c, $partial);
            kinds!(@go $how, $data, $name, $unit, ($from)(c), s, m, c, g)
        }), )* ];
    };
    (@m text, $m: ident, $c: ident, $p: expr) => { let $m = Model::text(&$c.d, $p); };
    (@m $f: ident, $m: ident, $c: ident, $p: expr) => { let $m = Model::slice(&$c.d.$f, $p); };
    (@go tok, $f: ident, $n: expr, $u: expr, $from: expr, $s: ident, $m: ident, $c: ident, $g: ident) => { tokens($n, $u, $from, $s, &$m, &$c.ops, $g) };
    (@go rng, text, $n: expr, $u: expr, $from: expr, $s: ident, $m: ident, $c: ident, $g: ident) => {
        ranges($n, $u, $from, $s, &$m, &|a, b| &text(&$c.d)[$m.units[a]..$m.units[b]], &$c.ops, $g)
    };
    (@go rng, $f: ident, $n: expr, $u: expr, $from: expr, $s: ident, $m: ident, $c: ident, $g: ident) => {
        ranges($n, $u, $from, $s, &$m, &|a, b| &sl(&$c.d.$f)[a..b], &$c.ops, $g)
    };
}
type Rich<S> = easy::Stream<S>;
fn buf<S: Positioned>(s: S, n: usize) -> buffered::Stream<S>
where
    S::Token: Clone,
{
    buffered::Stream::new(s, n + 1)
}
kinds! {
    "str", rng, text, false, Unit::Bytes, ZERO, |c| text(&c.d);
    "easy str", rng, text, false, Unit::Bytes, ZERO, |c| Rich::from(text(&c.d));
    "easy [char]", rng, chars, false, Unit::Bytes, ZERO, |c| Rich::from(sl(&c.d.chars));
    "easy [u64] partial", rng, wide, true, Unit::Bytes, ZERO, |c| Rich::from(PartialStream(sl(&c.d.wide)));
    "easy SliceStream<String>", rng, strings, false, Unit::Bytes, ZERO, |c| Rich::from(SliceStream(sl(&c.d.strings)));
    "position str", rng, text, false, Unit::Source, ONE, |c| position::Stream::new(text(&c.d));
    "easy position str", rng, text, false, Unit::Source, FROM, |c| Rich::from(position::Stream::with_positioner(text(&c.d), c.src()));
    "easy position partial str", rng, text, true, Unit::Source, ONE, |c| Rich::from(position::Stream::with_positioner(PartialStream(text(&c.d)), SourcePosition::new()));
    "easy index str", rng, text, false, Unit::Index, FROM, |c| Rich::from(position::Stream::with_positioner(text(&c.d), c.idx()));
    "easy index [u8]", rng, bytes, false, Unit::Index, ZERO, |c| Rich::from(position::Stream::new(sl(&c.d.bytes)));
    "easy index SliceStream<String>", rng, strings, false, Unit::Index, ZERO, |c| Rich::from(position::Stream::new(SliceStream(sl(&c.d.strings))));
    "easy source [u8]", tok, bytes, false, Unit::Source, FROM, |c| Rich::from(position::Stream::with_positioner(sl(&c.d.bytes), c.src()));
    "easy source [char]", tok, chars, false, Unit::Source, ONE, |c| Rich::from(position::Stream::with_positioner(sl(&c.d.chars), SourcePosition::new()));
    "easy seen str", rng, text, false, Unit::Seen, ZERO, |c| Rich::from(position::Stream::with_positioner(text(&c.d), Seen::default()));
    "easy seen partial [u8]", rng, bytes, true, Unit::Seen, ZERO, |c| Rich::from(position::Stream::with_positioner(MaybePartialStream(sl(&c.d.bytes), true), Seen::default()));
    "seen state [char]", rng, chars, false, Unit::Seen, ZERO, |c| position::Stream::with_positioner(state::Stream { stream: sl(&c.d.chars), state: 3 }, Seen::default());
    "state easy position str", rng, text, false, Unit::Source, ONE, |c| state::Stream { stream: Rich::from(position::Stream::new(text(&c.d))), state: 1 };
    "span easy position str", rng, text, false, Unit::Source, FROM, |c| span::Stream::<_, easy::Errors<char, &'static str, Span<_>>>::from(Rich::from(position::Stream::with_positioner(text(&c.d), c.src())));
    "span easy str", rng, text, false, Unit::Bytes, ZERO, |c| span::Stream::<_, easy::Errors<char, &'static str, Span<_>>>::from(Rich::from(text(&c.d)));
    "complete position partial", rng, text, false, Unit::Index, FROM, |c| CompleteStream(position::Stream::with_positioner(PartialStream(text(&c.d)), c.idx()));
    "buffered easy position iterator", tok, chars, false, Unit::Source, FROM, |c| buf(Rich::from(position::Stream::with_positioner(IteratorStream::new(sl(&c.d.chars).iter().copied()), c.src())), c.d.chars.len());
    "buffered index iterator", tok, bytes, false, Unit::Index, ZERO, |c| buf(position::Stream::new(IteratorStream::new(sl(&c.d.bytes).iter())), c.d.chars.len());
    "buffered seen reader", tok, bytes, false, Unit::Seen, ZERO, |c| buf(position::Stream::with_positioner(read::Stream::new(sl(&c.d.bytes)), Seen::default()), c.d.chars.len());
    "buffered reader", tok, bytes, false, Unit::Index, ZERO, |c| buf(position::Stream::new(read::Stream::new(sl(&c.d.bytes))), c.d.chars.len());
    "buffered easy [u8]", tok, bytes, false, Unit::Bytes, ZERO, |c| buf(Rich::from(sl(&c.d.bytes)), c.d.chars.len());
    "state span buffered easy source reader", tok, bytes, false, Unit::Source, ONE, |c| state::Stream { stream: span::Stream::<_, easy::Errors<u8, &'static [u8], Span<SourcePosition>>>::from(buf(Rich::from(position::Stream::with_positioner(sl(&c.d.bytes), SourcePosition::new())), c.d.chars.len())), state: () };
    "seen by buffered", tok, chars, false, Unit::Seen, ZERO, |c| position::Stream::with_positioner(buf(position::Stream::new(IteratorStream::new(sl(&c.d.chars).iter().copied())), c.d.chars.len()), Seen::default());
}

fn walk(g: &mut Gen, n: usize) -> Res {
    const ALPHA: [char; 9] = ['a', '\n', 'b', '\n', '\r', '\t', 'é', '漢', '\u{1F980}'];
    let alpha = 2 + g.below(8) as usize;
    let d = gen_data(g, n, &ALPHA[..alpha]);
    let k = g.below(KINDS.len() as u32) as usize;
    let units = if KINDS[k].0.contains("str") { d.text.len() } else { n };
    let from = (1 + g.below(50) as i64, 1 + g.below(50) as i64);
    let ops: Vec<Op> = (0..g.small(1, 12)).map(|_| gen_op(g, n, units)).collect();
    let c = Case { d, from, ops };
    g.describe(|| format!("{}: {:?} on {:?} from {:?}", KINDS[k].0, c.ops, c.d.text, c.from));
    if c.d.text.contains('\n') && c.ops.len() > 2 {
        g.nontrivial(hash_str(&format!("{}{}{:?}", k, c.d.text, c.ops)));
    }
    g.label(KINDS[k].0);
    (KINDS[k].1)(&c, g)
}
fn short(g: &mut Gen) -> Res {
    let n = g.small(0, 10);
    walk(g, n)
}
fn long(g: &mut Gen) -> Res {
    let n = g.below(80) as usize;
    walk(g, n)
}

// ---- whole grammars: the end and the error positions of all streams describe the same token

/// All positioners at once
#[derive(Clone, Debug, Default)]
struct All(IndexPositioner, SourcePosition, Seen);
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord, Default)]
struct AllPos(usize, SourcePosition, Seen);
type Ch = char;
impl Positioner<char> for All {
    type Position = AllPos;
    type Checkpoint = (IndexPositioner, SourcePosition, Seen);
    fn position(&self) -> AllPos {
        AllPos(Positioner::<Ch>::position(&self.0), Positioner::<Ch>::position(&self.1), Positioner::<Ch>::position(&self.2))
    }
    fn update(&mut self, t: &char) {
        self.0.update(t);
        self.1.update(t);
        self.2.update(t);
    }
    fn checkpoint(&self) -> Self::Checkpoint {
        (Positioner::<Ch>::checkpoint(&self.0), Positioner::<Ch>::checkpoint(&self.1), Positioner::<Ch>::checkpoint(&self.2))
    }
    fn reset(&mut self, c: Self::Checkpoint) {
        Positioner::<Ch>::reset(&mut self.0, c.0);
        Positioner::<Ch>::reset(&mut self.1, c.1);
        Positioner::<Ch>::reset(&mut self.2, c.2);
    }
}
impl RangePositioner<char, &'static str> for All {
    fn update_range(&mut self, r: &&'static str) {
        RangePositioner::<Ch, _>::update_range(&mut self.0, r);
        RangePositioner::<Ch, _>::update_range(&mut self.1, r);
        RangePositioner::<Ch, _>::update_range(&mut self.2, r);
    }
}

type EasyAll = easy::Stream<position::Stream<&'static str, All>>;
type SpanAll = span::Stream<EasyAll, easy::Errors<char, &'static str, Span<AllPos>>>;
type BufAll = buffered::Stream<easy::Stream<position::Stream<IteratorStream<std::str::Chars<'static>>, All>>>;
str_src!(SpanAll, Span::from(AllPos::default()));
tok_src!(BufAll, AllPos::default());

/// The position at a token, if all positioners agree
fn at_token(p: &AllPos, m: &Model) -> Result<usize, String> {
    if p.0 >= m.bytes.len() {
        return Err(format!("{:?} beyond the end", p));
    }
    let src = Unit::Source.at(m, p.0, (1, 1));
    if p.1.to_pos(0) != src {
        return Err(format!("at index {} with line and column {:?} instead of {:?}", p.0, p.1, src));
    }
    if p.2.to_pos(0) != Unit::Seen.at(m, p.0, (0, 0)) {
        return Err(format!("at index {} after other tokens than these", p.0));
    }
    Ok(p.0)
}

#[derive(Debug, PartialEq, Clone, Copy)]
struct End {
    ok: bool,
    at: usize,
}
trait AtToken {
    fn index(&self, m: &Model) -> Result<usize, String>;
}
impl AtToken for AllPos {
    fn index(&self, m: &Model) -> Result<usize, String> {
        at_token(self, m)
    }
}
impl AtToken for Span<AllPos> {
    fn index(&self, m: &Model) -> Result<usize, String> {
        if self.start != self.end {
            return Err(format!("from {:?} to {:?}", self.start, self.end));
        }
        at_token(&self.start, m)
    }
}
fn end<I, R, P>(name: &str, a: &'static A, mut s: I, m: &Model) -> Result<End, String>
where
    I: Src + Positioned + StreamOnce<Token = char, Range = R, Position = P, Error = easy::Errors<char, R, P>>,
    P: AtToken + Ord + Clone,
    R: PartialEq + Clone,
{
    let r = build::<I>(a).parse_stream(&mut s);
    let ctx = |e| format!("{}: {}", name, e);
    let now = s.position().index(m).map_err(ctx)?;
    Ok(match r {
        CommitOk(_) | PeekOk(_) => End { ok: true, at: now },
        CommitErr(e) => End { ok: false, at: e.position.index(m).map_err(ctx)? },
        PeekErr(e) => End { ok: false, at: e.error.position.index(m).map_err(ctx)? },
    })
}

fn grammars(g: &mut Gen) -> Res {
    let o = Opts { range: g.bool(), ..Opts::full() };
    let depth = g.range(1, 4);
    let a = gen_ast(g, &o, depth);
    let mut text = gen_input(&a, g);
    if g.chance(1, 3) {
        let k = g.below(4) as usize;
        text = text.chars().enumerate().flat_map(|(i, c)| if i % 4 == k { vec!['\n', c] } else { vec![c] }).collect();
    }
    // errors of flat_map are made by the user
    if a.any(&|a| matches!(a, A::FlatMap(_))) {
        return Ok(());
    }
    g.describe(|| format!("{:?} on {:?}", a, text));
    let chars: Vec<char> = text.chars().collect();
    let d = Data { text: text.clone(), chars: chars.clone(), bytes: vec![], wide: vec![], unit: vec![], strings: vec![] };
    let m = Model::text(&d, false);
    let (sa, s) = unsafe { (lend(&a), lend_str(&d.text)) };
    let mut im = M::new(&chars);
    let want = im.run(&a);
    let e = end("span", sa, SpanAll::from(easy::Stream(position::Stream::with_positioner(s, All::default()))), &m)?;
    let i = e.at;
    g.checks += 2;
    if e.ok != matches!(want, R::Ok(..)) || e.ok && i != im.pos {
        return Err(format!("{:?}: {:?} instead of {:?} at {}", text, e, want, im.pos));
    }
    // range parsers and the tokens they are replaced with report at other places
    if !o.range && !a.any(&|a| matches!(a, A::RRecognize(_) | A::RRecognizeVal(_))) {
        g.checks += 1;
        let it = easy::Stream(position::Stream::with_positioner(IteratorStream::new(s.chars()), All::default()));
        let x = end("buffered", sa, buf(it, chars.len()), &m)?;
        if x != e {
            return Err(format!("{:?}: buffered ends with {:?} instead of {:?}", text, x, e));
        }
    }
    g.label(if e.ok { "accepted" } else { "rejected" });
    if i > 1 && text[..m.bytes[i]].contains('\n') {
        g.nontrivial(hash_str(&format!("{:?}|{}", a, text)));
        g.label("beyond_first_line");
    }
    Ok(())
}

// ---- translation of pointer positions

fn translate(g: &mut Gen) -> Res {
    let n = g.below(12) as usize;
    let d = gen_data(g, n, &CHARS);
    let i = g.below(n as u32 + 1) as usize;
    let j = g.below(n as u32 + 1) as usize;
    let (i, j) = (i.min(j), i.max(j));
    g.describe(|| format!("translate {}..{} of {:?}", i, j, d.text));
    g.checks += 6;
    let m = Model::text(&d, false);
    // the start of the input as given to the parser, which may itself lie within something larger
    let outer: &'static str = &text(&d)[m.bytes[i]..];
    let cut = j - i;
    let fail = tok::satisfy(|_: char| false);
    let e = (rep::skip_count_min_max(cut, cut, tok::any()), fail).easy_parse(outer).unwrap_err();
    let want = m.bytes[j] - m.bytes[i];
    if e.position.translate_position(outer) != want {
        return Err(format!("str: {} instead of {}", e.position.translate_position(outer), want));
    }
    if e.map_position(|p| p.translate_position(outer)).position != want {
        return Err("map_position".into());
    }
    let outer: &'static [u64] = &sl(&d.wide)[i..];
    let e = (rep::skip_count_min_max(cut, cut, tok::any()), tok::satisfy(|_: u64| false)).easy_parse(outer).unwrap_err();
    if e.position.translate_position(outer) != cut * 8 {
        return Err(format!("[u64]: {} instead of {}", e.position.translate_position(outer), cut * 8));
    }
    let outer: &'static [u8] = &sl(&d.bytes)[i..];
    let e = (pr::take(cut), tok::satisfy(|_: u8| false)).easy_parse(outer).unwrap_err();
    if e.position.translate_position(outer) != cut {
        return Err(format!("[u8]: {} instead of {}", e.position.translate_position(outer), cut));
    }
    let outer: &'static [String] = &sl(&d.strings)[i..];
    let e = (pr::take(cut), tok::satisfy(|_: &'static String| false)).easy_parse(SliceStream(outer)).unwrap_err();
    if e.position.translate_position(outer) != cut * std::mem::size_of::<String>() {
        return Err("SliceStream<String>".into());
    }
    // spans and spans of pointers
    let outer: &'static str = &text(&d)[m.bytes[i]..];
    let mut s = span::Stream::<_, easy::Errors<char, &'static str, Span<PointerOffset<str>>>>::from(easy::Stream(outer));
    let p = (combine::position(), rep::skip_count_min_max(cut, cut, tok::any::<_>()), combine::position())
        .map(|(a, _, b): (Span<PointerOffset<str>>, (), Span<PointerOffset<str>>)| Span { start: a.start, end: b.end })
        .parse_stream(&mut s)
        .into_result();
    match p {
        Ok((p, _)) => {
            let p = p.map(|p| p.translate_position(outer));
            if p != (Span { start: 0, end: want }) {
                return Err(format!("span {:?} instead of 0..{}", p, want));
            }
        }
        Err(_) => return Err("span: failed".into()),
    }
    if n > 2 && i < j {
        g.nontrivial(hash_str(&format!("{}{}{}", d.text, i, j)));
    }
    Ok(())
}

fn main() {
    h::runner::main(&Property {
        id: "C10",
        rule: "walk: at least three operations over text with a line break; grammars: the end or the error lies beyond the first line; translate: something consumed",
        assumptions: &[
            "which token an error is reported at is decided by C12; here all positions of one failure must describe the same token",
            "an error from a search that finds nothing may lie anywhere in what it looked at",
        ],
        suites: &[
            Suite { name: "short", quick: 1_500_000, thorough: 30_000_000, f: short },
            Suite { name: "long", quick: 300_000, thorough: 6_000_000, f: long },
            Suite { name: "grammars", quick: 300_000, thorough: 6_000_000, f: grammars },
            Suite { name: "translate", quick: 200_000, thorough: 4_000_000, f: translate },
        ],
        known: &[],
    })
}
