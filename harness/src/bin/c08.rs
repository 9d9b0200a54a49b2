#[path = "../h/mod.rs"]
#[macro_use]
mod h;
#[path = "../h/slice.rs"]
mod slice;
use combine::error::StreamError;
use combine::stream::position::{self, IndexPositioner, SourcePosition};
use combine::stream::{
    self, buffered, easy, span, state, CompleteStream, IteratorStream, MaybePartialStream, PartialStream, Positioned,
    Range, RangeStream, RangeStreamOnce, ResetStream, SliceStream, Stream, StreamOnce,
};
use combine::ParseResult::*;
use h::build::{lend_slice, lend_str};
use h::gen::*;
use h::runner::*;
use slice::*;

#[derive(Debug, Clone, Copy)]
enum Op {
    Uncons,
    Range(usize),
    While(Test),
    While1(Test),
    Save,
    Back(usize),
    Dist(usize),
    Rest,
    Pos,
    Eof,
    /// the free functions of combine::stream
    FUncons,
    FRange(usize),
    FWhile(Test),
    FWhile1(Test),
}

fn gen_op(g: &mut Gen, n: usize, units: usize, ranges: bool) -> Op {
    let size = |g: &mut Gen| if g.bool() { g.below(4) as usize } else { g.below(units as u32 + 2) as usize };
    let r = if ranges { 1 } else { 0 };
    match g.weighted(&[6, 5 * r, 4 * r, 3 * r, 4, 5, 3 * r, 2 * r, 1, 1, 1, 2 * r, 2 * r, 2 * r]) {
        0 => Op::Uncons,
        1 => Op::Range(size(g)),
        2 => Op::While(gen_test(g, n)),
        3 => Op::While1(gen_test(g, n)),
        4 => Op::Save,
        5 => Op::Back(g.below(8) as usize),
        6 => Op::Dist(g.below(8) as usize),
        7 => Op::Rest,
        8 => Op::Pos,
        9 => Op::Eof,
        10 => Op::FUncons,
        11 => Op::FRange(size(g)),
        12 => Op::FWhile(gen_test(g, n)),
        _ => Op::FWhile1(gen_test(g, n)),
    }
}

/// The operations every resettable stream has
trait Go<S: Stream> {
    fn op(&mut self, s: &mut S, op: Op, at: &mut usize, saved: &[(usize, S::Checkpoint)], m: &Model) -> Res;
}
struct NoRanges;
impl<S: Stream> Go<S> for NoRanges {
    fn op(&mut self, _: &mut S, _: Op, _: &mut usize, _: &[(usize, S::Checkpoint)], _: &Model) -> Res {
        unreachable!()
    }
}
struct WithRanges;
impl<S> Go<S> for WithRanges
where
    S: RangeStream,
    S::Token: Tok,
    S::Range: Loc + Range,
{
    fn op(&mut self, s: &mut S, op: Op, at: &mut usize, saved: &[(usize, S::Checkpoint)], m: &Model) -> Res {
        use combine::error::ParseError;
        let n = m.toks.len();
        match op {
            Op::Range(k) => match (s.uncons_range(k), m.size(*at, k)) {
                (Ok(r), Size::Fits(to)) => {
                    m.range(&r, *at, to)?;
                    if r.len() != k || r.token_count() != to - *at || r.is_empty() != (k == 0) {
                        return Err(format!("a range of {} units has len {} and {} tokens", k, r.len(), r.token_count()));
                    }
                    *at = to;
                }
                (Err(e), Size::Short) if e.is_unexpected_end_of_input() => {}
                (Err(e), Size::Within) if !e.is_unexpected_end_of_input() => {}
                (r, _) => return Err(format!("uncons_range({}): {:?}", k, r.map(|r| r.nums()).map_err(|e| e.is_unexpected_end_of_input()))),
            },
            Op::While(t) => {
                let (to, seen) = m.span(*at, t);
                let mut got = vec![];
                let mut i = 0;
                match s.uncons_while(|x| {
                    got.push(x.num());
                    i += 1;
                    t.run(i - 1, x.num())
                }) {
                    Ok(r) => m.range(&r, *at, to)?,
                    Err(_) => return Err("uncons_while failed".into()),
                }
                if got != seen {
                    return Err(format!("uncons_while tested {:?} instead of {:?}", got, seen));
                }
                *at = to;
            }
            Op::While1(t) => {
                let (to, seen) = m.span(*at, t);
                let mut got = vec![];
                let mut i = 0;
                match s.uncons_while1(|x| {
                    got.push(x.num());
                    i += 1;
                    t.run(i - 1, x.num())
                }) {
                    CommitOk(r) if to > *at => m.range(&r, *at, to)?,
                    PeekErr(e) if to == *at => {
                        if e.error.is_unexpected_end_of_input() != (*at == n) {
                            return Err("uncons_while1 mistakes the end of input".into());
                        }
                    }
                    r => {
                        return Err(format!(
                            "uncons_while1 over {} tokens: {}",
                            to - *at,
                            match r {
                                CommitOk(_) => "CommitOk",
                                PeekOk(_) => "PeekOk",
                                CommitErr(_) => "CommitErr",
                                PeekErr(_) => "PeekErr",
                            }
                        ))
                    }
                }
                if got != seen {
                    return Err(format!("uncons_while1 tested {:?} instead of {:?}", got, seen));
                }
                *at = to;
            }
            Op::Dist(k) => {
                let before: Vec<_> = saved.iter().filter(|x| x.0 <= *at).collect();
                if let Some((i, c)) = before.get(k) {
                    let d = s.distance(c);
                    if d != m.units[*at] - m.units[*i] {
                        return Err(format!("distance {} after consuming {}", d, m.units[*at] - m.units[*i]));
                    }
                }
            }
            Op::Rest => m.range(&s.range(), *at, n)?,
            Op::FRange(k) => match (stream::uncons_range(s, k), m.size(*at, k)) {
                (CommitOk(r), Size::Fits(to)) if k > 0 => {
                    m.range(&r, *at, to)?;
                    *at = to;
                }
                (PeekOk(r), Size::Fits(to)) if k == 0 => m.range(&r, *at, to)?,
                (CommitErr(e), Size::Short) if m.partial && e.is_unexpected_end_of_input() => {}
                (PeekErr(e), Size::Short) if !m.partial && e.error.is_unexpected_end_of_input() => {}
                (PeekErr(e), Size::Within) if !e.error.is_unexpected_end_of_input() => {}
                _ => return Err(format!("stream::uncons_range({})", k)),
            },
            Op::FWhile(t) | Op::FWhile1(t) => {
                let one = matches!(op, Op::FWhile1(_));
                let (to, _) = m.span(*at, t);
                let mut i = 0;
                let f = |x: S::Token| {
                    i += 1;
                    t.run(i - 1, x.num())
                };
                let r = if one { stream::uncons_while1(s, f) } else { stream::uncons_while(s, f) };
                let wait = m.partial && to == n;
                match r {
                    CommitErr(e) if wait && e.is_unexpected_end_of_input() => {}
                    CommitOk(r) if !wait && to > *at => m.range(&r, *at, to)?,
                    PeekOk(r) if !wait && to == *at && !one => m.range(&r, *at, to)?,
                    PeekErr(_) if !wait && to == *at && one => {}
                    _ => return Err(format!("{:?} over {} tokens", op, to - *at)),
                }
                *at = to;
            }
            _ => unreachable!(),
        }
        Ok(())
    }
}

fn history<S, G>(name: &str, s: &mut S, fresh: &mut S, mut go: G, m: &Model, ops: &[Op], g: &mut Gen) -> Res
where
    S: Stream,
    S::Token: Tok,
    G: Go<S>,
{
    use combine::error::ParseError;
    let n = m.toks.len();
    // the position before every token and at the end, token by token
    let mut pos = vec![fresh.position()];
    while fresh.uncons().is_ok() {
        pos.push(fresh.position());
    }
    if pos.len() != n + 1 {
        return Err(format!("{}: {} tokens instead of {}", name, pos.len() - 1, n));
    }
    let mut at = 0;
    let mut saved: Vec<(usize, S::Checkpoint)> = vec![(0, s.checkpoint())];
    let (mut resets, mut moved) = (0, 0);
    for (i, op) in ops.iter().enumerate() {
        let was = at;
        let r: Res = (|| {
            match *op {
                Op::Uncons => match s.uncons() {
                    Ok(t) if at < n && t.num() == m.toks[at] => at += 1,
                    Err(e) if at == n && e.is_unexpected_end_of_input() => {}
                    r => return Err(format!("uncons: {:?}", r.map(|t| t.num()).map_err(|e| e.is_unexpected_end_of_input()))),
                },
                Op::FUncons => match stream::uncons(s) {
                    CommitOk(t) if at < n && t.num() == m.toks[at] => at += 1,
                    CommitErr(e) if at == n && m.partial && e.is_unexpected_end_of_input() => {}
                    PeekErr(e) if at == n && !m.partial && e.error.is_unexpected_end_of_input() => {}
                    _ => return Err("stream::uncons".into()),
                },
                Op::Save => saved.push((at, s.checkpoint())),
                Op::Back(k) => {
                    let k = saved.len() - 1 - k.min(saved.len() - 1);
                    let (i, c) = saved[k].clone();
                    if s.reset(c).is_err() {
                        return Err("reset failed".into());
                    }
                    if i != at {
                        resets += 1;
                    }
                    at = i;
                }
                Op::Pos => {}
                Op::Eof => {
                    if stream::input_at_eof(s) != (at == n) {
                        return Err("input_at_eof".into());
                    }
                }
                _ => go.op(s, *op, &mut at, &saved, m)?,
            }
            if s.position() != pos[at] {
                return Err(format!("the position after {} tokens isn't the one token-by-token reading gives", at));
            }
            if s.is_partial() != m.partial {
                return Err("is_partial".into());
            }
            Ok(())
        })();
        g.checks += 1;
        if at > was {
            moved += 1;
        }
        r.map_err(|e| format!("{} over {:?}, operation {} {:?} at token {}: {}", name, m.toks, i, op, was, e))?;
    }
    if resets > 0 && moved > 1 {
        g.nontrivial(hash_str(&format!("{}{:?}{:?}", name, m.toks, ops)));
    }
    Ok(())
}

macro_rules! kinds {
    ($( $name: expr, $data: ident, $partial: expr, $go: expr, |$d: ident| $make: expr; )*) => {
        const KINDS: &[(&str, fn(&Data, &[Op], &mut Gen) -> Res)] = &[ $( ($name, |d: &Data, ops, g| {
            let m = kinds!(@model $data, d, $partial);
            let $d = d;
            let mut s = $make;
            let mut fresh = $make;
            history($name, &mut s, &mut fresh, $go, &m, ops, g)
        }), )* ];
    };
    (@model text, $d: expr, $p: expr) => { Model::text($d, $p) };
    (@model $f: ident, $d: expr, $p: expr) => { Model::slice(&$d.$f, $p) };
}
type Rich<S> = easy::Stream<S>;
type SpanErr<T, R, P> = easy::Errors<T, R, span::Span<P>>;

kinds! {
    "str", text, false, WithRanges, |d| text(d);
    "[char]", chars, false, WithRanges, |d| sl(&d.chars);
    "[u8]", bytes, false, WithRanges, |d| sl(&d.bytes);
    "[u64]", wide, false, WithRanges, |d| sl(&d.wide);
    "[String] cloned", strings, false, WithRanges, |d| sl(&d.strings);
    "SliceStream<String>", strings, false, WithRanges, |d| SliceStream(sl(&d.strings));
    "SliceStream<u8>", bytes, false, WithRanges, |d| SliceStream(sl(&d.bytes));
    "partial str", text, true, WithRanges, |d| PartialStream(text(d));
    "partial [u8]", bytes, true, WithRanges, |d| PartialStream(sl(&d.bytes));
    "complete partial str", text, false, WithRanges, |d| CompleteStream(PartialStream(text(d)));
    "maybe partial [char]", chars, true, WithRanges, |d| MaybePartialStream(sl(&d.chars), true);
    "maybe partial str, complete", text, false, WithRanges, |d| MaybePartialStream(text(d), false);
    "easy str", text, false, WithRanges, |d| Rich::from(text(d));
    "easy partial [u8]", bytes, true, WithRanges, |d| Rich::from(PartialStream(sl(&d.bytes)));
    "position str", text, false, WithRanges, |d| position::Stream::new(text(d));
    "position str index", text, false, WithRanges, |d| position::Stream::with_positioner(text(d), IndexPositioner::new());
    "position [char] source", chars, false, NoRanges, |d| position::Stream::with_positioner(sl(&d.chars), SourcePosition::new());
    "position [u8] source", bytes, false, NoRanges, |d| position::Stream::with_positioner(sl(&d.bytes), SourcePosition::new());
    "position [u8]", bytes, false, WithRanges, |d| position::Stream::new(sl(&d.bytes));
    "position SliceStream<String>", strings, false, WithRanges, |d| position::Stream::new(SliceStream(sl(&d.strings)));
    "easy position str", text, false, WithRanges, |d| Rich::from(position::Stream::new(text(d)));
    "partial position str", text, true, WithRanges, |d| PartialStream(position::Stream::new(text(d)));
    "position partial str", text, true, WithRanges, |d| position::Stream::with_positioner(PartialStream(text(d)), SourcePosition::new());
    "state str", text, false, WithRanges, |d| state::Stream { stream: text(d), state: 7 };
    "state easy position str", text, false, WithRanges, |d| state::Stream { stream: Rich::from(position::Stream::new(text(d))), state: () };
    "position state [u8]", bytes, false, WithRanges, |d| position::Stream::with_positioner(state::Stream { stream: sl(&d.bytes), state: 1u8 }, IndexPositioner::new());
    "span str", text, false, WithRanges, |d| span::Stream::<_, SpanErr<char, &'static str, _>>::from(Rich::from(text(d)));
    "span position partial str", text, true, WithRanges, |d| span::Stream::<_, SpanErr<char, &'static str, _>>::from(Rich::from(position::Stream::with_positioner(PartialStream(text(d)), SourcePosition::new())));
    "iterator", chars, false, NoRanges, |d| position::Stream::with_positioner(IteratorStream::new(sl(&d.chars).iter().cloned()), IndexPositioner::new());
    "iterator source position", chars, false, NoRanges, |d| position::Stream::new(IteratorStream::new(text(d).chars()));
    "buffered iterator", chars, false, NoRanges, |d| buffered::Stream::new(position::Stream::new(IteratorStream::new(sl(&d.chars).iter().cloned())), 200);
    "buffered easy partial position str", text, true, NoRanges, |d| buffered::Stream::new(Rich::from(PartialStream(position::Stream::new(text(d)))), 200);
    "easy buffered state read", bytes, false, NoRanges, |d| buffered::Stream::new(Rich::from(state::Stream { stream: position::Stream::with_positioner(combine::stream::read::Stream::new(sl(&d.bytes)), IndexPositioner::new()), state: 0 }), 200);
    "partial buffered read", bytes, true, NoRanges, |d| PartialStream(buffered::Stream::new(position::Stream::new(combine::stream::read::Stream::new(sl(&d.bytes))), 200));
}

/// The same histories through mutable references, nested wrappers and the unit type
fn by_ref(d: &Data, ops: &[Op], g: &mut Gen, k: u32) -> Res {
    match k {
        0 => {
            let m = kinds!(@model text, d, false);
            let (mut a, mut b) = (text(d), text(d));
            let (mut s, mut f) = (&mut a, &mut b);
            history("&mut str", &mut s, &mut f, WithRanges, &m, ops, g)
        }
        1 => {
            let m = kinds!(@model bytes, d, true);
            let (mut a, mut b) = (PartialStream(sl(&d.bytes)), PartialStream(sl(&d.bytes)));
            let (mut s, mut f) = (Rich::from(&mut a), Rich::from(&mut b));
            history("easy &mut partial [u8]", &mut s, &mut f, WithRanges, &m, ops, g)
        }
        2 => {
            let m = kinds!(@model text, d, false);
            let (mut a, mut b) = (PartialStream(position::Stream::new(text(d))), PartialStream(position::Stream::new(text(d))));
            let s: &mut CompleteStream<_> = (&mut a).into();
            let f: &mut CompleteStream<_> = (&mut b).into();
            history("&mut complete of &mut partial position str", s, f, WithRanges, &m, ops, g)
        }
        3 => {
            let m = kinds!(@model unit, d, false);
            let (mut s, mut f) = (sl(&d.unit), sl(&d.unit));
            history("[()]", &mut s, &mut f, WithRanges, &m, ops, g)
        }
        _ => {
            let m = kinds!(@model strings, d, true);
            let (mut a, mut b) = (SliceStream(sl(&d.strings)), SliceStream(sl(&d.strings)));
            let (mut s, mut f) = (
                position::Stream::with_positioner(MaybePartialStream(&mut a, true), IndexPositioner::new()),
                position::Stream::with_positioner(MaybePartialStream(&mut b, true), IndexPositioner::new()),
            );
            history("position maybe partial &mut SliceStream", &mut s, &mut f, WithRanges, &m, ops, g)
        }
    }
}

fn case(g: &mut Gen, n: usize, nops: usize) -> Res {
    let d = gen_data(g, n, &CHARS);
    let k = g.below(KINDS.len() as u32 + 5);
    let ki = k as usize;
    let ranges = ki >= KINDS.len() || !(KINDS[ki].0.contains("iterator") || KINDS[ki].0.contains("buffered") || KINDS[ki].0.ends_with("] source"));
    let units = if ki < KINDS.len() && KINDS[ki].0.contains("str") { d.text.len() } else { n };
    let ops: Vec<Op> = (0..nops).map(|_| gen_op(g, n, units, ranges)).collect();
    g.describe(|| format!("{}: {:?} {:?}", if ki < KINDS.len() { KINDS[ki].0 } else { "by reference" }, d.text, ops));
    if ki < KINDS.len() {
        g.label(KINDS[ki].0);
        (KINDS[ki].1)(&d, &ops, g)
    } else {
        g.label("by reference");
        by_ref(&d, &ops, g, k - KINDS.len() as u32)
    }
}
fn short(g: &mut Gen) -> Res {
    let n = g.small(0, 8);
    let k = 3 + g.small(0, 14);
    case(g, n, k)
}
fn long(g: &mut Gen) -> Res {
    let n = g.below(60) as usize;
    let k = 10 + g.below(30) as usize;
    case(g, n, k)
}

fn main() {
    h::runner::main(&Property {
        id: "C08",
        rule: "the history moves forward more than once and back at least once; distinct by stream, tokens and operations",
        assumptions: &["up to 60 tokens and 40 operations per history", "a buffered stream's lookahead covers the whole input (C11 is about the limit)"],
        suites: &[
            Suite { name: "short", quick: 2_000_000, thorough: 60_000_000, f: short },
            Suite { name: "long", quick: 1_000_000, thorough: 20_000_000, f: long },
        ],
        known: &[],
    })
}
