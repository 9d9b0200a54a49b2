#[path = "../h/mod.rs"]
#[macro_use]
mod h;
use combine::error::UnexpectedParse;
use combine::parser::byte::num;
use combine::parser::combinator::{any_partial_state, AnyPartialState};
use combine::parser::range::{recognize, take};
use combine::stream::position::IndexPositioner;
use combine::stream::{buffered, easy, position, read, span, state, CompleteStream, IteratorStream, MaybePartialStream, PartialStream, RangeStream};
use combine::{attempt, count, count_min_max, eof, look_ahead, many, optional, ParseResult::*, Parser, Stream};
use h::gen::*;
use h::runner::*;

type N<'a, I> = Box<dyn Parser<I, Output = u64, PartialState = AnyPartialState> + 'a>;

const NAMES: [&str; 16] = [
    "be_u16", "le_u16", "be_u32", "le_u32", "be_u64", "le_u64", "be_i16", "le_i16", "be_i32", "le_i32", "be_i64", "le_i64", "be_f32", "le_f32",
    "be_f64", "le_f64",
];
const WIDTH: [usize; 16] = [2, 2, 4, 4, 8, 8, 2, 2, 4, 4, 8, 8, 4, 4, 8, 8];

/// The bits of the number that the parser returns
fn parser_of<'a, I>(k: usize) -> N<'a, I>
where
    I: Stream<Token = u8> + 'a,
{
    macro_rules! b {
        ($f: ident, $m: expr) => {
            Box::new(any_partial_state(num::$f().map($m)))
        };
    }
    match k {
        0 => b!(be_u16, |x: u16| x as u64),
        1 => b!(le_u16, |x: u16| x as u64),
        2 => b!(be_u32, |x: u32| x as u64),
        3 => b!(le_u32, |x: u32| x as u64),
        4 => b!(be_u64, |x: u64| x),
        5 => b!(le_u64, |x: u64| x),
        6 => b!(be_i16, |x: i16| x as u16 as u64),
        7 => b!(le_i16, |x: i16| x as u16 as u64),
        8 => b!(be_i32, |x: i32| x as u32 as u64),
        9 => b!(le_i32, |x: i32| x as u32 as u64),
        10 => b!(be_i64, |x: i64| x as u64),
        11 => b!(le_i64, |x: i64| x as u64),
        12 => b!(be_f32, |x: f32| x.to_bits() as u64),
        13 => b!(le_f32, |x: f32| x.to_bits() as u64),
        14 => b!(be_f64, |x: f64| x.to_bits()),
        _ => b!(le_f64, |x: f64| x.to_bits()),
    }
}

/// The standard encoding, byte by byte
fn encode(k: usize, bits: u64, out: &mut Vec<u8>) {
    let w = WIDTH[k];
    for i in 0..w {
        let shift = if k % 2 == 0 { w - 1 - i } else { i };
        out.push((bits >> (8 * shift)) as u8);
    }
}
fn mask(k: usize) -> u64 {
    u64::MAX >> (64 - 8 * WIDTH[k])
}

fn gen_bits(g: &mut Gen, k: usize) -> u64 {
    let w = 8 * WIDTH[k] as u32;
    let v = match g.below(8) {
        0 => g.below(4) as u64,
        1 => u64::MAX - g.below(4) as u64,
        // around each power of two, with the sign bit among them
        2 => (1u64 << g.below(w)).wrapping_sub(g.below(3) as u64),
        // a different byte in each place
        3 => 0x0102_0304_0506_0708u64.rotate_left(8 * g.below(8)),
        // special floating point numbers
        4 if k >= 14 => g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 5e-324, f64::MAX]).to_bits(),
        4 if k >= 12 => g.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, 1e-45, f32::MAX]).to_bits() as u64,
        // not a number, with a payload
        5 if k >= 14 => 0x7ff0_0000_0000_0000 | g.u64() & 0x800f_ffff_ffff_ffff,
        5 if k >= 12 => 0x7f80_0000 | g.u32() as u64 & 0x807f_ffff,
        6 => {
            let b = g.pick(&[0u64, 0xff, 0x80, 0x7f, b'\n' as u64]).clone();
            b * 0x0101_0101_0101_0101
        }
        _ => g.u64(),
    };
    v & mask(k)
}

#[derive(Debug)]
struct Case {
    nums: Vec<(usize, u64)>,
    bytes: Vec<u8>,
    /// start of each number, and the end
    at: Vec<usize>,
    kind: u32,
}

fn gen_case(g: &mut Gen) -> Case {
    let n = g.range(1, 5);
    let nums: Vec<(usize, u64)> = (0..n)
        .map(|_| {
            let k = g.below(16) as usize;
            (k, gen_bits(g, k))
        })
        .collect();
    let mut bytes = vec![];
    let mut at = vec![];
    for (k, v) in &nums {
        at.push(bytes.len());
        encode(*k, *v, &mut bytes);
    }
    at.push(bytes.len());
    if g.chance(1, 3) {
        // truncated somewhere
        let to = g.below(bytes.len() as u32) as usize;
        bytes.truncate(to);
    } else {
        for _ in 0..g.small(0, 9) {
            let b = g.below(256) as u8;
            bytes.push(b);
        }
    }
    Case { nums, bytes, at, kind: g.below(14) }
}

/// Number by number, with other parsers that look at them in between
fn steps<I>(mut input: I, partial: bool, c: &Case, g: &mut Gen) -> Res
where
    I: Stream<Token = u8> + combine::Positioned,
    I::Position: PartialEq + std::fmt::Debug,
{
    let eoi = |e: &I::Error| combine::ParseError::is_unexpected_end_of_input(e);
    for (i, &(k, v)) in c.nums.iter().enumerate() {
        g.checks += 1;
        let fits = c.at[i + 1] <= c.bytes.len();
        let here = format!("number {} ({} at byte {})", i, NAMES[k], c.at[i]);
        let way = g.below(5);
        let pos = input.position();
        let mut p = parser_of::<I>(k);
        let r = match way {
            0 => p.parse_stream(&mut input),
            1 => p.by_ref().map(|x| x).parse_stream(&mut input),
            2 => attempt(p).parse_stream(&mut input),
            3 => {
                // looked at before it is taken
                match look_ahead(parser_of::<I>(k)).parse_stream(&mut input) {
                    PeekOk(x) if fits && x == v => (),
                    PeekErr(_) | CommitErr(_) if !fits => (),
                    x => return Err(format!("{}: look_ahead gives {:?}", here, x.map_err(|_| ()).map(|x| x))),
                }
                p.parse_stream(&mut input)
            }
            _ => optional(p).map(|x| x.unwrap_or(!0)).parse_stream(&mut input),
        };
        if fits {
            match r {
                CommitOk(x) if x == v => (),
                r => return Err(format!("{}: {:x?} instead of {:x}", here, r.map_err(|_| ()), v)),
            }
        } else {
            match r {
                PeekErr(e) if !partial && way != 4 && eoi(&e.error) => (),
                // asks for more
                CommitErr(e) if partial && eoi(&e) => (),
                PeekOk(x) if !partial && way == 4 && x == !0 => (),
                r => {
                    return Err(format!(
                        "{}: {:?} for too few bytes (way {})",
                        here,
                        r.map_err(|e| if eoi(&e) { "end of input" } else { "another error" }),
                        way
                    ))
                }
            }
            if input.position() != pos {
                return Err(format!("{}: at {:?} instead of {:?} after too few bytes", here, input.position(), pos));
            }
            break;
        }
    }
    // what is left
    let end = c.at.iter().rev().find(|a| **a <= c.bytes.len()).unwrap();
    let mut left = vec![];
    while let Ok(b) = input.uncons() {
        left.push(b);
    }
    if left != c.bytes[*end..] {
        return Err(format!("{:?} is left instead of {:?}", left, &c.bytes[*end..]));
    }
    Ok(())
}

/// A reader that returns few bytes at a time
struct Slow {
    data: Vec<u8>,
    at: usize,
    sizes: Vec<usize>,
}
impl std::io::Read for Slow {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let s = self.sizes.pop().unwrap_or(usize::MAX).min(buf.len()).min(self.data.len() - self.at);
        buf[..s].copy_from_slice(&self.data[self.at..self.at + s]);
        self.at += s;
        Ok(s)
    }
}

fn values(g: &mut Gen) -> Res {
    let c = gen_case(g);
    g.describe(|| format!("{:x?}", c));
    g.label(if c.at[c.nums.len()] <= c.bytes.len() { "whole" } else { "cut" });
    if c.nums.len() > 1 && c.bytes.len() > 8 {
        g.nontrivial(hash_str(&format!("{:?}", c)));
    }
    let s: &[u8] = &c.bytes;
    match c.kind {
        0 => steps(s, false, &c, g),
        1 => steps(easy::Stream(s), false, &c, g),
        2 => steps(position::Stream::new(s), false, &c, g),
        3 => steps(PartialStream(s), true, &c, g),
        4 => steps(MaybePartialStream(s, c.bytes.len() % 2 == 0), c.bytes.len() % 2 == 0, &c, g),
        5 => steps(CompleteStream(PartialStream(s)), false, &c, g),
        6 => steps(state::Stream { stream: s, state: 1 }, false, &c, g),
        7 => steps(buffered::Stream::new(position::Stream::new(IteratorStream::new(s.iter().cloned())), 8), false, &c, g),
        8 | 9 => {
            let sizes = (0..20).map(|_| 1 + g.below(3) as usize).collect();
            let r = read::Stream::new(Slow { data: c.bytes.clone(), at: 0, sizes });
            if c.kind == 8 {
                steps(buffered::Stream::new(position::Stream::with_positioner(r, IndexPositioner::new()), 16), false, &c, g)
            } else {
                steps(buffered::Stream::new(easy::Stream(position::Stream::with_positioner(r, IndexPositioner::new())), 9), false, &c, g)
            }
        }
        10 => steps(span::Stream::<_, UnexpectedParse>::from(easy::Stream(s)), false, &c, g),
        11 => steps(span::Stream::<_, easy::Errors<u8, &[u8], span::Span<_>>>::from(PartialStream(s)), true, &c, g),
        12 => steps(easy::Stream(PartialStream(position::Stream::with_positioner(s, IndexPositioner::new()))), true, &c, g),
        _ => {
            let st = easy::Stream(MaybePartialStream(s, true));
            steps(st, true, &c, g)
        }
    }
}

/// Numbers of one kind in a row, as the elements of other parsers
fn rows(g: &mut Gen) -> Res {
    let k = g.below(16) as usize;
    let w = WIDTH[k];
    let n = g.small(0, 6);
    let vs: Vec<u64> = (0..n).map(|_| gen_bits(g, k)).collect();
    let mut bytes = vec![];
    for v in &vs {
        encode(k, *v, &mut bytes);
    }
    let extra = g.below(w as u32) as usize;
    for _ in 0..extra {
        bytes.push(g.below(256) as u8);
    }
    let want = g.below(8) as usize;
    let way = g.below(8);
    let ctx = format!("{} x{} and {} bytes, way {} with {}: {:x?}", NAMES[k], n, extra, way, want, vs);
    g.describe(|| ctx.clone());
    if n > 1 && extra > 0 {
        g.nontrivial(hash_str(&ctx));
    }
    fn go<'a, I>(mut i: I, ctx: &str, k: usize, vs: &[u64], want: usize, way: u32, bytes: &'a [u8]) -> Res
    where
        I: RangeStream<Token = u8, Range = &'a [u8]> + 'a,
    {
        let w = WIDTH[k];
        let n = vs.len();
        let num = || parser_of::<I>(k);
        let bad = |x: String| Err(format!("{}: {}", ctx, x));
        // how many numbers are taken, or failure
        let (got, exp): (Option<Vec<u64>>, Option<usize>) = match way {
            0 => (many(num()).parse_stream(&mut i).into_result().ok().map(|x| x.0), Some(n)),
            1 => (count(want, num()).parse_stream(&mut i).into_result().ok().map(|x| x.0), Some(n.min(want))),
            2 => (count_min_max(want, want, num()).parse_stream(&mut i).into_result().ok().map(|x| x.0), (n >= want).then_some(want)),
            3 => {
                // the bytes recognized are those of the number
                let r: Result<(Vec<&[u8]>, _), _> = many(recognize(num())).parse_stream(&mut i).into_result();
                let r = match r {
                    Ok(x) => x.0,
                    Err(_) => return bad("many fails".into()),
                };
                for (j, b) in r.iter().enumerate() {
                    if *b != &bytes[j * w..(j + 1) * w] || b.as_ptr() != bytes[j * w..].as_ptr() {
                        return bad(format!("number {} is recognized as {:?}", j, b));
                    }
                }
                (Some(vs[..r.len().min(n)].to_vec()), Some(n))
            }
            4 => {
                let r: Result<((Option<u64>, Option<u64>), _), _> = (optional(num()), optional(num())).parse_stream(&mut i).into_result();
                (r.ok().map(|x| x.0 .0.into_iter().chain(x.0 .1).collect()), Some(n.min(2)))
            }
            5 => (
                (num(), num(), num()).map(|x| vec![x.0, x.1, x.2]).parse_stream(&mut i).into_result().ok().map(|x| x.0),
                (n >= 3).then_some(3),
            ),
            6 => (
                num().then(|_| num()).map(|x| vec![x]).parse_stream(&mut i).into_result().ok().map(|x| {
                    let mut v = vs[..1].to_vec();
                    v.extend(x.0);
                    v
                }),
                (n >= 2).then_some(2),
            ),
            _ => {
                let r: Result<(Vec<u64>, _), _> = many(num()).skip(take(bytes.len() - n * w)).skip(eof()).parse_stream(&mut i).into_result();
                match r {
                    Ok((v, _)) if v == vs => return Ok(()),
                    r => return bad(format!("{:x?} to the end", r.map(|x| x.0).map_err(|_| ()))),
                }
            }
        };
        let gotn = got.as_ref().map(|g| g.len());
        if gotn != exp || got.map_or(false, |v| v != vs[..exp.unwrap()]) {
            return bad(format!("{:?} numbers (or wrong ones) instead of {:?}", gotn, exp));
        }
        if let Some(e) = exp {
            let rest = i.range();
            if rest != &bytes[e * w..] {
                return bad(format!("{:?} is left", rest));
            }
        }
        Ok(())
    }
    g.checks += 1;
    let s: &[u8] = &bytes;
    match g.below(3) {
        0 => go(s, &ctx, k, &vs, want, way, s),
        1 => go(position::Stream::new(easy::Stream(s).0), &ctx, k, &vs, want, way, s),
        _ => go(easy::Stream(s), &ctx, k, &vs, want, way, s),
    }
}

/// Fed in pieces: as many bytes as were given, resumed with the state kept
fn chunks(g: &mut Gen) -> Res {
    let shape = g.below(6);
    let c = gen_case(g);
    let ks: Vec<usize> = (0..3).map(|i| c.nums.get(i).map_or(0, |x| x.0)).collect();
    // sequences of three, numbers to the end, or one by one
    let mut cuts: Vec<usize> = (0..g.small(0, 8)).map(|_| g.below(c.bytes.len() as u32 + 1) as usize).collect();
    if g.chance(1, 4) {
        cuts = (0..c.bytes.len()).collect();
    }
    cuts.push(c.bytes.len());
    cuts.sort();
    let ctx = format!("shape {} cut at {:?}: {:x?}", shape, cuts, c);
    g.describe(|| ctx.clone());
    if cuts.len() > 2 {
        g.nontrivial(hash_str(&ctx));
    }
    type S<'a> = MaybePartialStream<&'a [u8]>;
    type R<'a> = Box<dyn Parser<S<'a>, Output = Vec<u64>, PartialState = AnyPartialState> + 'a>;
    fn make<'a>(shape: u32, ks: &[usize]) -> R<'a> {
        let n = |i: usize| parser_of::<S<'a>>(ks[i]);
        macro_rules! b {
            ($e: expr) => {
                Box::new(any_partial_state($e))
            };
        }
        match shape {
            0 => b!((n(0), n(1), n(2)).map(|x: (u64, u64, u64)| vec![x.0, x.1, x.2])),
            1 => b!(many(n(0))),
            2 => b!(count_min_max(2, 3, n(0))),
            3 => b!((n(0), many::<Vec<u64>, _, _>(n(1))).map(|x: (u64, Vec<u64>)| {
                let mut v = x.1;
                v.insert(0, x.0);
                v
            })),
            4 => {
                let k = ks[1];
                b!(n(0).then_partial(move |x| {
                    let x = *x;
                    parser_of::<S<'a>>(k).map(move |y| vec![x, y])
                }))
            }
            _ => b!((attempt(n(0)), optional(n(1)), n(2)).map(|x: (u64, Option<u64>, u64)| {
                let mut v = vec![x.0];
                v.extend(x.1);
                v.push(x.2);
                v
            })),
        }
    }
    // in one piece
    let mut whole = MaybePartialStream(&c.bytes[..], false);
    let one = make(shape, &ks).parse_with_state(&mut whole, &mut Default::default()).map_err(|_| ());
    let one_used = c.bytes.len() - whole.0.len();
    // in pieces
    let mut at = 0;
    let mut state = AnyPartialState::default();
    let mut res = None;
    let mut waits = 0;
    for (i, to) in cuts.iter().enumerate() {
        let last = i + 1 == cuts.len();
        let mut s = MaybePartialStream(&c.bytes[at..*to], !last);
        // a new parser each time: what is known is in the state
        let r = make(shape, &ks).parse_with_state(&mut s, &mut state);
        let left = s.0.len();
        at = to - left;
        match r {
            Ok(v) => {
                res = Some(Ok(v));
                break;
            }
            Err(e) if !last => {
                if e != UnexpectedParse::Eoi {
                    return Err(format!("{}: fails with {:?} in piece {}", ctx, e, i));
                }
                waits += 1;
            }
            Err(_) => res = Some(Err(())),
        }
    }
    g.checks += 1 + waits;
    let res = res.unwrap();
    if res != one {
        return Err(format!("{}: {:x?} in pieces, {:x?} in one", ctx, res, one));
    }
    if one.is_ok() && at != one_used {
        return Err(format!("{}: {} bytes used in pieces, {} in one", ctx, at, one_used));
    }
    // and what it has to be
    let need: usize = match shape {
        0 => ks.iter().map(|k| WIDTH[*k]).sum(),
        _ => return Ok(()),
    };
    if one.is_ok() != (c.bytes.len() >= need) {
        return Err(format!("{}: {:x?} of {} bytes, {} needed", ctx, one, c.bytes.len(), need));
    }
    Ok(())
}

fn main() {
    h::runner::main(&Property {
        id: "C15",
        rule: "at least two numbers over more than eight bytes; at least two numbers and bytes left over; fed in at least three pieces",
        assumptions: &["lookahead buffers hold at least as many bytes as the number is wide"],
        suites: &[
            Suite { name: "values", quick: 1_200_000, thorough: 40_000_000, f: values },
            Suite { name: "rows", quick: 600_000, thorough: 20_000_000, f: rows },
            Suite { name: "chunks", quick: 600_000, thorough: 20_000_000, f: chunks },
        ],
        known: &[],
    })
}
