#[path = "../h/mod.rs"]
#[macro_use]
mod h;
use combine::parser::byte::{take_until_byte, take_until_byte2, take_until_byte3, take_until_bytes};
use combine::parser::combinator::{any_partial_state, AnyPartialState};
use combine::parser::range::{range, take, take_fn, take_until_range, TakeRange};
use combine::parser::repeat::{repeat_skip_until, repeat_until, skip_until, take_until};
use combine::stream::position::{self, IndexPositioner};
use combine::stream::{easy, CompleteStream, MaybePartialStream, PartialStream, RangeStream};
use combine::{any, attempt, eof, optional, satisfy, ParseResult::*, Parser};
use h::gen::*;
use h::runner::*;
use std::cell::Cell;
use std::rc::Rc;

/// Text or bytes
trait Text: combine::stream::Range + AsRef<[u8]> + PartialEq + Copy + std::fmt::Debug + 'static {
    type Tk: PartialEq + Copy + std::fmt::Debug + 'static;
    fn cut(self, from: usize, to: usize) -> Self;
    fn bound(self, at: usize) -> bool;
    /// tokens with their widths
    fn toks(self) -> Vec<(Self::Tk, usize)>;
}
impl Text for &'static str {
    type Tk = char;
    fn cut(self, from: usize, to: usize) -> Self {
        &self[from..to]
    }
    fn bound(self, at: usize) -> bool {
        self.is_char_boundary(at)
    }
    fn toks(self) -> Vec<(char, usize)> {
        self.chars().map(|c| (c, c.len_utf8())).collect()
    }
}
impl Text for &'static [u8] {
    type Tk = u8;
    fn cut(self, from: usize, to: usize) -> Self {
        &self[from..to]
    }
    fn bound(self, _: usize) -> bool {
        true
    }
    fn toks(self) -> Vec<(u8, usize)> {
        self.iter().map(|c| (*c, 1)).collect()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Byte1,
    Byte2,
    Byte3,
    Bytes,
    Range,
    /// searcher that tells how far it looked, or not
    FnSkip,
    FnNone,
    FnStay,
    Until,
    SkipUntil,
    RepeatUntil,
    RepeatSkipUntil,
    /// tokens until a single one
    UntilToken,
}
use Way::*;
const WAYS: [Way; 13] = [Byte1, Byte2, Byte3, Bytes, Range, FnSkip, FnNone, FnStay, Until, SkipUntil, RepeatUntil, RepeatSkipUntil, UntilToken];

impl Way {
    fn zero_copy(self) -> bool {
        matches!(self, Byte1 | Byte2 | Byte3 | Bytes | Range | FnSkip | FnNone | FnStay)
    }
    fn set(self) -> usize {
        match self {
            Byte1 | UntilToken => 1,
            Byte2 => 2,
            Byte3 => 3,
            _ => 0,
        }
    }
}

/// A search: for a sequence, or for one of some bytes
#[derive(Clone, Copy, Debug)]
struct Search<R> {
    way: Way,
    needle: R,
    set: [u8; 3],
}

impl<R: Text> Search<R> {
    /// First occurrence at or after `at` that ends by `to`: where, and how long it is
    fn find(&self, data: R, at: usize, to: usize) -> Option<(usize, usize)> {
        let b = data.as_ref();
        if self.way.set() > 0 {
            return (at..to).find(|i| self.set[..self.way.set()].contains(&b[*i])).map(|i| (i, 1));
        }
        let n = self.needle.as_ref();
        (at..=to).find(|i| i + n.len() <= to && data.bound(*i) && &b[*i..i + n.len()] == n).map(|i| (i, n.len()))
    }
}

/// What was taken: how much, and the range if there is one
#[derive(Clone, Debug, PartialEq)]
struct Got {
    toks: Option<Vec<u8>>,
    at: Option<(usize, usize)>,
}

type P<'a, I> = Box<dyn Parser<I, Output = Got, PartialState = AnyPartialState> + 'a>;

fn parser_of<R: Text, I>(s: Search<R>) -> P<'static, I>
where
    I: RangeStream<Token = R::Tk, Range = R> + 'static,
    R::Tk: ToBytes,
{
    macro_rules! range_of {
        ($p: expr) => {
            Box::new(any_partial_state($p.map(|r: R| {
                let b: &[u8] = r.as_ref();
                Got { toks: Some(b.to_vec()), at: Some((b.as_ptr() as usize, b.len())) }
            })))
        };
    }
    let [a, b, c] = s.set;
    let n = s.needle;
    let needle: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(n.as_ref()) };
    fn find(n: &[u8], r: &[u8]) -> Option<usize> {
        if n.is_empty() {
            return Some(0);
        }
        r.windows(n.len()).position(|w| w == n)
    }
    let toks = |v: Vec<R::Tk>| {
        let mut o = vec![];
        for t in v {
            t.put(&mut o);
        }
        Got { toks: Some(o), at: None }
    };
    let skipped = |_: ()| Got { toks: None, at: None };
    macro_rules! end {
        () => {
            attempt(range(n))
        };
    }
    match s.way {
        Byte1 => range_of!(take_until_byte(a)),
        Byte2 => range_of!(take_until_byte2(a, b)),
        Byte3 => range_of!(take_until_byte3(a, b, c)),
        Bytes => range_of!(take_until_bytes(needle)),
        Range => range_of!(take_until_range(n)),
        FnSkip => range_of!(take_fn(move |r: R| match find(needle, r.as_ref()) {
            Some(i) => TakeRange::Found(i),
            // all but a possible beginning of the needle; may be within a character
            None => TakeRange::NotFound((r.as_ref().len() + 1).saturating_sub(needle.len())),
        })),
        FnNone => range_of!(take_fn(move |r: R| find(needle, r.as_ref()))),
        FnStay => range_of!(take_fn(move |r: R| match find(needle, r.as_ref()) {
            Some(i) => TakeRange::Found(i),
            None => TakeRange::NotFound(0),
        })),
        Until => Box::new(any_partial_state(take_until::<Vec<R::Tk>, _, _>(end!()).map(toks))),
        SkipUntil => Box::new(any_partial_state(skip_until(end!()).map(skipped))),
        RepeatUntil => Box::new(any_partial_state(repeat_until::<Vec<R::Tk>, _, _, _>(any(), end!()).map(toks))),
        RepeatSkipUntil => Box::new(any_partial_state(repeat_skip_until(any(), end!()).map(skipped))),
        UntilToken => Box::new(any_partial_state(
            take_until::<Vec<R::Tk>, _, _>(satisfy(move |t: R::Tk| {
                let mut o = vec![];
                t.put(&mut o);
                o == [a]
            }))
            .map(toks),
        )),
    }
}

trait ToBytes {
    fn put(&self, o: &mut Vec<u8>);
}
impl ToBytes for u8 {
    fn put(&self, o: &mut Vec<u8>) {
        o.push(*self)
    }
}
impl ToBytes for char {
    fn put(&self, o: &mut Vec<u8>) {
        o.extend(self.to_string().bytes())
    }
}

fn check_got<R: Text>(got: &Got, data: R, from: usize, to: usize) -> Res {
    let b = &data.as_ref()[from..to];
    if let Some(t) = &got.toks {
        if t != b {
            return Err(format!("took {:?} instead of {:?}", String::from_utf8_lossy(t), String::from_utf8_lossy(b)));
        }
    }
    if let Some((p, n)) = got.at {
        if n != b.len() || (n > 0 && p != b.as_ptr() as usize) {
            return Err("not the range of the input itself".into());
        }
    }
    Ok(())
}

struct Case<R> {
    data: R,
    searches: Vec<(Search<R>, bool)>,
}

/// One search after another in the same stream; the second of each pair says if the delimiter is taken
fn complete<R: Text, I>(mut input: I, partial: bool, c: &Case<R>, g: &mut Gen) -> Res
where
    I: RangeStream<Token = R::Tk, Range = R> + 'static,
    R::Tk: ToBytes,
{
    let mut at = 0;
    let end = c.data.as_ref().len();
    let eoi = |e: &I::Error| combine::ParseError::is_unexpected_end_of_input(e);
    for (i, (s, over)) in c.searches.iter().enumerate() {
        g.checks += 1;
        let here = format!("search {} {:?} at {}", i, s, at);
        let wrap = g.below(3);
        let mut p = parser_of::<R, I>(*s);
        let before = input.checkpoint();
        let r = match wrap {
            0 => p.parse_stream(&mut input),
            1 => p.by_ref().parse_stream(&mut input),
            _ => attempt(p).parse_stream(&mut input),
        };
        let used = input.distance(&before);
        match s.find(c.data, at, end) {
            Some((to, len)) => {
                let (v, committed) = match r {
                    CommitOk(v) => (v, true),
                    PeekOk(v) => (v, false),
                    _ => return Err(format!("{}: fails, it is at {}", here, to)),
                };
                check_got(&v, c.data, at, to).map_err(|e| format!("{}: {}", here, e))?;
                if used != to - at {
                    return Err(format!("{}: {} used instead of {}", here, used, to - at));
                }
                if to > at && !committed || to == at && committed && s.way.zero_copy() {
                    return Err(format!("{}: committed: {} after {}", here, committed, to - at));
                }
                at = to;
                if *over {
                    // the delimiter is there
                    match take(len).parse_stream(&mut input) {
                        CommitOk(d) | PeekOk(d) => check_got(&Got { toks: Some(d.as_ref().to_vec()), at: None }, c.data, to, to + len)?,
                        _ => return Err(format!("{}: no delimiter after it", here)),
                    }
                    at += len;
                }
            }
            None => {
                match r {
                    PeekErr(e) if eoi(&e.error) && !partial && (used == 0 || wrap == 2) => (),
                    PeekErr(_) if partial => return Err(format!("{}: does not wait for more", here)),
                    CommitErr(e) if eoi(&e) && (partial || (end > at && wrap != 2)) => (),
                    PeekErr(e) => return Err(format!("{}: uncommitted failure, end of input: {}, {} used", here, eoi(&e.error), used)),
                    CommitErr(e) => return Err(format!("{}: committed failure, end of input: {}", here, eoi(&e))),
                    CommitOk(v) | PeekOk(v) => return Err(format!("{}: takes {:?} though there is none", here, v)),
                }
                return Ok(());
            }
        }
    }
    let rest = input.range();
    if rest.as_ref() != &c.data.as_ref()[at..] {
        return Err(format!("{:?} is left instead of {:?}", rest, &c.data.as_ref()[at..]));
    }
    Ok(())
}

/// Fed in pieces
fn pieces<R: Text>(c: &Case<R>, cuts: &[usize], shape: u32, g: &mut Gen) -> Res
where
    MaybePartialStream<R>: RangeStream<Token = R::Tk, Range = R>,
    R::Tk: ToBytes,
{
    type S<R> = MaybePartialStream<R>;
    let end = c.data.as_ref().len();
    let calls = Rc::new(Cell::new(0u64));
    let first = c.searches[0].0;
    let second = c.searches[c.searches.len() - 1].0;
    // the parser, and what it gives for all the data: the values and the end
    let mut want: Option<(Vec<(usize, usize)>, usize)> = None;
    let f1 = first.find(c.data, 0, end);
    let make = || -> Box<dyn Parser<S<R>, Output = Vec<Got>, PartialState = AnyPartialState>> {
        let one = parser_of::<R, S<R>>(first);
        match shape {
            0 => Box::new(any_partial_state(one.map(|x| vec![x]))),
            1 => Box::new(any_partial_state((one, take(f1.map_or(1, |x| x.1))).map(|x| vec![x.0]))),
            2 => {
                let two = parser_of::<R, S<R>>(second);
                Box::new(any_partial_state((one, take(f1.map_or(1, |x| x.1)), two).map(|x| vec![x.0, x.2])))
            }
            _ => {
                // a field until the delimiter, or the rest without one
                let rest = optional(attempt(parser_of::<R, S<R>>(second)));
                Box::new(any_partial_state((one, rest).map(|x| {
                    let mut v = vec![x.0];
                    v.extend(x.1);
                    v
                })))
            }
        }
    };
    if let Some((a, la)) = f1 {
        match shape {
            0 => want = Some((vec![(0, a)], a)),
            1 => want = Some((vec![(0, a)], a + la)),
            2 => {
                if let Some((b, _)) = second.find(c.data, a + la, end) {
                    want = Some((vec![(0, a), (a + la, b)], b));
                }
            }
            _ => {
                want = match second.find(c.data, a, end) {
                    Some((b, _)) => Some((vec![(0, a), (a, b)], b)),
                    None => Some((vec![(0, a)], a)),
                }
            }
        }
    }
    let mut at = 0;
    let mut state = AnyPartialState::default();
    let keep = g.bool();
    let mut p = make();
    for (i, to) in cuts.iter().enumerate() {
        calls.set(calls.get() + 1);
        let last = i + 1 == cuts.len();
        if !keep {
            // all that is known is in the state
            p = make();
        }
        let mut s = MaybePartialStream(c.data.cut(at, *to), !last);
        let r = p.parse_with_state(&mut s, &mut state);
        g.checks += 1;
        let here = format!("piece {} up to {}", i, to);
        let left = s.0.as_ref().len();
        at = to - left;
        match r {
            Ok(v) => {
                let (ranges, stop) = match &want {
                    None => return Err(format!("{}: {:?} though there is none", here, v)),
                    Some(w) => w,
                };
                if v.len() != ranges.len() || at != *stop {
                    return Err(format!("{}: {:?}, up to {} instead of {:?}", here, v, at, want));
                }
                for (x, (a, b)) in v.iter().zip(ranges) {
                    check_got(x, c.data, *a, *b).map_err(|e| format!("{}: {}", here, e))?;
                }
                return Ok(());
            }
            Err(e) => {
                if !combine::ParseError::is_unexpected_end_of_input(&e) {
                    return Err(format!("{}: another error than end of input", here));
                }
                if last {
                    return match want {
                        None => Ok(()),
                        Some(w) => Err(format!("{}: fails instead of {:?}", here, w)),
                    };
                }
                // what has been seen decides the first two shapes
                if shape < 2 && first.find(c.data, 0, *to).is_some() && f1.is_some() {
                    return Err(format!("{}: waits though the delimiter is there: {:?}", here, f1));
                }
            }
        }
    }
    Err("HARNESS: no last piece".into())
}

fn gen_search<R: Text>(g: &mut Gen, data: R, needles: &dyn Fn(&mut Gen) -> R) -> Search<R> {
    let way = *g.pick(&WAYS);
    // bytes of text that are characters themselves
    let ascii: Vec<u8> = data.as_ref().iter().copied().filter(|b| *b < 128 || std::any::TypeId::of::<R>() == std::any::TypeId::of::<&'static [u8]>()).collect();
    let mut set = [b'#'; 3];
    for x in &mut set {
        *x = if ascii.is_empty() || g.chance(1, 3) { *g.pick(b"#;\0\x7f\n") } else { *g.pick(&ascii) };
    }
    Search { way, needle: needles(g), set }
}

fn gen_cuts<R: Text>(g: &mut Gen, data: R) -> Vec<usize> {
    let n = data.as_ref().len();
    let mut cuts: Vec<usize> = if g.chance(1, 4) {
        (0..n).collect()
    } else {
        (0..g.small(0, 6)).map(|_| g.below(n as u32 + 1) as usize).collect()
    };
    // a cut within a character delivers it with the next piece
    for c in &mut cuts {
        while !data.bound(*c) {
            *c -= 1;
        }
    }
    cuts.push(n);
    cuts.sort();
    cuts
}

fn go<R: Text>(g: &mut Gen, data: R, lit: R, chunked: bool, kinds: &dyn Fn(u32, &Case<R>, &mut Gen) -> Res, nkinds: u32, chunk: &dyn Fn(&Case<R>, &[usize], u32, &mut Gen) -> Res) -> Res {
    let n = data.as_ref().len();
    let needles = |g: &mut Gen| {
        // taken from the data, or from other data of the same alphabet
        let from = if g.chance(2, 3) { data } else { lit };
        let t = from.toks();
        let a = g.below(t.len() as u32 + 1) as usize;
        let len = g.small(0, 6).min(t.len() - a);
        let s: usize = t[..a].iter().map(|x| x.1).sum();
        let e: usize = t[a..a + len].iter().map(|x| x.1).sum();
        from.cut(s, s + e)
    };
    let k = if chunked { 2 } else { g.range(1, 4) };
    let searches: Vec<(Search<R>, bool)> = (0..k).map(|_| (gen_search(g, data, &needles), g.chance(3, 4))).collect();
    let c = Case { data, searches };
    if chunked {
        let shape = g.below(4);
        let cuts = gen_cuts(g, data);
        let ctx = format!("{:?} cut at {:?}, shape {}: {:?}", data, cuts, shape, c.searches.iter().map(|x| x.0).collect::<Vec<_>>());
        g.describe(|| ctx.clone());
        g.label(["one search", "one search and its delimiter", "two searches", "an optional second search"][shape as usize]);
        if cuts.len() > 2 && c.searches[0].0.find(data, 0, n).is_some() {
            g.nontrivial(hash_str(&ctx));
        }
        chunk(&c, &cuts, shape, g).map_err(|e| format!("{}: {}", ctx, e))
    } else {
        let kind = g.below(nkinds);
        let ctx = format!("stream {} over {:?}: {:?}", kind, data, c.searches);
        g.describe(|| ctx.clone());
        if c.searches[0].0.find(data, 0, n).map_or(false, |x| x.0 > 0) {
            g.nontrivial(hash_str(&ctx));
        }
        kinds(kind, &c, g).map_err(|e| format!("{}: {}", ctx, e))
    }
}

fn text_kinds(k: u32, c: &Case<&'static str>, g: &mut Gen) -> Res {
    let d = c.data;
    match k {
        0 => complete(d, false, c, g),
        1 => complete(easy::Stream(d), false, c, g),
        2 => complete(PartialStream(d), true, c, g),
        3 => complete(position::Stream::new(d), false, c, g),
        _ => complete(easy::Stream(MaybePartialStream(position::Stream::with_positioner(d, IndexPositioner::new()), d.len() % 2 == 0)), d.len() % 2 == 0, c, g),
    }
}
fn byte_kinds(k: u32, c: &Case<&'static [u8]>, g: &mut Gen) -> Res {
    let d = c.data;
    match k {
        0 => complete(d, false, c, g),
        1 => complete(easy::Stream(d), false, c, g),
        2 => complete(PartialStream(d), true, c, g),
        3 => complete(position::Stream::new(d), false, c, g),
        _ => complete(easy::Stream(CompleteStream(PartialStream(d))), false, c, g),
    }
}

fn any_case(g: &mut Gen, n: usize, chunked: bool) -> Res {
    let alpha: &[char] = *g.pick(&[&['a'][..], &['a', 'b'], &['a', 'b', 'é', 'è'], &['\r', '\n', 'x'], &['é', '漢', '\u{1F980}', '\u{1F981}', 'a', ';']]);
    let data: String = (0..n).map(|_| *g.pick(alpha)).collect();
    let lit: String = (0..6).map(|_| *g.pick(alpha)).collect();
    // periodic data with one place that differs
    let data = if g.chance(1, 4) && n > 3 {
        let p = g.range(1, 3);
        let unit: Vec<char> = data.chars().take(p).collect();
        let odd = g.below(n as u32) as usize;
        data.chars().enumerate().map(|(i, c)| if i == odd { c } else { unit[i % p] }).collect()
    } else {
        data
    };
    // Safety: the data outlives the streams
    let (ds, ls) = unsafe { (h::build::lend_str(&data), h::build::lend_str(&lit)) };
    if g.bool() {
        g.label("text");
        go(g, ds, ls, chunked, &text_kinds, 5, &pieces)
    } else {
        g.label("bytes");
        go(g, ds.as_bytes(), ls.as_bytes(), chunked, &byte_kinds, 5, &pieces)
    }
}

fn searches(g: &mut Gen) -> Res {
    let n = g.small(0, 14);
    any_case(g, n, false)
}
fn chunks(g: &mut Gen) -> Res {
    let n = g.small(0, 14);
    any_case(g, n, true)
}
fn long(g: &mut Gen) -> Res {
    let n = g.below(120) as usize;
    let c = g.bool();
    any_case(g, n, c)
}

fn main() {
    let _ = eof::<&str>();
    h::runner::main(&Property {
        id: "C16",
        rule: "a delimiter behind at least one token; in pieces: a delimiter somewhere in at least two pieces; distinct by everything",
        assumptions: &[
            "in text, single byte delimiters are ASCII (other bytes are no tokens of text)",
            "take_until and its relatives are given an end parser that does not commit before it succeeds (attempt), as documented",
            "pieces of text are cut between characters: a decoder keeps the bytes of an incomplete character back (C05 covers decoding from bytes)",
        ],
        suites: &[
            Suite { name: "searches", quick: 1_000_000, thorough: 40_000_000, f: searches },
            Suite { name: "pieces", quick: 1_000_000, thorough: 40_000_000, f: chunks },
            Suite { name: "long", quick: 300_000, thorough: 10_000_000, f: long },
        ],
        known: &[],
    })
}
