#[path = "../h/mod.rs"]
#[macro_use]
mod h;
use combine::parser::byte;
use combine::parser::char as pc;
use combine::parser::choice::{choice, optional};
use combine::parser::range as pr;
use combine::parser::repeat as rep;
use combine::parser::token as tok;
use combine::stream::position::{self, SourcePosition};
use combine::stream::{
    buffered, decode, easy, IteratorStream, MaybePartialStream, PartialStream, PointerOffset, Positioned, ResetStream,
    SliceStream, StreamErrorFor, StreamOnce,
};
use combine::{attempt, many, EasyParser, Parser, Stream};
use h::ast::*;
use h::build::*;
use h::gen::*;
use h::runner::*;

type EasyPos = easy::Stream<position::Stream<&'static str, SourcePosition>>;
type Part = easy::Stream<MaybePartialStream<&'static str>>;
str_src!(EasyPos, SourcePosition::new());
str_src!(Part, PointerOffset::new(0));

/// A stream whose input breaks somewhere and which cannot go back far
#[derive(Clone, Debug)]
struct Nasty {
    chars: &'static [char],
    at: usize,
    broken: usize,
    back: usize,
    partial: bool,
    calls: std::rc::Rc<std::cell::Cell<u64>>,
}
impl StreamOnce for Nasty {
    type Token = char;
    type Range = &'static str;
    type Position = usize;
    type Error = easy::Errors<char, &'static str, usize>;
    fn uncons(&mut self) -> Result<char, StreamErrorFor<Self>> {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > 3_000_000 {
            panic!("the parser does not end: 3000000 tokens asked for, input of {}", self.chars.len());
        }
        if self.at >= self.broken {
            return Err(easy::Error::Message("broken".into()));
        }
        match self.chars.get(self.at) {
            Some(c) => {
                self.at += 1;
                Ok(*c)
            }
            None => Err(easy::Error::end_of_input()),
        }
    }
    fn is_partial(&self) -> bool {
        self.partial
    }
}
impl Positioned for Nasty {
    fn position(&self) -> usize {
        self.at
    }
}
impl ResetStream for Nasty {
    type Checkpoint = usize;
    fn checkpoint(&self) -> usize {
        self.at
    }
    fn reset(&mut self, c: usize) -> Result<(), Self::Error> {
        if c > self.at {
            // tokens that were given back can be read again, nothing else
            self.at = c;
            return Ok(());
        }
        if self.at - c > self.back {
            let at = self.at;
            return Err(easy::Errors::new(at, easy::Error::Message("too far".into())));
        }
        self.at = c;
        Ok(())
    }
}
tok_src!(Nasty, 0);

/// Input which has little to do with any grammar
fn hostile(a: &A, g: &mut Gen) -> String {
    let mut s = String::new();
    match g.below(6) {
        0 => {
            let c = gen_char(g);
            for _ in 0..*g.pick(&[1, 5, 40, 300, 1000]) {
                s.push(c)
            }
        }
        1 => {
            for _ in 0..g.small(0, 40) {
                s.push(char::from_u32(g.below(0x110000)).unwrap_or('\u{fffd}'))
            }
        }
        2 => {
            for _ in 0..g.small(1, 8) {
                sample(a, g, &mut s)
            }
            let n = g.below(s.chars().count() as u32 + 1) as usize;
            s = s.chars().skip(n).collect();
        }
        3 => {
            let mut t = String::new();
            sample(a, g, &mut t);
            s = t.repeat(*g.pick(&[1, 3, 20]));
        }
        _ => {
            for _ in 0..g.small(0, 30) {
                s.push(gen_char(g))
            }
        }
    }
    s
}
fn show(e: &dyn std::fmt::Display) -> usize {
    e.to_string().len()
}

fn nasty(g: &mut Gen) -> Res {
    let o = Opts { depth: 6, ..Opts::full() };
    let d = g.small(0, 6);
    let a = gen_ast(g, &o, d);
    a.label_all(g);
    let sa = unsafe { lend(&a) };
    for _ in 0..2 {
        let s = if g.bool() { gen_input(&a, g) } else { hostile(&a, g) };
        let chars: Vec<char> = s.chars().collect();
        let n = chars.len();
        let broken = if g.bool() { usize::MAX } else { g.below(n as u32 + 1) as usize };
        let back = if g.chance(1, 3) { usize::MAX } else { g.small(0, 4) };
        let partial = g.chance(1, 4);
        g.describe(|| format!("{:?} on {:?}, broken at {:?}, {:?} back, partial {}", a, s, broken, back, partial));
        let mut i = Nasty { chars: unsafe { lend_slice(&chars) }, at: 0, broken, back, partial, calls: Default::default() };
        let mut p = build::<Nasty>(sa);
        let mut state = Default::default();
        let r = if partial { p.parse_stream_partial(&mut i, &mut state) } else { p.parse_stream(&mut i) };
        g.checks += 1;
        match r.into_result() {
            Ok(_) => g.label("accepted"),
            Err(e) => {
                show(&e.into_inner().error);
                g.label("rejected")
            }
        }
        if i.calls.get() > 3 {
            g.nontrivial(hash_str(&format!("{:?}{}{}{}{}", a, s, broken, back, partial)));
        }
        // and again from wherever that left the stream
        let _ = p.parse_stream(&mut i).is_ok();
        if !partial {
            let mut it = p.by_ref().iter(&mut i);
            let n = it.by_ref().take(4).count();
            let _ = it.into_result(n).is_ok();
        }
    }
    Ok(())
}

/// Pieces of anything, in any number of chunks, some of them empty, with values one after another
fn chunks(g: &mut Gen) -> Res {
    let o = Opts { depth: 6, range: true, ..Opts::full() };
    let d = g.small(0, 6);
    let a = gen_ast(g, &o, d);
    let sa = unsafe { lend(&a) };
    let s = if g.bool() { gen_input(&a, g) } else { hostile(&a, g) };
    let ss = unsafe { lend_str(&s) };
    let mut bounds: Vec<usize> = s.char_indices().map(|x| x.0).collect();
    bounds.push(s.len());
    let n = g.small(0, 6);
    let mut cuts: Vec<usize> = (0..n).map(|_| bounds[g.below(bounds.len() as u32) as usize]).collect();
    cuts.sort();
    cuts.push(s.len());
    g.describe(|| format!("{:?} on {:?} cut at {:?}", a, s, cuts));
    let mut p = build::<Part>(sa);
    let mut state = Default::default();
    let (mut at, mut values, mut steps) = (0, 0, 0);
    for (k, end) in cuts.iter().enumerate() {
        let partial = k + 1 < cuts.len();
        loop {
            steps += 1;
            if steps > 3000 {
                break;
            }
            let mut input: Part = easy::Stream(MaybePartialStream(&ss[at..*end], partial));
            let before = at;
            let r = decode(&mut p, &mut input, &mut state);
            at = end - input.0 .0.len();
            g.checks += 1;
            match r {
                Ok((Some(_), n)) => {
                    if n != at - before {
                        return Err(format!("decode reports {} but took {}", n, at - before));
                    }
                    values += 1;
                    if at == before || at == *end && !partial {
                        break;
                    }
                }
                Ok((None, n)) => {
                    if n != at - before {
                        return Err(format!("decode reports {} but took {}", n, at - before));
                    }
                    if !partial {
                        return Err("decode asks for more of complete input".into());
                    }
                    break;
                }
                Err(e) => {
                    show(&e.map_position(|p| p.0));
                    // what the parser saw so far is of no use any more
                    state = Default::default();
                    break;
                }
            }
        }
    }
    if steps > 1 && s.len() > 2 {
        g.nontrivial(hash_str(&format!("{:?}{}{:?}", a, s, cuts)));
    }
    if values > 1 {
        g.label("several_values");
    }
    Ok(())
}

macro_rules! twenty {
    ($e:expr) => {
        ($e, $e, $e, $e, $e, $e, $e, $e, $e, $e, $e, $e, $e, $e, $e, $e, $e, $e, $e, $e)
    };
}
fn t20<I: Stream, P: Parser<I> + Clone>(p: P) -> impl Parser<I, Output = ()> + Clone
where
    P: Clone,
{
    tup20(p)
}
#[allow(clippy::type_complexity)]
#[derive(Clone)]
struct Void<P>(P);
impl<I: Stream, P: Parser<I>> Parser<I> for Void<P> {
    type Output = ();
    type PartialState = P::PartialState;
    fn parse_first(&mut self, i: &mut I, s: &mut Self::PartialState) -> combine::ParseResult<(), I::Error> {
        self.0.parse_first(i, s).map(|_| ())
    }
    fn parse_partial(&mut self, i: &mut I, s: &mut Self::PartialState) -> combine::ParseResult<(), I::Error> {
        self.0.parse_partial(i, s).map(|_| ())
    }
    fn add_error(&mut self, e: &mut combine::error::Tracked<I::Error>) {
        self.0.add_error(e)
    }
    fn add_committed_expected_error(&mut self, e: &mut combine::error::Tracked<I::Error>) {
        self.0.add_committed_expected_error(e)
    }
    fn parser_count(&self) -> combine::ErrorOffset {
        self.0.parser_count()
    }
}
fn tup20<I: Stream, P: Parser<I> + Clone>(p: P) -> impl Parser<I, Output = ()> + Clone {
    Void(twenty!(p.clone()))
}

/// Sequences and choices with (also in total) more than 255 members
fn wide_static(g: &mut Gen) -> Res {
    let len = *g.pick(&[0usize, 1, 19, 20, 21, 39, 100, 254, 255, 256, 257, 399, 400, 401, 500]);
    let len = len + g.small(0, 2);
    let tail = *g.pick(&["", "x", "!", "b", "é"]);
    let s = format!("{}{}", "a".repeat(len), tail);
    let ss: &'static str = unsafe { lend_str(&s) };
    let k = g.below(10);
    g.describe(|| format!("wide grammar {} on {} times a, {:?}", k, len, tail));
    let a = || pc::char('a');
    let opt = || optional(pc::char('a'));
    let input = || EasyPos::from_str(ss);
    macro_rules! go {
        ($p:expr) => {{
            let mut p = $p;
            p.parse(input()).map(|(_, i)| i.0.input.len())
        }};
    }
    // tokens taken if all goes well, and whether an end marker has to follow
    let (r, most, least, end) = match k {
        0 => (go!((t20(t20(a())), pc::char('!'))), 400, 400, true),
        1 => (go!((t20(t20(opt())), pc::char('!'))), 400, 0, true),
        2 => (go!((a(), t20(t20(opt())), pc::char('!'))), 401, 1, true),
        3 => (go!((t20((opt(), t20(opt()))), t20(t20(opt())), pc::char('!'))), 820, 0, true),
        4 => (go!((opt(), t20(attempt(t20(a())).or(t20(opt()))), pc::char('!'))), 401, 0, true),
        5 => (go!((a(), choice(twenty!(attempt((t20(t20(opt())), pc::char('!'))))))), 401, 1, true),
        6 => (go!(many::<Vec<()>, _, _>((a(), t20(t20(opt()))).map(|_| ())).skip(pc::char('!'))), usize::MAX, 0, true),
        7 => (go!((t20(t20(opt())).expected("lots"), pc::char('!'))), 400, 0, true),
        8 => (go!((t20(t20(opt())).and(t20(t20(opt())).skip(opt())).with(t20(opt())), pc::char('!'))), 821, 0, true),
        _ => (go!(choice((attempt((t20(t20(a())), pc::char('!'))).map(|_| ()), (t20(t20(opt())), pc::char('!')).map(|_| ())))), 400, 0, true),
    };
    let ok = len >= least && len <= most && (!end || tail == "!");
    g.checks += 1;
    match r {
        Ok(left) if ok && left == 0 => {}
        Err(e) if !ok => {
            show(&e);
            let at = e.position.column as usize - 1;
            // it stopped where the letters end, or could take no more
            let want = if len > most { most } else { len };
            if at != want {
                return Err(format!("error at {} instead of {}", at, want));
            }
        }
        other => return Err(format!("gives {:?}", other)),
    }
    g.nontrivial(hash_str(&format!("{} {} {}", k, len, tail)));
    Ok(())
}
trait FromStr {
    fn from_str(s: &'static str) -> Self;
}
impl FromStr for EasyPos {
    fn from_str(s: &'static str) -> Self {
        easy::Stream(position::Stream::with_positioner(s, SourcePosition::new()))
    }
}

/// The same, generated
fn wide(g: &mut Gen) -> Res {
    fn nest(g: &mut Gen, o: &Opts, d: usize, total: &mut usize) -> A {
        if d == 0 || *total > 900 {
            *total += 1;
            return match g.below(5) {
                0 => A::Tok('a'),
                1 | 2 => A::Opt(Box::new(A::Tok('b'))),
                3 => A::Spaces,
                _ => gen_ast(g, o, 0),
            };
        }
        let n = 1 + g.below(12) as usize;
        let v: Vec<A> = (0..n).map(|_| {
            let e = if g.chance(1, 3) { d - 1 } else { d.saturating_sub(2).max(d - 1) };
            nest(g, o, e, total)
        }).collect();
        match g.below(8) {
            0 => A::ChoiceVec(v),
            1 => A::Many1(Box::new(A::Seq({ let mut v = v; v.truncate(11); v.insert(0, A::Tok('a')); v }))),
            2 => A::Attempt(Box::new(A::Seq(v))),
            3 => A::W(Wrap::Expected("label"), Box::new(A::Seq(v))),
            4 => A::Iterate(v),
            _ => A::Seq(v),
        }
    }
    let mut total = 0;
    let a = nest(g, &Opts::full(), 3, &mut total);
    let sa = unsafe { lend(&a) };
    let mut s = String::new();
    sample(&a, g, &mut s);
    let cs: Vec<char> = s.chars().collect();
    let n = g.below(cs.len() as u32 + 1) as usize;
    let mut s: String = cs[..n].iter().collect();
    if g.bool() {
        s.push(gen_char(g))
    }
    let ss = unsafe { lend_str(&s) };
    g.describe(|| format!("{:?} on {:?}", a, s));
    if let Err(e) = build::<EasyPos>(sa).parse(EasyPos::from_str(ss)) {
        show(&e);
        g.label("rejected");
    }
    g.checks += 1;
    if total > 255 {
        g.label("over_255");
        g.nontrivial(hash_str(&format!("{:?}{}", a, s)));
    }
    Ok(())
}

/// Sizes and counts at the limits, empty inputs, sources of every kind
fn extreme(g: &mut Gen) -> Res {
    const BIG: [usize; 12] = [
        0,
        1,
        2,
        3,
        255,
        256,
        4096,
        65536,
        u32::MAX as usize,
        isize::MAX as usize,
        usize::MAX - 1,
        usize::MAX,
    ];
    let n = *g.pick(&BIG);
    let m = *g.pick(&BIG);
    let (lo, hi) = (n.min(m), n.max(m));
    let len = g.small(0, 20);
    let text: String = (0..len).map(|_| gen_char(g)).collect();
    let k = g.below(20);
    let src = g.below(6);
    let cut = g.below(len as u32 + 1) as usize;
    g.describe(|| format!("extreme {} with {} and {} on {:?}, source {}, piece of {}", k, n, m, text, src, cut));
    let t = unsafe { lend_str(&text) };
    // the result is only looked at for being one
    fn chars<I>(k: u32, n: usize, m: usize, lo: usize, hi: usize, mut i: I) -> bool
    where
        I: Stream<Token = char>,
        I::Error: std::fmt::Debug,
    {
        let any = || tok::any();
        macro_rules! go {
            ($p:expr) => {{
                let mut state = Default::default();
                let mut p = $p;
                match p.parse_with_state(&mut i, &mut state) {
                    Ok(_) => true,
                    Err(e) => {
                        let _ = format!("{:?}", e);
                        // once more, as if there were more input
                        if i.is_partial() {
                            let _ = p.parse_with_state(&mut i, &mut state).is_ok();
                        }
                        false
                    }
                }
            }};
        }
        match k {
            0 => go!(rep::count::<Vec<char>, _, _>(n, any())),
            1 => go!(rep::skip_count(n, any())),
            2 => go!(rep::count_min_max::<Vec<char>, _, _>(lo, hi, any())),
            3 => go!(rep::skip_count_min_max(lo, hi, any())),
            4 => go!((rep::count::<Vec<char>, _, _>(n, any()), rep::count_min_max::<String, _, _>(lo, hi, any()))),
            5 => go!(rep::sep_by::<Vec<Vec<char>>, _, _, _>(rep::count_min_max(1, hi.max(1), any()), pc::char(','))),
            6 => go!(rep::iterate::<Vec<char>, _, _, I, _>(0..n, |_: &usize, _: &mut I| tok::any())),
            7 => go!(rep::count::<Vec<Vec<char>>, _, _>(m.min(40), rep::count(n, any()))),
            8 => go!(rep::take_until::<String, _, _>(rep::count_min_max::<String, _, _>(lo, hi, pc::digit()))),
            _ => go!(rep::escaped(rep::skip_count_min_max(1, hi.max(1), pc::digit()), '(', any())),
        }
    }
    fn ranges<I>(k: u32, n: usize, m: usize, mut i: I) -> bool
    where
        I: combine::RangeStream<Token = char, Range = &'static str>,
        I::Error: std::fmt::Debug,
    {
        macro_rules! go {
            ($p:expr) => {{
                let mut state = Default::default();
                match $p.parse_with_state(&mut i, &mut state) {
                    Ok(_) => true,
                    Err(e) => {
                        let _ = format!("{:?}", e);
                        false
                    }
                }
            }};
        }
        match k {
            10 => go!(pr::take(n)),
            11 => go!((pr::take(m), pr::take(n))),
            12 => go!(pr::recognize(rep::skip_count(n, tok::any()))),
            13 => go!(pr::recognize((optional(pr::take(n)), optional(pr::take(m))))),
            14 => go!(pr::length_prefix(pr::take_while(|c: char| c.is_ascii_digit()).map(move |_| n))),
            15 => go!(pr::take_fn(move |h: &str| if h.len() >= n.min(h.len()) && m % 2 == 0 {
                combine::parser::range::TakeRange::Found(0)
            } else {
                combine::parser::range::TakeRange::NotFound(h.len())
            })),
            16 => {
                let before = i.checkpoint();
                let ok = i.uncons_range(n).is_ok();
                if !ok {
                    let _ = i.reset(before.clone()).is_ok();
                    let _ = i.uncons_range(m).is_ok();
                }
                i.distance(&before) <= 100
            }
            17 => go!(pr::take_until_range("ab")),
            18 => go!(many::<Vec<_>, _, _>(pr::take(n.max(1)))),
            _ => go!(many::<Vec<_>, _, _>(attempt((pr::take(1), optional(pr::take(n)))))),
        }
    }
    let piece: &'static str = {
        let at = t.char_indices().nth(cut).map_or(t.len(), |x| x.0);
        &t[..at]
    };
    let ok = if k < 10 {
        match src {
            0 => chars(k, n, m, lo, hi, t),
            1 => chars(k, n, m, lo, hi, EasyPos::from_str(t)),
            2 => chars(k, n, m, lo, hi, easy::Stream(PartialStream(piece))),
            3 => {
                let it = IteratorStream::new(t.chars());
                let look = *g.pick(&[0usize, 1, 2, 5]);
                chars(k, n, m, lo, hi, buffered::Stream::new(position::Stream::with_positioner(it, SourcePosition::new()), look))
            }
            4 => chars(k, n, m, lo, hi, MaybePartialStream(piece, true)),
            _ => {
                let v: Vec<char> = t.chars().collect();
                let s = SliceStream(&v[..]);
                let _ = s;
                chars(k, n, m, lo, hi, unsafe { lend_slice(&v) })
            }
        }
    } else {
        match src {
            0 | 5 => ranges(k, n, m, t),
            1 => ranges(k, n, m, EasyPos::from_str(t)),
            2 => ranges(k, n, m, easy::Stream(PartialStream(piece))),
            3 => ranges(k, n, m, combine::stream::CompleteStream(piece)),
            _ => ranges(k, n, m, MaybePartialStream(piece, cut % 2 == 0)),
        }
    };
    g.checks += 1;
    g.label(if ok { "ok" } else { "failed" });
    if n > 255 || m > 255 {
        g.nontrivial(hash_str(&format!("{} {} {} {} {} {}", k, n, m, text, src, cut)));
    }
    Ok(())
}

/// Length prefixed and other binary formats over arbitrary bytes
fn binary(g: &mut Gen) -> Res {
    let len = g.small(0, 40);
    let data: Vec<u8> = (0..len)
        .map(|_| match g.below(3) {
            0 => 0xff,
            1 => g.below(4) as u8,
            _ => g.below(256) as u8,
        })
        .collect();
    let k = g.below(12);
    let cut = g.below(len as u32 + 1) as usize;
    g.describe(|| format!("binary format {} on {:?}, cut at {}", k, data, cut));
    let d: &'static [u8] = unsafe { lend_slice(&data) };
    fn run<I>(k: u32, i: &mut I) -> bool
    where
        I: combine::RangeStream<Token = u8, Range = &'static [u8]>,
        I::Error: std::fmt::Debug,
    {
        use byte::num::*;
        macro_rules! go {
            ($p:expr) => {{
                let mut state = Default::default();
                match $p.parse_with_state(i, &mut state) {
                    Ok(_) => true,
                    Err(e) => {
                        let _ = format!("{:?}", e);
                        false
                    }
                }
            }};
        }
        match k {
            0 => go!(many::<Vec<_>, _, _>(pr::length_prefix(be_u32().map(|n| n as usize)))),
            1 => go!(many::<Vec<_>, _, _>(pr::length_prefix(le_u64().map(|n| n as usize)))),
            2 => go!(many::<Vec<_>, _, _>(tok::any().then_partial(|n: &mut u8| pr::take(*n as usize)))),
            3 => go!(many::<Vec<_>, _, _>(tok::any().then(|n: u8| rep::count::<Vec<_>, _, _>(n as usize, be_u16())))),
            4 => go!(be_u64().then(|n: u64| rep::count::<Vec<_>, _, _>(n as usize, tok::any()))),
            5 => go!(be_u64().then(|n: u64| rep::count_min_max::<Vec<_>, _, _>(0, n as usize, le_f32()))),
            6 => go!(many::<Vec<_>, _, _>((be_i64(), optional(le_i16())))),
            7 => go!(rep::sep_by::<Vec<_>, _, _, _>(byte::take_until_byte(0xff), byte::byte(0xff))),
            8 => go!(many::<Vec<_>, _, _>(byte::take_until_byte3(0xff, 0, 1).skip(tok::any()))),
            9 => go!(many::<Vec<_>, _, _>((byte::take_until_bytes(&[0xff, 0xff]), pr::take(2)))),
            10 => go!(many::<Vec<_>, _, _>(combine::parser::combinator::from_str::<_, u32, _>(pr::take_while1(|b: u8| b < 0xff)))),
            _ => go!(many::<Vec<_>, _, _>(pr::recognize((be_u16(), rep::skip_many(byte::byte(0)))))),
        }
    }
    let a = run(k, &mut { d });
    let _ = run(k, &mut easy::Stream(position::Stream::new(d)));
    let _ = run(k, &mut PartialStream(&d[..cut]));
    let _ = run(k, &mut easy::Stream(MaybePartialStream(&d[..cut], true)));
    let b = run(k, &mut MaybePartialStream(d, false));
    g.checks += 5;
    if a != b {
        return Err("a complete partial stream gives another outcome".into());
    }
    let r: Result<_, _> = many::<Vec<_>, _, _>(pr::length_prefix(byte::num::le_u16().map(|n: u16| n as usize))).easy_parse(d);
    if let Err(e) = r {
        let t = e.map_position(|p| p.translate_position(d)).map_range(|r| format!("{:?}", r)).map_token(|t| t as char);
        show(&t);
    }
    if len > 4 {
        g.nontrivial(hash_str(&format!("{} {:?} {}", k, data, cut)));
    }
    Ok(())
}

fn main() {
    h::runner::main(&Property {
        id: "C22",
        rule: "a case must end within the watchdog's time without a panic, built with debug assertions and overflow checks: suites 'nasty' (any grammar up to depth 6 over a stream that breaks, cannot go back far and counts the tokens asked for), 'chunks' (any grammar over input unrelated to it in up to 7 pieces), 'wide' and 'wide_static' (sequences and choices with more than 255 members in total), 'extreme' (counts and sizes up to usize::MAX on every source), 'binary' (length-prefixed formats over arbitrary bytes). Non-trivial: more than three tokens asked for / several steps / over 255 members / a size over 255 / over 4 bytes; distinct by grammar and input",
        assumptions: &[
            "repeated parsers consume input; user closures do not panic",
            "recursion (nested grammars, chainr1) is bounded by the stack and kept below 400 levels",
            "a suspended state is resumed only with the same parser and the rest of the same input",
        ],
        suites: &[
            Suite { name: "nasty", quick: 1_200_000, thorough: 30_000_000, f: nasty },
            Suite { name: "chunks", quick: 1_200_000, thorough: 30_000_000, f: chunks },
            Suite { name: "wide", quick: 60_000, thorough: 1_500_000, f: wide },
            Suite { name: "wide_static", quick: 4_000, thorough: 40_000, f: wide_static },
            Suite { name: "extreme", quick: 300_000, thorough: 6_000_000, f: extreme },
            Suite { name: "binary", quick: 300_000, thorough: 6_000_000, f: binary },
        ],
        known: &[],
    })
}
