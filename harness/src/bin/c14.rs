#[path = "../h/mod.rs"]
#[macro_use]
mod h;
use combine::error::{ErrorInfo, ParseError, ParseResult, StreamError, StringStreamError, Tracked};
use combine::stream::{decode, easy, MaybePartialStream, PointerOffset, Positioned, RangeStreamOnce, ResetStream, StreamErrorFor, StreamOnce};
use combine::{ParseResult::*, Parser};
use h::ast::*;
use h::build::*;
use h::gen::*;
use h::model::*;
use h::runner::*;

type Easy = easy::Stream<MaybePartialStream<&'static str>>;
type Plain = MaybePartialStream<&'static str>;
type Slice = MaybePartialStream<&'static [char]>;
str_src!(Easy, PointerOffset::new(0));
str_src!(Plain, PointerOffset::new(0));
tok_src!(Slice, PointerOffset::new(0));
str_src!(Lean, Pos(0));

/// Zero for the position parsers make up, otherwise the offset plus one
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Pos(usize);

/// An error type as a user might write it: only where the parse stopped, and whether there was
/// no more input. Everything that can be left to the defaults of the traits is.
#[derive(Clone, Debug, PartialEq)]
struct At {
    pos: Pos,
    eoi: bool,
}
#[derive(Clone, Debug, PartialEq)]
struct Cause {
    eoi: bool,
}
impl<T, R> StreamError<T, R> for Cause {
    fn unexpected_token(_: T) -> Self {
        Cause { eoi: false }
    }
    fn unexpected_range(_: R) -> Self {
        Cause { eoi: false }
    }
    fn unexpected_format<M: std::fmt::Display>(_: M) -> Self {
        Cause { eoi: false }
    }
    fn expected_token(_: T) -> Self {
        Cause { eoi: false }
    }
    fn expected_range(_: R) -> Self {
        Cause { eoi: false }
    }
    fn expected_format<M: std::fmt::Display>(_: M) -> Self {
        Cause { eoi: false }
    }
    fn message_token(_: T) -> Self {
        Cause { eoi: false }
    }
    fn message_range(_: R) -> Self {
        Cause { eoi: false }
    }
    fn message_format<M: std::fmt::Display>(_: M) -> Self {
        Cause { eoi: false }
    }
    fn end_of_input() -> Self {
        Cause { eoi: true }
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.eoi
    }
    fn into_other<S: StreamError<T, R>>(self) -> S {
        if self.eoi {
            S::end_of_input()
        } else {
            S::unexpected_static_message("something")
        }
    }
}
impl<T, R> ParseError<T, R, Pos> for At {
    type StreamError = Cause;
    fn empty(pos: Pos) -> Self {
        At { pos, eoi: false }
    }
    fn position(&self) -> Pos {
        self.pos
    }
    fn set_position(&mut self, pos: Pos) {
        self.pos = pos
    }
    fn merge(self, other: Self) -> Self {
        use std::cmp::Ordering::*;
        match self.pos.cmp(&other.pos) {
            Less => other,
            Greater => self,
            Equal => At { pos: self.pos, eoi: self.eoi || other.eoi },
        }
    }
    fn add(&mut self, e: Cause) {
        self.eoi |= e.eoi
    }
    fn add_expected<E: for<'s> ErrorInfo<'s, T, R>>(&mut self, _: E) {}
    fn set_expected<F: FnOnce(&mut Tracked<Self>)>(self_: &mut Tracked<Self>, _: Cause, f: F) {
        f(self_)
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.eoi
    }
    fn into_other<S: ParseError<T, R, Pos>>(self) -> S {
        S::from_error(self.pos, StreamError::into_other(Cause { eoi: self.eoi }))
    }
}

/// A stream written by a user, with that error type
#[derive(Clone, Debug)]
struct Lean {
    input: Plain,
    base: usize,
}
fn cause(e: StringStreamError) -> Cause {
    Cause { eoi: e == StringStreamError::Eoi }
}
impl StreamOnce for Lean {
    type Token = char;
    type Range = &'static str;
    type Position = Pos;
    type Error = At;
    fn uncons(&mut self) -> Result<char, StreamErrorFor<Self>> {
        self.input.uncons().map_err(cause)
    }
    fn is_partial(&self) -> bool {
        self.input.is_partial()
    }
}
impl Positioned for Lean {
    fn position(&self) -> Pos {
        Pos(self.input.0.as_ptr() as usize - self.base + 1)
    }
}
impl ResetStream for Lean {
    type Checkpoint = <Plain as ResetStream>::Checkpoint;
    fn checkpoint(&self) -> Self::Checkpoint {
        self.input.checkpoint()
    }
    fn reset(&mut self, c: Self::Checkpoint) -> Result<(), At> {
        let at = self.position();
        self.input.reset(c).map_err(|e| At { pos: at, eoi: e == StringStreamError::Eoi })
    }
}
impl RangeStreamOnce for Lean {
    fn uncons_range(&mut self, n: usize) -> Result<&'static str, Cause> {
        self.input.uncons_range(n).map_err(cause)
    }
    fn uncons_while<F: FnMut(char) -> bool>(&mut self, f: F) -> Result<&'static str, Cause> {
        self.input.uncons_while(f).map_err(cause)
    }
    fn distance(&self, end: &Self::Checkpoint) -> usize {
        self.input.distance(end)
    }
    fn range(&self) -> &'static str {
        self.input.range()
    }
}

struct Text<'a> {
    s: &'a str,
    chars: &'a [char],
    bounds: Vec<usize>,
}
trait Kind: Src + combine::RangeStream {
    fn make(t: &Text, from: usize, to: usize, partial: bool) -> Self;
    fn left(&self) -> usize;
    /// Where the error lies (0 if a parser made it up, otherwise the byte plus 1) and whether it is the end of input
    fn about(e: &Self::Error, t: &Text) -> (Option<usize>, Option<bool>);
    /// The same for a suspended or failed `decode`
    fn eoi(e: &Self::Error) -> bool {
        ParseError::<Self::Token, Self::Range, Self::Position>::is_unexpected_end_of_input(e)
    }
}
impl Kind for Easy {
    fn make(t: &Text, from: usize, to: usize, partial: bool) -> Self {
        easy::Stream(Plain::make(t, from, to, partial))
    }
    fn left(&self) -> usize {
        self.0.left()
    }
    fn about(e: &Self::Error, t: &Text) -> (Option<usize>, Option<bool>) {
        let at = if e.position == PointerOffset::new(0) {
            0
        } else {
            e.position.clone().translate_position(unsafe { lend_str(t.s) }) + 1
        };
        let eoi = e.errors.iter().any(|e| *e == easy::Error::end_of_input());
        (Some(at), Some(eoi))
    }
}
impl Kind for Plain {
    fn make(t: &Text, from: usize, to: usize, partial: bool) -> Self {
        MaybePartialStream(unsafe { lend_str(&t.s[t.bounds[from]..t.bounds[to]]) }, partial)
    }
    fn left(&self) -> usize {
        self.0.chars().count()
    }
    fn about(_: &Self::Error, _: &Text) -> (Option<usize>, Option<bool>) {
        (None, None)
    }
}
impl Kind for Slice {
    fn make(t: &Text, from: usize, to: usize, partial: bool) -> Self {
        MaybePartialStream(unsafe { lend_slice(&t.chars[from..to]) }, partial)
    }
    fn left(&self) -> usize {
        self.0.len()
    }
    fn about(_: &Self::Error, _: &Text) -> (Option<usize>, Option<bool>) {
        (None, None)
    }
}
impl Kind for Lean {
    fn make(t: &Text, from: usize, to: usize, partial: bool) -> Self {
        Lean { input: Plain::make(t, from, to, partial), base: t.s.as_ptr() as usize }
    }
    fn left(&self) -> usize {
        self.input.left()
    }
    fn about(e: &Self::Error, _: &Text) -> (Option<usize>, Option<bool>) {
        (Some(e.pos.0), Some(e.eoi))
    }
}

/// What a run gave: value, commit status, what is left, and where the error lies if it says so
#[derive(Debug, Clone)]
struct Out {
    value: Option<Val>,
    committed: bool,
    left: usize,
    at: Option<usize>,
    eoi: Option<bool>,
}
impl Out {
    fn same(&self, o: &Out) -> bool {
        fn agree<T: PartialEq>(a: &Option<T>, b: &Option<T>) -> bool {
            a.is_none() || b.is_none() || a == b
        }
        self.value == o.value && self.committed == o.committed && self.left == o.left && agree(&self.at, &o.at) && agree(&self.eoi, &o.eoi)
    }
}

fn whole<I: Kind>(a: &A, t: &Text, lazy: bool) -> Out {
    let sa = unsafe { lend(a) };
    let mut input = I::make(t, 0, t.chars.len(), false);
    let mut p = build::<I>(sa);
    let r = if lazy { p.parse_lazy(&mut input) } else { p.parse_stream(&mut input) };
    let ok = !matches!(r, PeekErr(_));
    out::<I>(r, if lazy && !ok { 0 } else { input.left() }, lazy, t)
}
fn out<I: Kind>(r: ParseResult<Val, I::Error>, left: usize, lazy: bool, t: &Text) -> Out {
    let (value, committed, error) = match r {
        CommitOk(v) => (Some(v), true, None),
        PeekOk(v) => (Some(v), false, None),
        CommitErr(e) => (None, true, Some(e)),
        PeekErr(e) => (None, false, Some(e.error)),
    };
    let (at, eoi) = match &error {
        // the error is not complete yet
        Some(_) if lazy && !committed => (None, None),
        Some(e) => I::about(e, t),
        None => (None, None),
    };
    Out { value, committed, left, at, eoi }
}

fn compare(name: &str, a: &Out, b: &Out) -> Res {
    if a.same(b) {
        Ok(())
    } else {
        Err(format!("{} gives {:?} but rich errors {:?}", name, b, a))
    }
}

fn complete(g: &mut Gen, a: &A, t: &Text, slice: bool) -> Res {
    let lazy = g.chance(1, 4);
    let easy = whole::<Easy>(a, t, lazy);
    compare("StringStreamError", &easy, &whole::<Plain>(a, t, lazy))?;
    compare("a user's error type", &easy, &whole::<Lean>(a, t, lazy))?;
    g.checks += 2;
    if slice {
        compare("UnexpectedParse", &easy, &whole::<Slice>(a, t, lazy))?;
        // nothing stops further than the furthest token looked at
        let mut m = M::new(t.chars);
        m.run(a);
        let far = t.bounds[m.far.min(t.chars.len())] + 1;
        if let Some(at) = easy.at {
            if at > far {
                return Err(format!("the error is at {} but the grammar looks at {} at most", at, far));
            }
        }
        g.checks += 2;
    }
    if !lazy {
        let l = whole::<Easy>(a, t, true);
        if (&l.value, l.committed) != (&easy.value, easy.committed) {
            return Err(format!("errors collected lazily: {:?}, eagerly: {:?}", l, easy));
        }
        g.checks += 1;
    }
    if easy.committed && easy.value.is_none() {
        g.label("committed_error");
    }
    if easy.committed || easy.at.map_or(false, |a| a > 1) {
        g.nontrivial(hash_str(&format!("{:?}|{}", a, t.s)));
    }
    Ok(())
}

/// What `decode` or `parse_with_state` gave for each piece
fn pieces<I: Kind>(a: &A, t: &Text, cuts: &[usize], with_decode: bool) -> Vec<Out> {
    let sa = unsafe { lend(a) };
    let mut p = build::<I>(sa);
    let mut state = Default::default();
    let (mut at, mut k) = (0, 0);
    let mut outs = vec![];
    let mut values = 0;
    loop {
        let to = cuts[k];
        let partial = k + 1 < cuts.len();
        let mut input = I::make(t, at, to, partial);
        let (value, error) = if with_decode {
            match decode(&mut p, &mut input, &mut state) {
                Ok((v, _)) => (v, None),
                Err(e) => (None, Some(e)),
            }
        } else {
            match p.parse_with_state(&mut input, &mut state) {
                Ok(v) => (Some(v), None),
                Err(e) => (None, Some(e)),
            }
        };
        let (pos, eoi) = error.as_ref().map_or((None, None), |e| I::about(e, t));
        let before = at;
        at = to - input.left();
        let is_value = value.is_some();
        let more = match &error {
            // decode: nothing and no error; otherwise an end of input error while there may be more
            None => !is_value,
            Some(e) => !with_decode && partial && I::eoi(e),
        };
        // `committed` says whether more is asked for
        outs.push(Out { value, committed: more, left: at, at: pos, eoi });
        if is_value {
            values += 1;
            if values > 3 || at == before {
                return outs;
            }
        } else if more && partial {
            k += 1;
        } else {
            return outs;
        }
    }
}

fn chunked(g: &mut Gen, a: &A, t: &Text, slice: bool) -> Res {
    let n = t.chars.len();
    let k = g.small(0, 4);
    let mut cuts: Vec<usize> = (0..k).map(|_| g.below(n as u32 + 1) as usize).collect();
    cuts.sort();
    cuts.push(n);
    let with_decode = g.bool();
    g.describe(|| format!("cut at {:?}, {}", cuts, if with_decode { "decode" } else { "parse_with_state" }));
    let easy = pieces::<Easy>(a, t, &cuts, with_decode);
    let mut check = |name: &str, o: Vec<Out>| {
        g.checks += 1;
        if o.len() == easy.len() && o.iter().zip(&easy).all(|(x, y)| x.same(y)) {
            Ok(())
        } else {
            Err(format!("{} gives {:?} but rich errors {:?} (committed: asks for more)", name, o, easy))
        }
    };
    check("StringStreamError", pieces::<Plain>(a, t, &cuts, with_decode))?;
    check("a user's error type", pieces::<Lean>(a, t, &cuts, with_decode))?;
    if slice {
        check("UnexpectedParse", pieces::<Slice>(a, t, &cuts, with_decode))?;
    }
    if easy.len() > 1 {
        g.label("pieces");
        g.nontrivial(hash_str(&format!("{:?}|{}|{:?}", a, t.s, cuts)));
    }
    Ok(())
}

fn run(g: &mut Gen, range: bool, partial: bool) -> Res {
    let o = Opts { range, partial, ..Opts::full() };
    let d = g.small(0, 4);
    let a = if g.chance(1, 4) { gen_rep(g, &o, d.max(1)) } else { gen_ast(g, &o, d) };
    a.label_all(g);
    for _ in 0..2 {
        let s = gen_input(&a, g);
        let chars: Vec<char> = s.chars().collect();
        let mut bounds: Vec<usize> = s.char_indices().map(|x| x.0).collect();
        bounds.push(s.len());
        let t = Text { s: &s, chars: &chars, bounds };
        g.describe(|| format!("{:?} on {:?}", a, s));
        if partial {
            chunked(g, &a, &t, !range)?;
        } else {
            complete(g, &a, &t, !range)?;
        }
    }
    Ok(())
}
fn tokens(g: &mut Gen) -> Res {
    run(g, false, false)
}
fn ranges(g: &mut Gen) -> Res {
    run(g, true, false)
}
fn token_pieces(g: &mut Gen) -> Res {
    run(g, false, true)
}
fn range_pieces(g: &mut Gen) -> Res {
    run(g, true, true)
}

fn main() {
    h::runner::main(&Property {
        id: "C14",
        rule: "a case runs one grammar on two inputs with rich errors (easy::Errors), StringStreamError, UnexpectedParse (token grammars only) and a user's error type that only keeps the furthest position, whole (eagerly and lazily) or in pieces through decode or parse_with_state; value, commit status, rest, whether more input is asked for and, where both say so, the error's position and whether it is the end of input must agree. Non-trivial: the parse committed or failed past the start / took more than one piece; distinct by grammar, input and cuts",
        assumptions: &[
            "errors of parse_lazy are only compared when committed, as documented",
            "slices of characters have no range parsers in common with strings, so those are compared on strings only",
        ],
        suites: &[
            Suite { name: "tokens", quick: 800_000, thorough: 16_000_000, f: tokens },
            Suite { name: "ranges", quick: 400_000, thorough: 8_000_000, f: ranges },
            Suite { name: "token_pieces", quick: 500_000, thorough: 10_000_000, f: token_pieces },
            Suite { name: "range_pieces", quick: 400_000, thorough: 8_000_000, f: range_pieces },
        ],
        known: &[],
    })
}
