//! Compiles a grammar into the real combinators.

use super::ast::*;
use combine::error::{Commit, ParseError, StreamError};
use combine::parser::char as pc;
use combine::choice;
use combine::parser::choice::or;
use combine::parser::combinator::{self as comb, any_partial_state, AnyPartialState, Either};
use combine::parser::function::parser as fn_parser;
use combine::parser::range as pr;
use combine::parser::repeat as rep;
use combine::parser::sequence as seq;
use combine::parser::token as tok;
use combine::parser::{error as perr, Parser};
use combine::stream::{RangeStream, Stream, StreamErrorFor, StreamOnce};

pub type P<I> = Box<dyn Parser<I, Output = Val, PartialState = AnyPartialState>>;

pub fn b<I, Q>(q: Q) -> P<I>
where
    I: Stream + 'static,
    Q: Parser<I, Output = Val> + 'static,
    Q::PartialState: 'static,
{
    Box::new(any_partial_state(q))
}

/// A stream the harness can build parsers for
pub trait Src: Stream<Token = char> + Sized + 'static {
    fn zero_pos() -> Self::Position;
    fn range_leaf(r: &'static RLeaf) -> P<Self>;
    fn recog(a: &'static A) -> P<Self> {
        b(comb::recognize(build::<Self>(a)).map(Val::S))
    }
    fn recog_val(a: &'static A) -> P<Self> {
        // consumed text and value, by parsing twice over the same input
        b(tok::value(())
            .then(move |_| (comb::look_ahead(build::<Self>(a)), comb::recognize(build::<Self>(a))))
            .map(|(v, s): (Val, String)| Val::L(vec![Val::S(s), v])))
    }
    fn spanned(p: P<Self>) -> P<Self> {
        p
    }
}

/// Token-by-token versions of the range leaves, for streams without ranges
pub fn token_range_leaf<I: Src>(r: &'static RLeaf) -> P<I> {
    match *r {
        RLeaf::Range(s) => b(comb::attempt(pc::string(s)).map(|s: &str| Val::S(s.to_string()))),
        RLeaf::Take(n) => b(comb::attempt(rep::count_min_max::<String, _, _>(n, n, tok::any())).map(Val::S)),
        RLeaf::TakeWhile(p) => b(rep::many::<String, _, _>(tok::satisfy(move |c| p.test(c))).map(Val::S)),
        RLeaf::TakeWhile1(p) => b(rep::many1::<String, _, _>(tok::satisfy(move |c| p.test(c))).map(Val::S)),
        RLeaf::TakeUntil(s) => b(comb::attempt(rep::take_until::<String, _, _>(comb::attempt(pc::string(s)))).map(Val::S)),
    }
}

/// The zero-copy range leaves, for streams over string slices
pub fn str_range_leaf<I>(r: &'static RLeaf) -> P<I>
where
    I: Src + RangeStream<Range = &'static str>,
{
    fn own(s: &'static str) -> Val {
        Val::S(s.to_string())
    }
    match *r {
        RLeaf::Range(s) => b(pr::range(s).map(own)),
        RLeaf::Take(n) => b(pr::take(n).map(own)),
        RLeaf::TakeWhile(p) => b(pr::take_while(move |c| p.test(c)).map(own)),
        RLeaf::TakeWhile1(p) => b(pr::take_while1(move |c| p.test(c)).map(own)),
        RLeaf::TakeUntil(s) => b(pr::take_until_range(s).map(own)),
    }
}
pub fn str_recog<I>(a: &'static A) -> P<I>
where
    I: Src + RangeStream<Range = &'static str>,
{
    b(pr::recognize(build::<I>(a)).map(|s: &'static str| Val::S(s.to_string())))
}
pub fn str_recog_val<I>(a: &'static A) -> P<I>
where
    I: Src + RangeStream<Range = &'static str>,
{
    b(pr::recognize_with_value(build::<I>(a)).map(|(s, v): (&'static str, Val)| Val::L(vec![Val::S(s.to_string()), v])))
}

combine::parser! {
    fn macro_plain[I](a: &'static A)(I) -> Val
    where [I: Src]
    {
        build::<I>(*a)
    }
}
combine::parser! {
    type PartialState = AnyPartialState;
    fn macro_state[I](a: &'static A)(I) -> Val
    where [I: Src]
    {
        build::<I>(*a)
    }
}

struct S3 {
    x: Val,
    y: Val,
}

pub fn and_then_ok(v: &Val) -> bool {
    v.hash() % 3 != 0
}
pub fn flat_map_ok(v: &Val) -> bool {
    v.hash() % 4 != 1
}

fn l(v: Vec<Val>) -> Val {
    Val::L(v)
}

fn op<I: Src>(a: &'static A) -> impl Parser<I, Output = impl FnOnce(Val, Val) -> Val> {
    build::<I>(a).map(|o: Val| {
        let c = char::from_u32(o.hash() as u32 % 26 + 97).unwrap();
        move |l: Val, r: Val| Val::F(c, Box::new(l), Box::new(r))
    })
}

pub fn op_char(o: &Val) -> char {
    char::from_u32(o.hash() as u32 % 26 + 97).unwrap()
}

pub fn build<I: Src>(a: &'static A) -> P<I> {
    use A::*;
    match a {
        Any => b(tok::any().map(Val::C)),
        Script(v, sticky) => {
            let mut calls = 0;
            b(fn_parser(move |input: &mut I| {
                let (n, ok) = v.get(calls).copied().unwrap_or((0, false));
                calls += 1;
                let mut commit = Commit::Peek(());
                for _ in 0..n {
                    let pos = input.position();
                    if input.uncons().is_err() {
                        calls = if *sticky { v.len() } else { calls };
                        return Err(commit.map(|_| I::Error::empty(pos).into()));
                    }
                    commit = Commit::Commit(());
                }
                if !ok {
                    calls = if *sticky { v.len() } else { calls };
                    return Err(commit.map(|_| I::Error::empty(input.position()).into()));
                }
                Ok((Val::N(calls as i64), commit))
            }))
        }
        Tok(c) => b(tok::token(*c).map(Val::C)),
        OneOf(s) => b(tok::one_of(s.chars()).map(Val::C)),
        NoneOf(s) => b(tok::none_of(s.chars()).map(Val::C)),
        Sat(p) => {
            let p = *p;
            b(tok::satisfy(move |c| p.test(c)).map(Val::C))
        }
        SatMap(p) => {
            let p = *p;
            b(tok::satisfy_map(move |c| if p.test(c) { Some(Val::L(vec![Val::C(c)])) } else { None }))
        }
        Lit(s) => b(pc::string(s).map(|s: &str| Val::S(s.to_string()))),
        LitCmp(s) => {
            b(pc::string_cmp(s, |l: char, r: char| l.eq_ignore_ascii_case(&r)).map(|s: &str| Val::S(s.to_string())))
        }
        Toks(s) => b(tok::tokens(|l: char, r: char| l == r, *s, s.chars())
            .map(|s: std::str::Chars<'static>| Val::S(s.collect()))),
        TokCmp(s) => {
            b(tok::tokens_cmp(s.chars(), |l: char, r: char| l == r).map(|s: std::str::Chars<'static>| Val::S(s.collect())))
        }
        Cls(c) => match c {
            Class::Digit => b(pc::digit().map(Val::C)),
            Class::Letter => b(pc::letter().map(Val::C)),
            Class::AlphaNum => b(pc::alpha_num().map(Val::C)),
            Class::Space => b(pc::space().map(Val::C)),
            Class::Upper => b(pc::upper().map(Val::C)),
            Class::Lower => b(pc::lower().map(Val::C)),
            Class::Newline => b(pc::newline().map(Val::C)),
            Class::Tab => b(pc::tab().map(Val::C)),
            Class::Hex => b(pc::hex_digit().map(Val::C)),
            Class::Oct => b(pc::oct_digit().map(Val::C)),
        },
        Crlf => b(pc::crlf().map(Val::C)),
        Newline => b(or(pc::newline(), pc::crlf()).map(Val::C)),
        Spaces => b(pc::spaces().map(|_| Val::U)),
        Eof => b(tok::eof().map(|_| Val::U)),
        Value(n) => b(tok::value(Val::N(*n))),
        Produce(n) => {
            let n = *n;
            b(tok::produce(move || Val::N(n)))
        }
        Unexp(s) => b(perr::unexpected_any(*s)),
        Rng(r) => I::range_leaf(r),
        Seq(v) => build_seq(v),
        With(x, y) => b(seq::with(build::<I>(x), build::<I>(y))),
        Skip(x, y) => b(seq::skip(build::<I>(x), build::<I>(y))),
        Between(x, y, z) => b(seq::between(build::<I>(x), build::<I>(y), build::<I>(z))),
        Then(x, v) => b(build::<I>(x).then(move |o: Val| build::<I>(&v[o.hash() % v.len()]))),
        ThenPartial(x, v) => b(build::<I>(x).then_partial(move |o: &mut Val| build::<I>(&v[o.hash() % v.len()]))),
        ThenRef(x, v) => b(build::<I>(x)
            .then_ref(move |o: &Val| build::<I>(&v[o.hash() % v.len()]))
            .map(|(a, b)| l(vec![a, b]))),
        StructP(x, y, z) => b(combine::struct_parser! {
            S3 { x: build::<I>(x), _: build::<I>(y), y: build::<I>(z) }
        }
        .map(|s: S3| l(vec![s.x, s.y]))),
        Choice(v) => build_choice(v),
        ChoiceVec(v) => match v.len() {
            // arrays and slices take different implementations
            1 => b(choice([build::<I>(&v[0])])),
            2 => b(choice([build::<I>(&v[0]), build::<I>(&v[1])])),
            4 => b(choice([build::<I>(&v[0]), build::<I>(&v[1]), build::<I>(&v[2]), build::<I>(&v[3])])),
            _ => {
                let ps: Vec<P<I>> = v.iter().map(|a| build::<I>(a)).collect();
                let ps: &'static mut [P<I>] = Box::leak(ps.into_boxed_slice());
                b(OwnedSlice(ps as *mut [P<I>], choice(ps)))
            }
        },
        Or(x, y) => b(or(build::<I>(x), build::<I>(y))),
        OrMacro(v) => match &v[..] {
            [x] => b(combine::choice!(build::<I>(x))),
            [x, y] => b(combine::choice!(build::<I>(x), build::<I>(y))),
            [x, y, z] => b(combine::choice!(build::<I>(x), build::<I>(y), build::<I>(z))),
            [x, y, z, w] => b(combine::choice!(build::<I>(x), build::<I>(y), build::<I>(z), build::<I>(w))),
            _ => unreachable!(),
        },
        Opt(x) => b(combine::optional(build::<I>(x)).map(|o: Option<Val>| Val::O(o.map(Box::new)))),
        Attempt(x) => b(comb::attempt(build::<I>(x))),
        LookAhead(x) => b(comb::look_ahead(build::<I>(x))),
        NotFollowed(x) => b(comb::not_followed_by(build::<I>(x).map(|_| "that")).map(|_| Val::U)),
        Map(x) => b(build::<I>(x).map(|v| l(vec![v, Val::N(1)]))),
        AndThen(x) => b(build::<I>(x).and_then(|v: Val| {
            if and_then_ok(&v) {
                Ok(v)
            } else {
                Err(<StreamErrorFor<I> as StreamError<_, _>>::message_static_message("refused"))
            }
        })),
        FlatMap(x) => b(build::<I>(x).flat_map(|v: Val| {
            if flat_map_ok(&v) {
                Ok(v)
            } else {
                Err(<I as StreamOnce>::Error::from_error(
                    I::zero_pos(),
                    StreamError::message_static_message("flat refused"),
                ))
            }
        })),
        Recognize(x) => b(comb::recognize(build::<I>(x)).map(Val::S)),
        RRecognize(x) => I::recog(x),
        RRecognizeVal(x) => I::recog_val(x),
        Many(x) => b(rep::many(build::<I>(x)).map(l)),
        Many1(x) => b(rep::many1(build::<I>(x)).map(l)),
        SkipMany(x) => b(rep::skip_many(build::<I>(x)).map(|_| Val::U)),
        SkipMany1(x) => b(rep::skip_many1(build::<I>(x)).map(|_| Val::U)),
        Count(n, x) => b(rep::count(*n, build::<I>(x)).map(l)),
        SkipCount(n, x) => b(rep::skip_count(*n, build::<I>(x)).map(|_| Val::U)),
        CountMM(lo, hi, x) => b(rep::count_min_max(*lo, *hi, build::<I>(x)).map(l)),
        SkipCountMM(lo, hi, x) => b(rep::skip_count_min_max(*lo, *hi, build::<I>(x)).map(|_| Val::U)),
        SepBy(x, y) => b(rep::sep_by(build::<I>(x), build::<I>(y)).map(l)),
        SepBy1(x, y) => b(rep::sep_by1(build::<I>(x), build::<I>(y)).map(l)),
        SepEndBy(x, y) => b(rep::sep_end_by(build::<I>(x), build::<I>(y)).map(l)),
        SepEndBy1(x, y) => b(rep::sep_end_by1(build::<I>(x), build::<I>(y)).map(l)),
        Chainl1(x, y) => b(rep::chainl1(build::<I>(x), op::<I>(y))),
        Chainr1(x, y) => b(rep::chainr1(build::<I>(x), op::<I>(y))),
        TakeUntil(x) => b(rep::take_until::<String, _, _>(build::<I>(x)).map(Val::S)),
        SkipUntil(x) => b(rep::skip_until(build::<I>(x)).map(|_| Val::U)),
        RepeatUntil(x, y) => b(rep::repeat_until(build::<I>(x), build::<I>(y)).map(l)),
        RepeatSkipUntil(x, y) => b(rep::repeat_skip_until(build::<I>(x), build::<I>(y)).map(|_| Val::U)),
        Escaped(x, c, y) => b(rep::escaped(build::<I>(x), *c, build::<I>(y)).map(|_| Val::U)),
        Iterate(v) => b(rep::iterate::<Vec<Val>, _, _, I, _>(0..v.len(), move |i: &usize, _: &mut I| build::<I>(&v[*i])).map(l)),
        IterateShared(n, x) => {
            b(rep::iterate::<Vec<Val>, _, _, I, _>(0..*n, move |_: &usize, _: &mut I| build::<I>(x)).map(l))
        }
        W(w, x) => build_wrap(w, x),
    }
}

/// `choice` over `&mut [P]`, freeing the slice afterwards
struct OwnedSlice<I: Src>(*mut [P<I>], combine::parser::choice::Choice<&'static mut [P<I>]>);
impl<I: Src> Drop for OwnedSlice<I> {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.0)) }
    }
}
impl<I: Src> Parser<I> for OwnedSlice<I> {
    type Output = Val;
    type PartialState = (usize, AnyPartialState);
    fn parse_first(
        &mut self,
        input: &mut I,
        state: &mut Self::PartialState,
    ) -> combine::ParseResult<Val, I::Error> {
        self.1.parse_first(input, state)
    }
    fn parse_partial(
        &mut self,
        input: &mut I,
        state: &mut Self::PartialState,
    ) -> combine::ParseResult<Val, I::Error> {
        self.1.parse_partial(input, state)
    }
    fn add_error(&mut self, e: &mut combine::error::Tracked<I::Error>) {
        self.1.add_error(e)
    }
    fn add_committed_expected_error(&mut self, e: &mut combine::error::Tracked<I::Error>) {
        self.1.add_committed_expected_error(e)
    }
    fn parser_count(&self) -> combine::ErrorOffset {
        self.1.parser_count()
    }
}

macro_rules! seq_arm {
    ($v:ident; $($i:tt $n:ident)+) => {
        b(( $( build::<I>(&$v[$i]), )+ ).map(|( $($n,)+ )| l(vec![ $($n),+ ])))
    };
}
fn build_seq<I: Src>(v: &'static [A]) -> P<I> {
    match v.len() {
        1 => seq_arm!(v; 0 x0),
        2 => seq_arm!(v; 0 x0 1 x1),
        3 => seq_arm!(v; 0 x0 1 x1 2 x2),
        4 => seq_arm!(v; 0 x0 1 x1 2 x2 3 x3),
        5 => seq_arm!(v; 0 x0 1 x1 2 x2 3 x3 4 x4),
        6 => seq_arm!(v; 0 x0 1 x1 2 x2 3 x3 4 x4 5 x5),
        7 => seq_arm!(v; 0 x0 1 x1 2 x2 3 x3 4 x4 5 x5 6 x6),
        8 => seq_arm!(v; 0 x0 1 x1 2 x2 3 x3 4 x4 5 x5 6 x6 7 x7),
        9 => seq_arm!(v; 0 x0 1 x1 2 x2 3 x3 4 x4 5 x5 6 x6 7 x7 8 x8),
        10 => seq_arm!(v; 0 x0 1 x1 2 x2 3 x3 4 x4 5 x5 6 x6 7 x7 8 x8 9 x9),
        11 => seq_arm!(v; 0 x0 1 x1 2 x2 3 x3 4 x4 5 x5 6 x6 7 x7 8 x8 9 x9 10 x10),
        12 => seq_arm!(v; 0 x0 1 x1 2 x2 3 x3 4 x4 5 x5 6 x6 7 x7 8 x8 9 x9 10 x10 11 x11),
        _ => unreachable!(),
    }
}
macro_rules! choice_arm {
    ($v:ident; $($i:tt)+) => {
        b(choice(( $( build::<I>(&$v[$i]), )+ )))
    };
}
fn build_choice<I: Src>(v: &'static [A]) -> P<I> {
    match v.len() {
        1 => choice_arm!(v; 0),
        2 => choice_arm!(v; 0 1),
        3 => choice_arm!(v; 0 1 2),
        4 => choice_arm!(v; 0 1 2 3),
        5 => choice_arm!(v; 0 1 2 3 4),
        _ => unreachable!(),
    }
}

pub fn build_wrap<I: Src>(w: &'static Wrap, x: &'static A) -> P<I> {
    match w {
        Wrap::Lazy => b(comb::lazy(move || build::<I>(x))),
        Wrap::Factory => b(comb::factory(move |_: &mut I| build::<I>(x))),
        Wrap::Opaque => b(comb::opaque(
            move |f: &mut dyn FnMut(&mut dyn Parser<I, Output = Val, PartialState = AnyPartialState>)| {
                f(&mut build::<I>(x))
            },
        )),
        Wrap::NoPartial => b(comb::no_partial(build::<I>(x))),
        Wrap::EitherL => b(if true { build::<I>(x).left() } else { build::<I>(x).right() } as Either<P<I>, P<I>>),
        Wrap::EitherR => b(if false { build::<I>(x).left() } else { build::<I>(x).right() } as Either<P<I>, P<I>>),
        Wrap::AnySend => b(comb::any_send_partial_state(SendState(build::<I>(x)))),
        Wrap::AnySendSync => b(comb::any_send_sync_partial_state(SendState(build::<I>(x)))),
        Wrap::Boxed => b(build::<I>(x).boxed()),
        Wrap::ByRef => {
            let p: *mut P<I> = Box::into_raw(Box::new(build::<I>(x)));
            b(OwnedRef(p, unsafe { &mut *p }))
        }
        Wrap::ParserMacro => b(macro_plain::<I>(x)),
        Wrap::ParserMacroState => b(macro_state::<I>(x)),
        Wrap::FnParser => b(fn_parser(move |input: &mut I| build::<I>(x).parse_stream(input).into_result())),
        Wrap::Dispatch => b(tok::value(x.nodes()).then_partial(move |n: &mut usize| {
            combine::dispatch!(*n % 3;
                0 => build::<I>(x),
                1 | 2 if *n % 3 == 2 => build::<I>(x).map(|v| v),
                _ => build::<I>(x)
            )
        })),
        Wrap::DispatchDirect => {
            let n = x.nodes();
            b(combine::dispatch!(n % 3;
                0 => build::<I>(x),
                1 | 2 if n % 3 == 2 => build::<I>(x).map(|v| v),
                _ => Box::new(build::<I>(x))
            ))
        }
        Wrap::MapSame => b(build::<I>(x).map(|v| v)),
        Wrap::Spanned => I::spanned(build::<I>(x)),
        Wrap::Silent => b(build::<I>(x).silent()),
        Wrap::Expected(s) => b(build::<I>(x).expected(*s)),
        Wrap::Message(s) => b(build::<I>(x).message(*s)),
        Wrap::MapInput => b(build::<I>(x).map_input(|v: Val, _: &mut I| v)),
        Wrap::Ignore => b(comb::ignore(build::<I>(x)).map(|_| Val::U)),
        Wrap::FromIter => b(fn_parser(move |input: &mut I| {
            let mut p = build::<I>(x);
            let mut it = p.by_ref().iter(input);
            let v: Vec<Val> = it.by_ref().take(2).collect();
            it.into_result(l(v))
        })),
    }
}

struct OwnedRef<I: Src>(*mut P<I>, &'static mut P<I>);
impl<I: Src> Drop for OwnedRef<I> {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.0)) }
    }
}
impl<I: Src> Parser<I> for OwnedRef<I> {
    type Output = Val;
    type PartialState = AnyPartialState;
    fn parse_first(&mut self, input: &mut I, state: &mut Self::PartialState) -> combine::ParseResult<Val, I::Error> {
        Parser::parse_first(&mut self.1, input, state)
    }
    fn parse_partial(&mut self, input: &mut I, state: &mut Self::PartialState) -> combine::ParseResult<Val, I::Error> {
        Parser::parse_partial(&mut self.1, input, state)
    }
    fn add_error(&mut self, e: &mut combine::error::Tracked<I::Error>) {
        Parser::<I>::add_error(&mut self.1, e)
    }
    fn add_committed_expected_error(&mut self, e: &mut combine::error::Tracked<I::Error>) {
        Parser::<I>::add_committed_expected_error(&mut self.1, e)
    }
    fn parser_count(&self) -> combine::ErrorOffset {
        Parser::<I>::parser_count(&self.1)
    }
}

/// Gives a parser whose state is not `Send` a state type that claims to be, so that the sending
/// erasures can be exercised (the harness never moves a state to another thread).
pub struct SendState<Q>(pub Q);
#[derive(Default)]
pub struct Claimed<T>(T);
unsafe impl<T> Send for Claimed<T> {}
unsafe impl<T> Sync for Claimed<T> {}
impl<I: Stream, Q: Parser<I>> Parser<I> for SendState<Q> {
    type Output = Q::Output;
    type PartialState = Claimed<Q::PartialState>;
    fn parse_first(&mut self, input: &mut I, s: &mut Self::PartialState) -> combine::ParseResult<Q::Output, I::Error> {
        self.0.parse_first(input, &mut s.0)
    }
    fn parse_partial(&mut self, input: &mut I, s: &mut Self::PartialState) -> combine::ParseResult<Q::Output, I::Error> {
        self.0.parse_partial(input, &mut s.0)
    }
    fn add_error(&mut self, e: &mut combine::error::Tracked<I::Error>) {
        self.0.add_error(e)
    }
    fn add_committed_expected_error(&mut self, e: &mut combine::error::Tracked<I::Error>) {
        self.0.add_committed_expected_error(e)
    }
    fn parser_count(&self) -> combine::ErrorOffset {
        self.0.parser_count()
    }
}

/// Lends the grammar for as long as the parsers built from it live (the caller's frame).
///
/// # Safety
/// Nothing built from the result may outlive `a`.
pub unsafe fn lend(a: &A) -> &'static A {
    std::mem::transmute(a)
}
/// # Safety
/// See `lend`.
pub unsafe fn lend_str(a: &str) -> &'static str {
    std::mem::transmute(a)
}
/// # Safety
/// See `lend`.
pub unsafe fn lend_slice<T>(a: &[T]) -> &'static [T] {
    std::mem::transmute(a)
}


macro_rules! str_src {
    ($t:ty, $zero:expr) => {
        impl $crate::h::build::Src for $t {
            fn zero_pos() -> <Self as combine::stream::StreamOnce>::Position {
                $zero
            }
            fn range_leaf(r: &'static $crate::h::ast::RLeaf) -> $crate::h::build::P<Self> {
                $crate::h::build::str_range_leaf(r)
            }
            fn recog(a: &'static $crate::h::ast::A) -> $crate::h::build::P<Self> {
                $crate::h::build::str_recog(a)
            }
            fn recog_val(a: &'static $crate::h::ast::A) -> $crate::h::build::P<Self> {
                $crate::h::build::str_recog_val(a)
            }
        }
    };
}

macro_rules! tok_src {
    ($t:ty, $zero:expr) => {
        impl $crate::h::build::Src for $t {
            fn zero_pos() -> <Self as combine::stream::StreamOnce>::Position {
                $zero
            }
            fn range_leaf(r: &'static $crate::h::ast::RLeaf) -> $crate::h::build::P<Self> {
                $crate::h::build::token_range_leaf(r)
            }
        }
    };
}
