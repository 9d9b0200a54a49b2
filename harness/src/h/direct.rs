//! Every way of running a parser, and parsers as the types the library gives them (grammars are
//! compiled to boxes, which hide the wrapper's own `parse_lazy` and friends).
use crate::h::ast::*;
use crate::h::build::*;
use combine::error::ParseResult;
use combine::parser::char as pc;
use combine::parser::combinator as comb;
use combine::parser::repeat as rep;
use combine::parser::sequence as seq;
use combine::parser::token as tok;
use combine::{choice, Parser};

pub type Str = &'static str;

pub trait Kind: Src {
    fn make(s: Str) -> Self;
    fn rest(&self) -> Str;
    fn show(e: &Self::Error) -> String;
}

/// What a parse did: value or error, whether it committed, and what is left (where that is defined)
#[derive(Debug, PartialEq, Clone)]
pub struct Did {
    pub value: Option<Val>,
    pub error: Option<String>,
    pub committed: Option<bool>,
    pub rest: Option<Str>,
}
pub fn did<I: Kind>(r: ParseResult<Val, I::Error>, input: &I) -> Did {
    use ParseResult::*;
    let (value, error, c) = match r {
        CommitOk(v) => (Some(v), None, true),
        PeekOk(v) => (Some(v), None, false),
        CommitErr(e) => (None, Some(I::show(&e)), true),
        PeekErr(e) => (None, Some(I::show(&e.error)), false),
    };
    Did { rest: value.as_ref().map(|_| input.rest()), value, error, committed: Some(c) }
}

/// Runs the parser in every way. The error is empty where a way does not promise a complete one.
/// The first is `parse_stream`.
pub fn ways<I: Kind, Q>(mk: &dyn Fn() -> Q, s: Str) -> Vec<(&'static str, Did)>
where
    Q: Parser<I, Output = Val>,
{
    fn flat<I: Kind>(r: Result<(Val, Str), I::Error>) -> Did {
        match r {
            Ok((v, rest)) => Did { value: Some(v), error: None, committed: None, rest: Some(rest) },
            Err(e) => Did { value: None, error: Some(I::show(&e)), committed: None, rest: None },
        }
    }
    let hide = |mut d: Did| {
        if d.committed == Some(false) && d.error.is_some() {
            d.error = Some(String::new());
        }
        d
    };
    let mut out = vec![];
    let mut input = I::make(s);
    let r = mk().parse_stream(&mut input);
    out.push(("parse_stream", did(r, &input)));
    out.push(("parse", flat::<I>(mk().parse(I::make(s)).map(|(v, i)| (v, i.rest())))));
    {
        let mut p = mk();
        out.push(("by_ref().parse", flat::<I>(Parser::<I>::by_ref(&mut p).parse(I::make(s)).map(|(v, i)| (v, i.rest())))));
        let mut p = mk();
        let mut q = &mut p;
        let mut input = I::make(s);
        let r = Parser::<I>::parse_stream(&mut q, &mut input);
        out.push(("parse_stream of a borrow", did(r, &input)));
        let mut input = I::make(s);
        let mut d: &mut dyn Parser<I, Output = Val, PartialState = Q::PartialState> = &mut p;
        let r = Parser::<I>::parse_stream(&mut d, &mut input);
        out.push(("parse_stream of a borrowed trait object", did(r, &input)));
    }
    {
        let mut input = I::make(s);
        let r = mk().parse_with_state(&mut input, &mut Default::default());
        out.push(("parse_with_state", flat::<I>(r.map(|v| (v, input.rest())))));
        let mut input = I::make(s);
        let r = mk().parse_stream_partial(&mut input, &mut Default::default());
        out.push(("parse_stream_partial", did(r, &input)));
    }
    {
        let mut input = I::make(s);
        let r = mk().parse_lazy(&mut input);
        out.push(("parse_lazy", hide(did(r, &input))));
        let mut input = I::make(s);
        let r = mk().parse_first(&mut input, &mut Default::default());
        out.push(("parse_first", hide(did(r, &input))));
        let mut input = I::make(s);
        let r = mk().parse_partial(&mut input, &mut Default::default());
        out.push(("parse_partial", hide(did(r, &input))));
        // completed as documented
        for way in 0..2 {
            let mut p = mk();
            let mut input = I::make(s);
            let mut r = match way {
                0 => p.parse_lazy(&mut input),
                _ => p.parse_first(&mut input, &mut Default::default()),
            };
            if let ParseResult::PeekErr(e) = &mut r {
                let mut i = I::make(s);
                match i.uncons() {
                    Ok(t) => combine::error::ParseError::add_unexpected(&mut e.error, combine::error::Token(t)),
                    Err(_) => combine::error::ParseError::add(&mut e.error, combine::error::StreamError::end_of_input()),
                }
                p.add_error(e);
            }
            out.push((["parse_lazy followed by add_error", "parse_first followed by add_error"][way], did(r, &input)));
        }
    }
    {
        // a parser written as a function
        let mut input = I::make(s);
        let mut p = combine::parser(|i: &mut I| mk().parse_stream(i).into_result());
        let r = p.parse_lazy(&mut input);
        out.push(("parser(|i| parse_stream)", did(r, &input)));
        let mut input = I::make(s);
        let mut f = |i: &mut I| mk().parse_stream(i).into_result();
        let q: &mut dyn FnMut(&mut I) -> combine::StdParseResult<Val, I> = &mut f;
        let mut q = q;
        let r = Parser::<I>::parse_lazy(&mut q, &mut input);
        out.push(("a function trait object", did(r, &input)));
    }
    out
}

/// Compares all the ways with the first
pub fn agree<I: Kind, Q>(mk: &dyn Fn() -> Q, s: Str, errors: bool, checks: &mut u64) -> Result<Did, String>
where
    Q: Parser<I, Output = Val>,
{
    let all = ways::<I, Q>(mk, s);
    let want = all[0].1.clone();
    for (name, got) in &all[1..] {
        *checks += 1;
        let mut w = want.clone();
        if got.committed.is_none() {
            w.committed = None
        }
        let mut got = got.clone();
        if !errors || got.error.as_deref() == Some("") {
            w.error = w.error.map(|_| String::new());
            got.error = got.error.map(|_| String::new());
        }
        if w != got {
            return Err(format!("{} gives {:?} but parse_stream {:?}", name, got, want));
        }
    }
    Ok(want)
}

/// Something to do with a parser of any type
pub trait Visit<I: Src> {
    type Out;
    fn visit<Q: Parser<I, Output = Val>>(&mut self, mk: &dyn Fn() -> Q) -> Self::Out
    where
        Q::PartialState: 'static;
}

combine::parser! {
    fn plain_macro[I](a: &'static A)(I) -> Val
    where [I: Src]
    {
        build::<I>(*a)
    }
}

/// How many of the forms below only wrap the first parser
#[allow(dead_code)]
pub const TRANSPARENT: usize = 17;
pub const FORMS: usize = 49;
/// `attempt` completes the error itself unless it is run through something else (see DESIGN.md)
pub const ATTEMPT: usize = 18;

/// Visits form `n` over two parsers. The type of the form is the library's own.
pub fn direct<I: Src, V: Visit<I>>(n: usize, x: &'static A, y: &'static A, v: &mut V) -> V::Out {
    let p = || build::<I>(x);
    let q = || build::<I>(y);
    fn l(v: Vec<Val>) -> Val {
        Val::L(v)
    }
    fn s(v: Vec<Val>) -> Val {
        Val::L(v)
    }
    match n {
        0 => v.visit(&|| if true { p().left() } else { q().right() }),
        1 => v.visit(&|| if true { p().right() } else { q().left() }),
        2 => v.visit(&|| comb::no_partial(p())),
        3 => v.visit(&|| comb::any_partial_state(p())),
        4 => v.visit(&|| comb::any_send_partial_state(SendState(p()))),
        5 => v.visit(&|| comb::any_send_sync_partial_state(SendState(p()))),
        6 => v.visit(&|| comb::lazy(p)),
        7 => v.visit(&|| comb::factory(|_: &mut I| p())),
        8 => v.visit(&|| Some(combine::opaque!(p())).unwrap()),
        9 => v.visit(&|| comb::opaque(move |f: &mut dyn FnMut(&mut dyn Parser<I, Output = Val, PartialState = combine::parser::combinator::AnyPartialState>)| f(&mut build::<I>(x)))),
        10 => v.visit(&|| p().map(|v| v)),
        11 => v.visit(&|| plain_macro::<I>(x)),
        12 => v.visit(&|| p().left::<P<I>>().right::<P<I>>().left::<P<I>>()),
        13 => v.visit(&|| comb::no_partial(comb::lazy(move || p().left::<P<I>>()))),
        14 => v.visit(&|| comb::factory(move |_: &mut I| comb::any_partial_state(build::<I>(x)))),
        15 => v.visit(&|| combine::dispatch!(x.nodes() % 2; 0 => p(), _ => comb::lazy(move || build::<I>(x)))),
        16 => v.visit(&|| combine::parser(move |i: &mut I| build::<I>(x).parse_stream(i).into_result()).left::<P<I>>()),
        // and those that do not
        17 => v.visit(&|| comb::ignore(p()).map(|_| Val::U)),
        18 => v.visit(&|| comb::attempt(p())),
        19 => v.visit(&|| comb::look_ahead(p())),
        20 => v.visit(&|| comb::not_followed_by(p().map(|_| "x")).map(|_| Val::U)),
        21 => v.visit(&|| combine::parser::choice::optional(p()).map(|o| Val::O(o.map(Box::new)))),
        22 => v.visit(&|| p().expected("thing")),
        23 => v.visit(&|| p().silent()),
        24 => v.visit(&|| p().message("text")),
        25 => v.visit(&|| p().with(q())),
        26 => v.visit(&|| p().skip(q())),
        27 => v.visit(&|| p().and(q()).map(|(a, b)| l(vec![a, b]))),
        28 => v.visit(&|| p().or(q())),
        29 => v.visit(&|| choice((p(), q().map(|v| v)))),
        30 => v.visit(&|| choice([p(), q()])),
        31 => v.visit(&|| (p(), q(), tok::eof()).map(|(a, b, _)| l(vec![a, b]))),
        32 => v.visit(&|| seq::between(p(), q(), tok::any().map(Val::C))),
        33 => v.visit(&|| p().then(move |a| build::<I>(y).map(move |b| l(vec![a.clone(), b])))),
        34 => v.visit(&|| p().then_partial(move |_| build::<I>(y))),
        35 => v.visit(&|| p().then_ref(move |_| build::<I>(y)).map(|(a, b)| l(vec![a, b]))),
        36 => v.visit(&|| p().flat_map(|v| if flat_map_ok(&v) { Ok(v) } else { Err(combine::error::ParseError::empty(I::zero_pos())) })),
        37 => v.visit(&|| rep::count_min_max::<Vec<Val>, _, _>(1, 2, p()).map(s)),
        38 => v.visit(&|| rep::count::<Vec<Val>, _, _>(2, p()).map(s)),
        39 => v.visit(&|| rep::skip_count(2, p()).map(|_| Val::U)),
        40 => v.visit(&|| rep::many1::<Vec<Val>, _, _>(seq::with(pc::char('a'), p())).map(s)),
        41 => v.visit(&|| rep::sep_by::<Vec<Val>, _, _, _>(pc::char('a').with(p()), q()).map(s)),
        42 => v.visit(&|| rep::sep_end_by1::<Vec<Val>, _, _, _>(pc::char('a').with(p()), q()).map(s)),
        43 => v.visit(&|| rep::chainl1(pc::char('a').with(p()), q().map(|o| move |a, b| l(vec![a, o, b])))),
        44 => v.visit(&|| rep::chainr1(pc::char('a').with(p()), q().map(|o| move |a, b| l(vec![a, o, b])))),
        45 => v.visit(&|| rep::repeat_until::<Vec<Val>, _, _, _>(tok::any().with(p()), q()).map(s)),
        46 => v.visit(&|| rep::escaped(pc::char('a').with(p()), 'b', q()).map(|_| Val::U)),
        47 => v.visit(&|| comb::recognize::<String, _, _>((p(), q())).map(Val::S)),
        _ => v.visit(&|| (p().map_input(|v, _: &mut I| v), tok::value(Val::U)).map(|(a, b)| l(vec![a, b]))),
    }
}

pub const WRAPPERS: [&str; 14] = [
    "left", "right", "no_partial", "any_partial_state", "any_send_partial_state", "any_send_sync_partial_state", "lazy", "any_partial_state lazy", "Box", "Box<dyn Parser>", "map", "parser",
    "left of right", "opaque",
];
/// Visits wrapper `n` around any parser
#[allow(dead_code)]
pub fn wrapped<I: Src, Q: Parser<I, Output = Val>, V: Visit<I>>(n: usize, mk: &dyn Fn() -> Q, v: &mut V) -> V::Out
where
    Q::PartialState: 'static,
{
    let other = || tok::value(Val::U);
    match n {
        0 => v.visit(&|| if true { mk().left() } else { other().right() }),
        1 => v.visit(&|| if true { mk().right() } else { other().left() }),
        2 => v.visit(&|| comb::no_partial(mk())),
        3 => v.visit(&|| comb::any_partial_state(mk())),
        4 => v.visit(&|| comb::any_send_partial_state(SendState(mk()))),
        5 => v.visit(&|| comb::any_send_sync_partial_state(SendState(mk()))),
        6 => v.visit(&|| comb::lazy(mk)),
        7 => v.visit(&|| comb::any_partial_state(comb::lazy(mk))),
        8 => v.visit(&|| Box::new(mk())),
        9 => v.visit(&|| {
            let b: Box<dyn Parser<I, Output = Val, PartialState = Q::PartialState>> = Box::new(mk());
            b
        }),
        10 => v.visit(&|| mk().map(|v| v)),
        11 => v.visit(&|| combine::parser(|i: &mut I| mk().parse_stream(i).into_result())),
        12 => v.visit(&|| mk().right::<P<I>>().left::<P<I>>()),
        _ => v.visit(&|| {
            comb::opaque(|f: &mut dyn FnMut(&mut dyn Parser<I, Output = Val, PartialState = combine::parser::combinator::AnyPartialState>)| {
                f(&mut comb::any_partial_state(mk()))
            })
        }),
    }
}

pub const SOME: usize = 9;
/// A few parsers that are not boxed, the first one being an attempt
#[allow(dead_code)]
pub fn some<I: Src, V: Visit<I>>(n: usize, x: &'static A, y: &'static A, v: &mut V) -> V::Out {
    let p = || build::<I>(x);
    let q = || build::<I>(y);
    match n {
        0 => v.visit(&|| comb::attempt(p())),
        1 => v.visit(&|| tok::any().map(Val::C)),
        2 => v.visit(&|| p().expected("thing")),
        3 => v.visit(&|| (p(), q()).map(|(a, b)| Val::L(vec![a, b]))),
        4 => v.visit(&|| choice((p(), q().map(|v| v)))),
        5 => v.visit(&|| combine::parser::choice::optional(p()).map(|o| Val::O(o.map(Box::new)))),
        6 => v.visit(&|| pc::string("ab").skip(pc::char('1')).map(|s| Val::S(s.into()))),
        7 => v.visit(&|| rep::sep_by1::<Vec<Val>, _, _, _>(p().and(pc::char('a')).map(|a| a.0), q()).map(Val::L)),
        _ => v.visit(&|| comb::not_followed_by(p().map(|_| "x")).with(q()).or(pc::digit().map(Val::C)).message("m")),
    }
}
