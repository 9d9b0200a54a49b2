#[path = "../h/mod.rs"]
#[macro_use]
mod h;
use combine::stream::{easy, span, span::Span, MaybePartialStream, PointerOffset};
use combine::{ParseResult, ParseResult::*, Parser};
#[path = "../h/direct.rs"]
mod direct;
use direct::{agree, ways, Did, Kind, Str, Visit};
use h::ast::*;
use h::build::*;
use h::gen::*;
use h::runner::*;

type Inner = easy::Stream<MaybePartialStream<&'static str>>;
type Errs = easy::Errors<char, &'static str, Span<PointerOffset<str>>>;
type In = span::Stream<Inner, Errs>;
impl Src for In {
    fn zero_pos() -> Span<PointerOffset<str>> {
        Span::from(PointerOffset::new(0))
    }
    fn range_leaf(r: &'static RLeaf) -> P<Self> {
        str_range_leaf(r)
    }
    fn recog(a: &'static A) -> P<Self> {
        str_recog(a)
    }
    fn recog_val(a: &'static A) -> P<Self> {
        str_recog_val(a)
    }
    fn spanned(p: P<Self>) -> P<Self> {
        b(p.spanned())
    }
}
fn input(s: &str, from: usize, to: usize, partial: bool) -> In {
    easy::Stream(MaybePartialStream(unsafe { lend_str(&s[from..to]) }, partial)).into()
}
fn left(i: &In) -> usize {
    i.0 .0 .0.len()
}

#[derive(Debug, Clone, PartialEq)]
struct Fault {
    /// byte offsets, usize::MAX if made up
    start: usize,
    end: usize,
    what: Vec<String>,
}
fn fault(e: &Errs, s: &str) -> Fault {
    let tr = |p: &PointerOffset<str>| {
        if *p == PointerOffset::new(0) {
            usize::MAX
        } else {
            p.clone().translate_position(unsafe { lend_str(s) })
        }
    };
    let mut what: Vec<String> = e.errors.iter().map(|e| format!("{:?}", e)).collect();
    what.sort();
    Fault { start: tr(&e.position.start), end: tr(&e.position.end), what }
}
#[derive(Debug, Clone, PartialEq)]
struct Out<T = Val> {
    value: Option<T>,
    committed: bool,
    left: usize,
    fault: Option<Fault>,
}
impl<T: PartialEq> Out<T> {
    fn same(&self, o: &Self, errors: bool) -> bool {
        (&self.value, self.committed, self.left) == (&o.value, o.committed, o.left) && (!errors || self.fault == o.fault)
    }
}
fn out<T>(r: ParseResult<T, Errs>, left: usize, s: &str) -> Out<T> {
    let (value, committed, e) = match r {
        CommitOk(v) => (Some(v), true, None),
        PeekOk(v) => (Some(v), false, None),
        CommitErr(e) => (None, true, Some(e)),
        PeekErr(e) => (None, false, Some(e.error)),
    };
    Out { value, committed, left, fault: e.map(|e| fault(&e, s)) }
}
fn whole<T, Q: Parser<In, Output = T>>(p: &mut Q, s: &str) -> Out<T> {
    let mut i = input(s, 0, s.len(), false);
    let r = p.parse_stream(&mut i);
    out(r, left(&i), s)
}
/// The outcome of every step over the pieces
fn pieces<T, Q: Parser<In, Output = T>>(p: &mut Q, s: &str, cuts: &[usize], with_decode: bool) -> Vec<Out<T>> {
    let mut state = Default::default();
    let (mut at, mut k, mut values) = (0, 0, 0);
    let mut outs = vec![];
    let mut start = 0;
    loop {
        let partial = k + 1 < cuts.len();
        let mut i = input(s, at, cuts[k], partial);
        let (value, error) = if with_decode {
            match combine::stream::decode(&mut *p, &mut i, &mut state) {
                Ok((v, _)) => (v, None),
                Err(e) => (None, Some(e)),
            }
        } else {
            match p.parse_with_state(&mut i, &mut state) {
                Ok(v) => (Some(v), None),
                Err(e) => (None, Some(e)),
            }
        };
        at = cuts[k] - left(&i);
        let is_value = value.is_some();
        let more = match &error {
            None => !is_value,
            Some(e) => !with_decode && partial && e.errors.iter().any(|e| *e == easy::Error::end_of_input()),
        };
        outs.push(Out { value, committed: more, left: at, fault: error.map(|e| fault(&e, s)) });
        if is_value {
            values += 1;
            if values > 2 || at == start {
                return outs;
            }
            start = at;
        } else if more && partial {
            k += 1;
        } else {
            return outs;
        }
    }
}

fn strip(a: &mut A) {
    for k in a.kids_mut() {
        strip(k)
    }
    while let A::W(w, x) = a {
        match w {
            Wrap::Expected(_) | Wrap::Message(_) | Wrap::Silent | Wrap::Ignore | Wrap::FromIter => break,
            _ => {
                let x = std::mem::replace(&mut **x, A::Eof);
                *a = x
            }
        }
    }
}
fn insert(a: &mut A, g: &mut Gen, wraps: &[Wrap], n: &mut usize) {
    for k in a.kids_mut() {
        insert(k, g, wraps, n)
    }
    while g.chance(1, 4) {
        let mut w = g.pick(wraps).clone();
        // a factory makes its parser when it sees the input, parsers that are made anew each time lose it
        if matches!(w, Wrap::Lazy | Wrap::Opaque | Wrap::ParserMacro | Wrap::ParserMacroState) && a.any(&|a| matches!(a, A::W(Wrap::Factory, _))) {
            w = Wrap::Boxed;
        }
        let x = std::mem::replace(a, A::Eof);
        *a = A::W(w, Box::new(x));
        *n += 1;
    }
}
const WRAPS: [Wrap; 14] = [
    Wrap::Lazy,
    Wrap::Factory,
    Wrap::Opaque,
    Wrap::EitherL,
    Wrap::EitherR,
    Wrap::AnySend,
    Wrap::AnySendSync,
    Wrap::Boxed,
    Wrap::ByRef,
    Wrap::ParserMacro,
    Wrap::ParserMacroState,
    Wrap::DispatchDirect,
    Wrap::MapSame,
    Wrap::NoPartial,
];

fn summary(v: Vec<Out>) -> Vec<Out> {
    v.into_iter()
        .filter(|o| !o.committed)
        .map(|o| if o.value.is_some() { o } else { Out { left: 0, fault: o.fault.map(|f| Fault { start: 0, end: 0, ..f }), ..o } })
        .collect()
}
fn chooses(a: &A) -> bool {
    a.any(&|a| matches!(a, A::Choice(_) | A::ChoiceVec(_) | A::Or(..) | A::OrMacro(_) | A::Newline))
}
/// A factory that was not asked for a parser yet does not know what is expected; parsers driven
/// through an iterator hand out their errors unfinished; after a sequence that ends in a choice the
/// parsers behind it may or may not be listed (tests::choice_compose_issue_175 wants them left out)
fn errors_vary(a: &A) -> bool {
    a.any(&|a| match a {
        A::W(Wrap::Factory | Wrap::FromIter, _) | A::Iterate(..) | A::IterateShared(..) | A::CountMM(..) | A::SkipCountMM(..) => true,
        A::W(Wrap::Silent, x) => x.any(&|x| matches!(x, A::W(Wrap::Message(_), _))),
        A::Seq(v) => v.iter().any(chooses),
        A::With(x, y) | A::Skip(x, y) => chooses(x) || chooses(y),
        A::Between(x, y, z) | A::StructP(x, y, z) => chooses(x) || chooses(y) || chooses(z),
        _ => false,
    })
}

/// Any grammar with wrappers at any of its nodes
fn tree(g: &mut Gen, partial: bool, wraps: &[Wrap], errors: bool) -> Res {
    let o = Opts { range: true, partial, ..Opts::full() };
    let d = g.small(0, 4);
    let mut a = if g.chance(1, 4) { gen_rep(g, &o, d.max(1)) } else { gen_ast(g, &o, d) };
    strip(&mut a);
    let mut w = a.clone();
    let mut n = 0;
    insert(&mut w, g, wraps, &mut n);
    if n == 0 {
        w = A::W(g.pick(wraps).clone(), Box::new(w));
    }
    w.label_all(g);
    let errors = errors && !errors_vary(&w);
    for _ in 0..2 {
        let s = gen_input(&a, g);
        g.describe(|| format!("{:?} on {:?}", w, s));
        let (pa, pw) = unsafe { (&mut build::<In>(lend(&a)), &mut build::<In>(lend(&w))) };
        g.checks += 1;
        if partial {
            let mut bounds: Vec<usize> = s.char_indices().map(|x| x.0).collect();
            bounds.push(s.len());
            let k = g.small(0, 4);
            let mut cuts: Vec<usize> = (0..k).map(|_| bounds[g.below(bounds.len() as u32) as usize]).collect();
            cuts.sort();
            cuts.push(s.len());
            let with_decode = g.bool();
            g.describe(|| format!("{:?} on {:?} cut at {:?}, {}", w, s, cuts, if with_decode { "decode" } else { "parse_with_state" }));
            let (x, y) = (pieces(pa, &s, &cuts, with_decode), pieces(pw, &s, &cuts, with_decode));
            // a parser that cannot be suspended starts again, what comes of it is the same
            let restarts = w.any(&|a| matches!(a, A::W(Wrap::NoPartial | Wrap::ParserMacro, _)));
            let (x, y) = if restarts { (summary(x), summary(y)) } else { (x, y) };
            if x.len() != y.len() || x.iter().zip(&y).any(|(x, y)| !x.same(y, errors)) {
                return Err(format!("bare {:?} but wrapped {:?}", x, y));
            }
            if x.len() > 1 {
                g.nontrivial(hash_str(&format!("{:?}{}{:?}", w, s, cuts)));
            }
        } else {
            let (x, y) = (whole(pa, &s), whole(pw, &s));
            if !x.same(&y, errors) {
                return Err(format!("bare {:?} but wrapped {:?}", x, y));
            }
            if x.fault.is_some() || x.left < s.len() {
                g.nontrivial(hash_str(&format!("{:?}{}", w, s)));
            }
        }
    }
    Ok(())
}
fn trees(g: &mut Gen) -> Res {
    tree(g, false, &WRAPS, true)
}
fn tree_pieces(g: &mut Gen) -> Res {
    tree(g, true, &WRAPS[..WRAPS.len() - 1], true)
}
fn spans(g: &mut Gen) -> Res {
    let partial = g.bool();
    tree(g, partial, &[Wrap::Spanned, Wrap::Spanned, Wrap::Boxed, Wrap::Lazy], false)
}

/// One wrapper around the whole: also the span it gives to the error
fn span_top(g: &mut Gen) -> Res {
    let o = Opts { range: true, ..Opts::full() };
    let d = g.small(0, 4);
    let mut a = gen_ast(g, &o, d);
    strip(&mut a);
    let a0 = a.clone();
    let n = g.below(3) as usize;
    let lead = A::Rng(RLeaf::Take(n));
    let bare = A::Seq(vec![lead.clone(), a.clone()]);
    let wrapped = A::Seq(vec![lead, A::W(Wrap::Spanned, Box::new(a))]);
    let s = format!("{}{}", &"xyz"[..n], gen_input(&a0, g));
    let from = n;
    g.describe(|| format!("{:?} on {:?}", wrapped, s));
    let (x, y) = unsafe { (whole(&mut build::<In>(lend(&bare)), &s), whole(&mut build::<In>(lend(&wrapped)), &s)) };
    g.checks += 1;
    if !x.same(&y, false) {
        return Err(format!("bare {:?} but spanned {:?}", x, y));
    }
    if let (Some(e), Some(f)) = (&x.fault, &y.fault) {
        if e.what != f.what {
            return Err(format!("bare {:?} but spanned {:?}", e, f));
        }
        // from the start of the parse to where it ended
        if f.start != from || f.end < from {
            return Err(format!("the span is {}..{}, the parse was from {} to {}", f.start, f.end, from, s.len() - y.left));
        }
        if f.start != f.end {
            g.label("span");
            g.nontrivial(hash_str(&format!("{:?}{}", wrapped, s)));
        }
    }
    Ok(())
}

combine::parser! {
    #[derive(Clone, Copy)]
    pub struct Named;
    type PartialState = combine::parser::combinator::AnyPartialState;
    /// Two arguments, a state and a name of its own
    pub fn named[](a: &'static A, n: usize)(In) -> Val
    where []
    {
        let p = build::<In>(*a);
        let n = *n;
        p.map(move |v| if n > 99 { Val::U } else { v })
    }
}
struct Rec {
    x: Val,
    y: Val,
}
struct Pair(Val, Val);
fn env_fn(a: &'static A, i: &mut In) -> combine::StdParseResult<Val, In> {
    build::<In>(a).parse_stream(i).into_result()
}
fn mk(a: &'static A) -> P<In> {
    build::<In>(a)
}
/// The wrapped parser and the plain one that it stands for
fn form(kind: u32, n: usize, v: &'static [A]) -> (P<In>, P<In>) {
    use combine::parser::{choice as alt, combinator as comb, function, sequence, token};
    use combine::choice;
    let (x, y, z) = (&v[0], &v[1], &v[2]);
    let l = |v: Vec<Val>| Val::L(v);
    let xyz = move || b((mk(x), mk(y), mk(z)).map(move |(x, y, z)| l(vec![x, y, z])));
    match kind {
        0 => (
            b(combine::struct_parser! { Rec { x: mk(x), _: mk(y), y: mk(z) } }.map(move |r: Rec| l(vec![r.x, r.y]))),
            b((mk(x), mk(y), mk(z)).map(move |(x, _, z)| l(vec![x, z]))),
        ),
        1 => (
            b(combine::struct_parser! { Rec { _: mk(x), y: mk(y), x: mk(z), _: mk(x) } }.map(move |r: Rec| l(vec![r.x, r.y]))),
            b((mk(x), mk(y), mk(z), mk(x)).map(move |(_, y, z, _)| l(vec![z, y]))),
        ),
        2 => (
            b(combine::struct_parser! { Pair(_: mk(x), mk(y), mk(z)) }.map(move |r: Pair| l(vec![r.0, r.1]))),
            b((mk(x), mk(y), mk(z)).map(move |(_, y, z)| l(vec![y, z]))),
        ),
        3 => (
            b(combine::dispatch!(n; 0 => mk(x), 1 | 2 => mk(y).map(|v| v), k if k > 5 => mk(z), _ => Box::new(mk(x)))),
            mk(if n == 1 || n == 2 { y } else if n > 5 { z } else { x }),
        ),
        4 => (
            b(choice!(mk(x), mk(y), mk(z))),
            b(alt::or(mk(x), alt::or(mk(y), mk(z)))),
        ),
        5 => (b(combine::opaque!(combine::parser::combinator::any_partial_state(mk(x)))), mk(x)),
        6 => (b(combine::opaque!(comb::no_partial(mk(x)))), mk(x)),
        7 => (b(named(x, n)), mk(x)),
        8 => (b(function::env_parser(x, env_fn)), mk(x)),
        9 => (b(function::parser(move |i: &mut In| env_fn(x, i))), mk(x)),
        10 => (b(token::value(()).then(move |_| mk(x))), mk(x)),
        11 => (b(comb::factory(move |_: &mut In| mk(x))), mk(x)),
        12 => (b(comb::factory(move |_: &mut In| comb::lazy(move || (mk(x), mk(y), mk(z)))).map(move |(x, y, z)| l(vec![x, y, z]))), xyz()),
        13 => (b(Box::new((mk(x), mk(y), mk(z))).map(move |(x, y, z)| l(vec![x, y, z]))), xyz()),
        14 => (b(comb::any_partial_state((mk(x), token::value(1))).map(|t| t.0)), b((mk(x), token::value(1)).map(|t| t.0))),
        15 => (b(mk(x).and(mk(y)).map(move |(x, y)| l(vec![x, y]))), b((mk(x), mk(y)).map(move |(x, y)| l(vec![x, y])))),
        16 => (b(sequence::between(mk(x), mk(y), mk(z))), b((mk(x), mk(z), mk(y)).map(|(_, v, _)| v))),
        17 => (b(mk(x).with(mk(y)).skip(mk(z))), b(((mk(x), mk(y)).map(|t| t.1), mk(z)).map(|t| t.0))),
        18 => (b(alt::or(mk(x), mk(y))), b(choice((mk(x), mk(y))))),
        19 => (b(if n % 2 == 0 { comb::Either::Left(mk(x)) } else { comb::Either::Right(mk(y).map(|v| v)) }), mk(if n % 2 == 0 { x } else { y })),
        20 => (b(comb::no_partial((mk(x), mk(y), mk(z))).map(move |(x, y, z)| l(vec![x, y, z]))), xyz()),
        21 => (b(comb::lazy(move || comb::lazy(move || (mk(x), mk(y), mk(z)))).map(move |(x, y, z)| l(vec![x, y, z]))), xyz()),
        22 => (b(mk(x).boxed()), mk(x)),
        // where the parser is run as one that is known to be committed
        23 => (b(mk(x).then(move |_| comb::lazy(move || mk(y)))), b(mk(x).then(move |_| mk(y)))),
        24 => (b(comb::attempt(comb::lazy(move || mk(x)))), b(comb::attempt(mk(x)))),
        25 => (b(mk(x).then_partial(move |_| comb::factory(move |_: &mut In| mk(y)))), b(mk(x).then_partial(move |_| mk(y)))),
        _ => (b(mk(x).then_ref(move |_| comb::Either::<_, P<In>>::Left(mk(y))).map(|t| t.1)), b(mk(x).then_ref(move |_| mk(y)).map(|t| t.1))),
    }
}
const FORMS: [&str; 27] = [
    "struct_parser", "struct_parser", "struct_parser tuple", "dispatch", "choice!", "opaque!", "opaque! no_partial", "parser! named", "env_parser", "function",
    "then", "factory", "factory lazy", "box of tuple", "any_partial_state", "and", "between", "with skip", "or", "either", "no_partial", "lazy lazy", "boxed",
    "then lazy", "attempt lazy", "then_partial factory", "then_ref either",
];
const RESTART: [u32; 4] = [6, 8, 9, 20];
/// Each wrapper and macro used as in a program, with parsers before and behind it
fn forms(g: &mut Gen) -> Res {
    let kind = g.below(27);
    let partial = g.bool() && !RESTART.contains(&kind);
    let n = g.below(9) as usize;
    let o = Opts { range: true, partial, ..Opts::full() };
    let mut v: Vec<A> = (0..5)
        .map(|i| {
            let d = g.small(0, if i < 3 { 3 } else { 1 });
            let mut a = if g.chance(1, 3) { A::Opt(Box::new(gen_ast(g, &o, d))) } else { gen_ast(g, &o, d) };
            strip(&mut a);
            a
        })
        .collect();
    if v.iter().any(errors_vary) {
        // leave some of them
        for a in &mut v {
            if errors_vary(a) && g.chance(2, 3) {
                *a = A::Tok('a')
            }
        }
    }
    let around = g.below(4);
    let errors = !v.iter().any(errors_vary) && (![4, 8, 9, 10, 18].contains(&kind) || around == 0) && !(around != 0 && v.iter().any(chooses));
    let mut s = String::new();
    if around & 1 != 0 {
        s += &gen_input(&v[3], g);
    }
    if kind == 19 && n % 2 == 1 {
        s += &gen_input(&v[1], g);
    }
    s += &gen_input(&v[0], g);
    s += &gen_input(&v[1], g);
    if kind == 16 || g.bool() {
        s += &gen_input(&v[2], g);
    }
    let (v, s) = (&v[..], s);
    let both = {
        let v = unsafe { lend_slice(v) };
        let (w, p) = form(kind, n, v);
        let place = |p: P<In>| match around {
            0 => p,
            1 => b((mk(&v[3]), p).map(|(a, b)| Val::L(vec![a, b]))),
            2 => b((p, mk(&v[4])).map(|(a, b)| Val::L(vec![a, b]))),
            _ => b((mk(&v[3]), p, mk(&v[4])).map(|(a, b, c)| Val::L(vec![a, b, c]))),
        };
        (place(w), place(p))
    };
    let (mut w, mut p) = both;
    g.label(FORMS[kind as usize]);
    let mut cuts = vec![];
    if partial {
        let mut bounds: Vec<usize> = s.char_indices().map(|x| x.0).collect();
        bounds.push(s.len());
        let k = g.small(0, 4);
        cuts = (0..k).map(|_| bounds[g.below(bounds.len() as u32) as usize]).collect();
        cuts.sort();
        cuts.push(s.len());
    }
    g.describe(|| format!("form {} n {} around {} of {:?} on {:?} cut at {:?}", kind, n, around, v, s, cuts));
    g.checks += 1;
    let (x, y) = if partial {
        let d = g.bool();
        (pieces(&mut p, &s, &cuts, d), pieces(&mut w, &s, &cuts, d))
    } else {
        (vec![whole(&mut p, &s)], vec![whole(&mut w, &s)])
    };
    if x.len() != y.len() || x.iter().zip(&y).any(|(x, y)| !x.same(y, errors)) {
        return Err(format!("plain {:?} but wrapped {:?}", x, y));
    }
    if x.len() > 1 || x[0].fault.is_some() || x[0].committed {
        g.nontrivial(hash_str(&format!("{}{}{}{:?}{}{:?}", kind, n, around, v, s, cuts)));
    }
    Ok(())
}

impl Kind for In {
    fn make(s: Str) -> Self {
        input(s, 0, s.len(), false)
    }
    fn rest(&self) -> Str {
        self.0 .0 .0
    }
    fn show(e: &Errs) -> String {
        let mut what: Vec<String> = e.errors.iter().map(|e| format!("{:?}", e)).collect();
        what.sort();
        format!("at {:?}\n{}", e.position, what.join("\n"))
    }
}
/// Compares every way of running a parser with the same way of running what it wraps
struct Against<'a> {
    s: Str,
    bare: &'a [(&'static str, Did)],
    errors: bool,
    /// the bare parser is an attempt
    attempt: bool,
    checks: u64,
}
impl Visit<In> for Against<'_> {
    type Out = Result<(), String>;
    fn visit<Q: Parser<In, Output = Val>>(&mut self, mk: &dyn Fn() -> Q) -> Self::Out
    where
        Q::PartialState: 'static,
    {
        for ((name, bare), (_, got)) in self.bare.iter().zip(ways::<In, Q>(mk, self.s)) {
            self.checks += 1;
            let (mut x, mut y) = (bare.clone(), got.clone());
            if !self.errors {
                x.error = x.error.map(|_| String::new());
                y.error = y.error.map(|_| String::new());
            }
            if self.attempt {
                // listed in known-findings.txt: key attempt-start-token
                if let (Some(e), Some(f)) = (&x.error, &y.error) {
                    let within = |e: &str, f: &str| e.split('\n').all(|e| e.is_empty() || f.split('\n').any(|f| e == f));
                    if within(e, f) || within(f, e) {
                        y.error = x.error.clone();
                    }
                }
            }
            if x != y {
                return Err(format!("{}: bare {:?} but wrapped {:?}", name, bare, got));
            }
        }
        Ok(())
    }
}
/// A parser of a type of its own, in one of the wrappers
struct InWrapper {
    s: Str,
    wrapper: usize,
    errors: bool,
    attempt: bool,
    checks: u64,
}
impl Visit<In> for InWrapper {
    type Out = Result<Did, String>;
    fn visit<Q: Parser<In, Output = Val>>(&mut self, mk: &dyn Fn() -> Q) -> Self::Out
    where
        Q::PartialState: 'static,
    {
        let bare = ways::<In, Q>(mk, self.s);
        let mut v = Against { s: self.s, bare: &bare, errors: self.errors, attempt: self.attempt, checks: 0 };
        direct::wrapped::<In, Q, _>(self.wrapper, mk, &mut v)?;
        self.checks += v.checks;
        Ok(bare[0].1.clone())
    }
}
/// Wrappers that are not hidden in boxes themselves, and around parsers which are not
fn typed(g: &mut Gen) -> Res {
    let o = Opts { range: true, depth: 3, ..Opts::full() };
    let d = g.small(0, 2);
    let (mut a, mut b) = (gen_ast(g, &o, d), gen_consuming(g, &o, d.min(1)));
    strip(&mut a);
    strip(&mut b);
    let boxed = g.bool();
    let (n, w) = (g.below(direct::SOME as u32) as usize, g.below(direct::WRAPPERS.len() as u32) as usize);
    let k = g.below(direct::TRANSPARENT as u32) as usize;
    for _ in 0..2 {
        let mut s = String::new();
        sample(&a, g, &mut s);
        if g.bool() {
            sample(&b, g, &mut s);
        }
        let s = if g.chance(1, 3) { gen_input(&a, g) } else { s };
        g.describe(|| if boxed { format!("form {} of {:?} on {:?}", k, a, s) } else { format!("{} around form {} of {:?} and {:?} on {:?}", direct::WRAPPERS[w], n, a, b, s) });
        let (sa, sb, ss) = unsafe { (lend(&a), lend(&b), lend_str(&s)) };
        let bare = if boxed {
            let bare = ways::<In, P<In>>(&|| mk(sa), ss);
            let mut v = Against { s: ss, bare: &bare, errors: !errors_vary(&a), attempt: false, checks: 0 };
            direct::direct::<In, _>(k, sa, sb, &mut v)?;
            g.checks += v.checks;
            agree::<In, P<In>>(&|| mk(sa), ss, true, &mut g.checks)?
        } else {
            let mut v = InWrapper { s: ss, wrapper: w, errors: !errors_vary(&a) && !errors_vary(&b), attempt: n == 0, checks: 0 };
            let bare = direct::some::<In, _>(n, sa, sb, &mut v)?;
            g.checks += v.checks;
            bare
        };
        if bare.committed == Some(true) || bare.error.is_some() || bare.rest != Some(ss) {
            g.nontrivial(hash_str(&format!("{}{}{}{:?}{:?}{:?}", n, w, k, a, b, s)));
        }
    }
    Ok(())
}
fn known_attempt() -> Res {
    let p = || combine::attempt((combine::token('a'), combine::token('b')));
    let e = |r: Result<_, Errs>| r.map(|_: ((char, char), In)| ()).map_err(|e| In::show(&e));
    let (bare, wrapped) = (e(p().parse(In::make("ac"))), e(if true { p().left() } else { p().right() }.parse(In::make("ac"))));
    if bare.as_ref().err().map(|e| e.lines().count()) == wrapped.as_ref().err().map(|e| e.lines().count()) {
        Ok(())
    } else {
        Err(format!("attempt((token('a'), token('b'))) on \"ac\": bare {:?} but in an Either {:?}", bare, wrapped))
    }
}

fn main() {
    h::runner::main(&Property {
        id: "C19",
        rule: "trees, spans: the parse fails or leaves input; tree_pieces: the parse was suspended at least once; forms: the parse was suspended, fails or commits; span_top: the span has a length. Distinct by grammar, wrappers, input and cuts.",
        assumptions: &[
            "errors are compared as sets of entries plus position; a factory that was not asked for a parser yet, parsers driven through an iterator, a message inside silent, and sequences that contain a choice (whose followers the existing test choice_compose_issue_175 wants left out) are compared by outcome only",
            "wrappers that cannot be suspended (no_partial, parser! without a state) start again, so only where the parse stands between pieces may differ",
            "the spanned wrapper may widen the position of an error to a span, nothing else",
        ],
        suites: &[
            Suite { name: "trees", quick: 300_000, thorough: 6_000_000, f: trees },
            Suite { name: "tree_pieces", quick: 300_000, thorough: 6_000_000, f: tree_pieces },
            Suite { name: "forms", quick: 200_000, thorough: 4_000_000, f: forms },
            Suite { name: "typed", quick: 200_000, thorough: 4_000_000, f: typed },
            Suite { name: "spans", quick: 200_000, thorough: 4_000_000, f: spans },
            Suite { name: "span_top", quick: 200_000, thorough: 4_000_000, f: span_top },
        ],
        known: &[Known { key: "attempt-start-token", f: known_attempt }],
    })
}
