#[path = "../h/mod.rs"]
#[macro_use]
mod h;
use combine::error::{Commit, ParseError, ParseResult, StdParseResult2, Tracked};
use combine::parser::combinator::AnyPartialState;
use combine::parser::{FirstMode, PartialMode};
use combine::stream::position::{self, SourcePosition};
use combine::stream::{decode, easy, MaybePartialStream, PointerOffset};
use combine::{EasyParser, Parser};
#[path = "../h/direct.rs"]
mod direct;
use direct::*;
use h::ast::*;
use h::build::*;
use h::gen::*;
use h::runner::*;

type Easy = easy::Stream<&'static str>;
type Pos = position::Stream<&'static str, SourcePosition>;
type Part = easy::Stream<MaybePartialStream<&'static str>>;
str_src!(Str, PointerOffset::new(0));
str_src!(Easy, PointerOffset::new(0));
str_src!(Pos, SourcePosition::new());
str_src!(Part, PointerOffset::new(0));

impl Kind for Str {
    fn make(s: Str) -> Self {
        s
    }
    fn rest(&self) -> Str {
        self
    }
    fn show(e: &Self::Error) -> String {
        format!("{:?}", e)
    }
}
impl Kind for Easy {
    fn make(s: Str) -> Self {
        easy::Stream(s)
    }
    fn rest(&self) -> Str {
        self.0
    }
    fn show(e: &Self::Error) -> String {
        let mut what: Vec<String> = e.errors.iter().map(|e| format!("{:?}", e)).collect();
        what.sort();
        format!("{:?} {:?}", e.position, what)
    }
}
impl Kind for Pos {
    fn make(s: Str) -> Self {
        position::Stream::with_positioner(s, SourcePosition::new())
    }
    fn rest(&self) -> Str {
        self.input
    }
    fn show(e: &Self::Error) -> String {
        format!("{:?}", e)
    }
}

fn entries<I: Kind>(a: &'static A, s: Str, g: &mut Gen) -> Result<Did, String> {
    agree::<I, P<I>>(&|| build::<I>(a), s, true, &mut g.checks)
}

struct Agree(Str, bool, u64);
impl<I: Kind> Visit<I> for Agree {
    type Out = Result<Did, String>;
    fn visit<Q: Parser<I, Output = Val>>(&mut self, mk: &dyn Fn() -> Q) -> Self::Out
    where
        Q::PartialState: 'static,
    {
        agree::<I, Q>(mk, self.0, self.1, &mut self.2)
    }
}
/// All ways of running parsers as the types they have
fn typed(g: &mut Gen) -> Res {
    let o = Opts { depth: 3, ..Opts::full() };
    let n = g.below(FORMS as u32) as usize;
    let d = g.small(0, 2);
    let (a, b) = (gen_ast(g, &o, d), gen_consuming(g, &o, d.min(1)));
    // a factory makes its parser when it sees the input, parsers that are made anew each time lose it
    let factory = |a: &A| a.any(&|a| matches!(a, A::W(Wrap::Factory, _)));
    let n = if factory(&a) || factory(&b) { 18 + n % 31 } else { n };
    for _ in 0..2 {
        let mut s = if g.chance(1, 3) { "a".to_string() } else { String::new() };
        sample(&a, g, &mut s);
        if g.bool() {
            sample(&b, g, &mut s);
        }
        let s = if g.chance(1, 3) { gen_input(&a, g) } else { s };
        g.describe(|| format!("form {} of {:?} and {:?} on {:?}", n, a, b, s));
        let (sa, sb, ss) = unsafe { (lend(&a), lend(&b), lend_str(&s)) };
        let mut v = Agree(ss, n != ATTEMPT, 0);
        let w = if n % 2 == 0 { direct::<Easy, _>(n, sa, sb, &mut v) } else { direct::<Pos, _>(n, sa, sb, &mut v) };
        g.checks += v.2;
        let w = w?;
        if w.committed == Some(true) || w.rest != Some(ss) && w.value.is_some() {
            g.nontrivial(hash_str(&format!("{}{:?}{:?}{:?}", n, a, b, s)));
        }
    }
    Ok(())
}

/// `iter` and `partial_iter` against parsing again and again
fn iterated<I: Kind>(a: &'static A, s: Str, max: usize, g: &mut Gen) -> Res {
    let mut input = I::make(s);
    let mut vals = vec![];
    let mut committed = false;
    let mut error = None;
    let mut p = build::<I>(a);
    let mut stopped = false;
    while vals.len() < max {
        let before = input.checkpoint();
        match p.parse_stream(&mut input) {
            ParseResult::CommitOk(v) => {
                committed = true;
                vals.push(v)
            }
            ParseResult::PeekOk(v) => vals.push(v),
            ParseResult::PeekErr(_) => {
                input.reset(before).map_err(|_| "reset failed")?;
                stopped = true;
                break;
            }
            ParseResult::CommitErr(e) => {
                error = Some(I::show(&e));
                stopped = true;
                break;
            }
        }
    }
    let want = (vals, committed, error.clone(), if error.is_some() { "" } else { input.rest() });
    for way in 0..4 {
        let mut input = I::make(s);
        let mut p = build::<I>(a);
        let mut state = AnyPartialState::default();
        macro_rules! go {
            ($it:expr) => {{
                let mut it = $it;
                let v: Vec<Val> = it.by_ref().take(max).collect();
                let _ = stopped;
                (v, it.into_result(()))
            }};
        }
        let (v, r) = match way {
            0 => go!(p.by_ref().iter(&mut input)),
            1 => go!(p.iter(&mut input)),
            2 => go!(p.by_ref().partial_iter(FirstMode, &mut input, &mut state)),
            _ => go!(p.by_ref().partial_iter(PartialMode::default(), &mut input, &mut state)),
        };
        let (c, e) = match r {
            Ok((_, c)) => (!c.is_peek(), None),
            Err(Commit::Commit(e)) => (committed, Some(I::show(&e.error))),
            Err(Commit::Peek(_)) => return Err(format!("way {}: iteration failed without committing", way)),
        };
        let got = (v, c, e.clone(), if e.is_some() { "" } else { input.rest() });
        g.checks += 1;
        if got != want {
            return Err(format!(
                "way {} of iterating gives {:?} but parsing again and again {:?} (values, committed, error, rest)",
                way, got, want
            ));
        }
    }
    if want.0.len() > 1 {
        g.label("iterated");
    }
    Ok(())
}

fn one<I: Kind>(g: &mut Gen, o: &Opts) -> Res {
    let d = g.small(0, 4);
    let a = gen_ast(g, o, d);
    a.label_all(g);
    let sa = unsafe { lend(&a) };
    for _ in 0..2 {
        let mut s = gen_input(&a, g);
        if g.chance(1, 3) {
            sample(&a, g, &mut s);
        }
        g.describe(|| format!("{:?} on {:?}", a, s));
        let ss = unsafe { lend_str(&s) };
        let w = entries::<I>(sa, ss, g)?;
        let n = g.small(1, 5);
        iterated::<I>(sa, ss, n, g)?;
        if w.committed == Some(true) || w.rest != Some(ss) && w.value.is_some() {
            g.nontrivial(hash_str(&format!("{:?}{:?}", a, s)));
        }
    }
    Ok(())
}
fn strs(g: &mut Gen) -> Res {
    one::<Str>(g, &Opts { depth: 4, ..Opts::full() })
}
fn positions(g: &mut Gen) -> Res {
    one::<Pos>(g, &Opts { depth: 4, ..Opts::full() })
}
/// rich errors, and `easy_parse`, and `decode` of complete input
fn rich(g: &mut Gen) -> Res {
    let o = Opts { depth: 4, ..Opts::full() };
    let d = g.small(0, 4);
    let a = gen_ast(g, &o, d);
    let sa = unsafe { lend(&a) };
    for _ in 0..2 {
        let s = gen_input(&a, g);
        g.describe(|| format!("{:?} on {:?}", a, s));
        let ss = unsafe { lend_str(&s) };
        let w = entries::<Easy>(sa, ss, g)?;
        let n = g.small(1, 5);
        iterated::<Easy>(sa, ss, n, g)?;
        let (v, e) = match build::<Easy>(sa).easy_parse(ss) {
            Ok((v, rest)) => (Some((v, rest)), None),
            Err(e) => (None, Some(Easy::show(&e))),
        };
        let want = (w.value.clone().map(|v| (v, w.rest.unwrap())), w.error.clone());
        if (v.clone(), e.clone()) != want {
            return Err(format!("easy_parse gives {:?} {:?} but parse_stream {:?}", v, e, w));
        }
        let mut input = easy::Stream(ss);
        match decode(build::<Easy>(sa), &mut input, &mut Default::default()) {
            Ok((Some(v), n)) => {
                if w.value != Some(v) || w.rest != Some(input.0) || n != ss.len() - input.0.len() {
                    return Err(format!("decode leaves {:?} after {} but parse_stream {:?}", input.0, n, w));
                }
            }
            Ok((None, _)) => return Err("decode asks for more although the input is complete".into()),
            Err(e) => {
                if w.error != Some(Easy::show(&e)) {
                    return Err(format!("decode fails with {:?} but parse_stream gives {:?}", e, w));
                }
            }
        }
        g.checks += 2;
        if w.committed == Some(true) {
            g.nontrivial(hash_str(&format!("{:?}{:?}", a, s)));
        }
    }
    Ok(())
}

/// Iterating over input which comes in pieces gives what iterating over all of it gives
fn pieces(g: &mut Gen) -> Res {
    let o = Opts { depth: 3, range: true, partial: true, ..Opts::full() };
    let d = g.small(0, 3);
    let a = gen_consuming(g, &o, d);
    let sa = unsafe { lend(&a) };
    let mut s = gen_input(&a, g);
    for _ in 0..g.small(0, 3) {
        sample(&a, g, &mut s);
    }
    let ss = unsafe { lend_str(&s) };
    let mut bounds: Vec<usize> = s.char_indices().map(|x| x.0).collect();
    bounds.push(s.len());
    let mut cuts: Vec<usize> = (0..1 + g.small(0, 3)).map(|_| bounds[g.below(bounds.len() as u32) as usize]).collect();
    cuts.sort();
    g.describe(|| format!("{:?} again and again on {:?} cut at {:?}", a, s, cuts));
    let run = |cuts: &[usize], rebuild: bool| -> (Vec<Val>, bool, usize) {
        let mut p = build::<Part>(sa);
        let mut state = AnyPartialState::default();
        let mut vals = vec![];
        let mut at = 0;
        for k in 0..=cuts.len() {
            let partial = k < cuts.len();
            let end = if partial { cuts[k] } else { ss.len() };
            if rebuild {
                p = build::<Part>(sa);
            }
            let mut input: Part = easy::Stream(MaybePartialStream(&ss[at..end], partial));
            let mut it = p.by_ref().partial_iter(PartialMode::default(), &mut input, &mut state);
            vals.extend(it.by_ref());
            let r = it.into_result(());
            at = end - input.0 .0.len();
            match r {
                Ok(_) => return (vals, true, at),
                Err(e) => {
                    let e: Tracked<_> = e.into_inner();
                    let more = partial && ParseError::<char, &str, _>::is_unexpected_end_of_input(&e.error);
                    if !more {
                        return (vals, false, 0);
                    }
                }
            }
        }
        unreachable!()
    };
    let want = run(&[], false);
    let rebuild = g.bool();
    let got = run(&cuts, rebuild);
    g.checks += 1;
    if got != want {
        return Err(format!("in pieces {:?} but whole {:?} (values, success, end)", got, want));
    }
    if want.0.len() > 1 {
        g.nontrivial(hash_str(&format!("{:?}{:?}{:?}", a, s, cuts)));
    }
    Ok(())
}

type Q = ParseResult<u32, u32>;
/// committed, (unused), value or error
type O = (bool, u8, Result<u32, u32>);
fn real(o: &O) -> Q {
    match *o {
        (true, _, Ok(v)) => ParseResult::CommitOk(v),
        (false, _, Ok(v)) => ParseResult::PeekOk(v),
        (true, _, Err(e)) => ParseResult::CommitErr(e),
        (false, _, Err(e)) => ParseResult::PeekErr(e.into()),
    }
}
fn seen(q: &Q) -> O {
    match q {
        ParseResult::CommitOk(v) => (true, 0, Ok(*v)),
        ParseResult::PeekOk(v) => (false, 0, Ok(*v)),
        ParseResult::CommitErr(e) => (true, 0, Err(*e)),
        ParseResult::PeekErr(t) => (false, 0, Err(t.error)),
    }
}
fn then(a: O, b: O) -> O {
    match a {
        (c, _, Ok(_)) => (c || b.0, if c { 0 } else { b.1 }, b.2),
        e => e,
    }
}
fn algebra(g: &mut Gen) -> Res {
    let outcome = |g: &mut Gen| -> O {
        let c = g.bool();
        let ok = g.chance(2, 3);
        let v = g.below(1000);
        (c, 0, if ok { Ok(v) } else { Err(v) })
    };
    let mut o = outcome(g);
    let mut q = real(&o);
    let mut log = vec![format!("{:?}", o)];
    let n = 1 + g.small(0, 7);
    let mut changed = 0;
    for _ in 0..n {
        let next = outcome(g);
        let k = g.below(1000);
        let op = g.below(13);
        log.push(format!("op {} with {:?} {}", op, next, k));
        g.describe(|| log.join("; "));
        let result_of = |a: &O| -> StdParseResult2<u32, u32> {
            match a.2 {
                Ok(v) => Ok((v, if a.0 { Commit::Commit(()) } else { Commit::Peek(()) })),
                Err(e) => {
                    let t = Tracked::from(e);
                    Err(if a.0 { Commit::Commit(t) } else { Commit::Peek(t) })
                }
            }
        };
        let before = o;
        match op {
            0 => {
                q = q.map(|v| v + k);
                o.2 = o.2.map(|v| v + k);
            }
            1 => {
                q = q.map_err(|v| v + k);
                o.2 = o.2.map_err(|v| v + k);
            }
            2 => {
                q = q.and_then(|v| real(&next).map(|w| v + w));
                o = then(o, (next.0, next.1, match (o.2, next.2) {
                    (Ok(v), Ok(w)) => Ok(v + w),
                    (_, x) => x,
                }));
            }
            3 => {
                // through the standard result and back
                let r: StdParseResult2<u32, u32> = q.into_result();
                match (&r, &o) {
                    (Ok((v, c)), (d, _, Ok(w))) if v == w && c.is_peek() != *d => {}
                    (Err(e), (d, _, Err(w))) if e.as_ref().error == *w && e.is_peek() != *d => {}
                    _ => return Err(format!("into_result of {:?} is {:?}", o, r.map_err(|e| e.map(|t| t.error)))),
                }
                q = r.into();
            }
            4 => {
                let r: Result<Commit<u32>, Commit<Tracked<u32>>> = q.into();
                match (&r, &o) {
                    (Ok(c), (d, _, Ok(w))) if c.as_ref() == w && c.is_peek() != *d => {}
                    (Err(e), (d, _, Err(w))) if e.as_ref().error == *w && e.is_peek() != *d => {}
                    _ => return Err(format!("into of {:?} is {:?}", o, r.map_err(|e| e.map(|t| t.error)))),
                }
                q = r.map(|c| (*c.as_ref(), c.map(|_| ()))).into();
            }
            5 => {
                // sequencing with Commit::combine, as in hand-written parsers
                let r: StdParseResult2<u32, u32> = q.into_result();
                q = match r {
                    Ok((v, c)) => c.combine(|()| result_of(&next).map(|(w, c)| (v + w, c))).into(),
                    Err(e) => Err(e).into(),
                };
                o = then(o, (next.0, next.1, match (o.2, next.2) {
                    (Ok(v), Ok(w)) => Ok(v + w),
                    (_, x) => x,
                }));
            }
            6 => {
                let r: Result<Commit<u32>, Commit<Tracked<u32>>> = q.into();
                q = match r {
                    Ok(c) => c.combine_commit(|v| real(&next).map(|w| v + w)),
                    Err(Commit::Commit(e)) => ParseResult::CommitErr(e.error),
                    Err(Commit::Peek(e)) => ParseResult::PeekErr(e),
                };
                o = then(o, (next.0, next.1, match (o.2, next.2) {
                    (Ok(v), Ok(w)) => Ok(v + w),
                    (_, x) => x,
                }));
            }
            7 => {
                // merging flags
                let c = if next.0 { Commit::Commit(k) } else { Commit::Peek(k) };
                if let (d, _, Ok(_)) = o {
                    let mine = if d { Commit::Commit(k + 1) } else { Commit::Peek(k + 1) };
                    let m = mine.merge(c);
                    q = match m {
                        Commit::Commit(v) => ParseResult::CommitOk(v),
                        Commit::Peek(v) => ParseResult::PeekOk(v),
                    };
                    o = (d || next.0, 0, Ok(k));
                }
            }
            8 => {
                let r = q.as_ref();
                let c: Q = match r {
                    ParseResult::CommitOk(v) => ParseResult::CommitOk(*v),
                    ParseResult::PeekOk(v) => ParseResult::PeekOk(*v),
                    ParseResult::CommitErr(v) => ParseResult::CommitErr(*v),
                    ParseResult::PeekErr(t) => ParseResult::PeekErr(Tracked { error: *t.error, offset: t.offset }),
                };
                q = c;
            }
            9 => {
                if q.is_ok() != o.2.is_ok() || q.is_err() == o.2.is_ok() {
                    return Err(format!("is_ok of {:?} is {}", o, q.is_ok()));
                }
            }
            10 | 11 => {
                let r: Result<Commit<u32>, Commit<Tracked<u32>>> = q.into();
                q = match r {
                    Ok(mut c) => {
                        *c.as_mut() += k;
                        let v = *c.as_ref();
                        let to = if op == 10 { c.into_commit() } else { c.into_peek() };
                        if to.is_peek() != (op == 11) || to.into_inner() != v {
                            return Err(format!("{:?}: converted to {:?}", o, to));
                        }
                        o = (op == 10, 0, o.2.map(|v| v + k));
                        Ok((to.into_inner(), to.map(|_| ()))).into()
                    }
                    Err(e) => Err(e).into(),
                };
            }
            _ => {
                // copies are equal, and different from anything else
                if q.clone() != q || (seen(&real(&next)) != o) != (real(&next) != q) {
                    return Err(format!("comparing {:?} and {:?}", o, next));
                }
            }
        }
        if o != before {
            changed += 1;
        }
        let got = seen(&q);
        // the number of parsers behind an error is only kept while it is uncommitted
        g.checks += 1;
        if got != o {
            return Err(format!("{}: gives {:?} instead of {:?}", log.join("; "), got, o));
        }
    }
    if changed > 1 {
        g.nontrivial(hash_str(&log.join(";")));
    }
    Ok(())
}

fn main() {
    h::runner::main(&Property {
        id: "C21",
        rule: "a case runs one grammar on two inputs through every entry point (parse, parse_stream, parse_lazy completed with add_error, with explicit state, through borrows, trait objects and function parsers, easy_parse, decode, iter and partial_iter in both modes, also over pieces) and compares value, error, commit status and rest with parse_stream; suite 'typed' does so for parsers of the library's own types (not boxed); suite 'algebra' applies up to 8 operations on parse results and commit values and compares with a pair (committed, result). Non-trivial: the parse committed or consumed (algebra: the outcome changed twice); distinct by grammar and input or by operations",
        assumptions: &["errors of parse_lazy, parse_first and parse_partial are only compared when committed, as documented"],
        suites: &[
            Suite { name: "str", quick: 150_000, thorough: 3_000_000, f: strs },
            Suite { name: "position", quick: 150_000, thorough: 3_000_000, f: positions },
            Suite { name: "rich", quick: 150_000, thorough: 3_000_000, f: rich },
            Suite { name: "typed", quick: 300_000, thorough: 6_000_000, f: typed },
            Suite { name: "pieces", quick: 300_000, thorough: 6_000_000, f: pieces },
            Suite { name: "algebra", quick: 1_000_000, thorough: 20_000_000, f: algebra },
        ],
        known: &[],
    })
}
