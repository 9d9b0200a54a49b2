#[path = "../h/mod.rs"]
#[macro_use]
mod h;
#[path = "../h/dynkind.rs"]
mod dynkind;
#[path = "../h/kinds.rs"]
mod kinds;
use combine::stream::{Positioned, RangeStreamOnce, StreamOnce};
use combine::Parser;
use dynkind::{Dyn, KindInfo, Owned, KINDS};
use h::ast::*;
use h::build::*;
use h::gen::*;
use h::model::*;
use h::runner::*;
use kinds::*;

/// A parser that gives something back: pure lookahead, or one which may fail after looking ahead
fn backtracking(g: &mut Gen, o: &Opts, d: usize) -> A {
    let bx = |a: A| Box::new(a);
    let try_ = |g: &mut Gen| {
        let a = gen_ast(g, o, d);
        A::Attempt(Box::new(a))
    };
    match g.below(16) {
        0 => A::Opt(bx(try_(g))),
        1 => A::LookAhead(bx(gen_ast(g, o, d))),
        2 => A::Opt(bx(A::LookAhead(bx(gen_ast(g, o, d))))),
        3 => A::Opt(bx(A::NotFollowed(bx(gen_ast(g, o, d))))),
        4 => A::Choice(vec![try_(g), try_(g), A::Value(1)]),
        5 => A::ChoiceVec(vec![try_(g), try_(g), A::Value(1)]),
        6 => A::Or(bx(try_(g)), bx(gen_ast(g, o, d))),
        7 => A::Many(bx(A::Attempt(bx(gen_consuming(g, o, d))))),
        8 => A::SepBy(bx(A::Attempt(bx(gen_consuming(g, o, d)))), bx(try_(g))),
        9 => A::SepEndBy(bx(A::Attempt(bx(gen_consuming(g, o, d)))), bx(A::Attempt(bx(gen_consuming(g, o, d))))),
        10 => A::Opt(bx(A::Chainl1(bx(A::Attempt(bx(gen_consuming(g, o, d)))), bx(A::Attempt(bx(gen_consuming(g, o, d))))))),
        11 => A::RepeatUntil(bx(A::Attempt(bx(gen_consuming(g, o, d)))), bx(try_(g))),
        12 => A::Opt(bx(A::Attempt(bx(A::TakeUntil(bx(try_(g))))))),
        13 => A::CountMM(0, g.small(1, 3), bx(try_(g))),
        14 => A::Opt(bx(A::Recognize(bx(try_(g))))),
        _ => A::Opt(bx(gen_ast(g, o, d))),
    }
}

fn observe<I: Kind>(a: &A, k: usize, s: &str, chars: &[char], g: &mut Gen) -> Res
where
    I::Position: std::fmt::Debug,
{
    // what a parser which has never backtracked sees
    let mut m = M::new(chars);
    m.pos = k;
    let want = m.run(a);
    let sa = unsafe { lend(a) };
    let mut input = I::make(s, chars);
    for _ in 0..k {
        input.uncons().map_err(|_| "input ended early")?;
    }
    let got = build::<I>(sa).parse_stream(&mut input).into_result();
    g.checks += 1;
    match (&want, &got) {
        (R::Ok(v, _), Ok((w, _))) if v == w => {
            let seen = rest(&mut input);
            let mut fresh = I::make(s, chars);
            for _ in 0..m.pos {
                fresh.uncons().map_err(|_| "input ended early")?;
            }
            let want = rest(&mut fresh);
            if seen != want {
                return Err(format!("{}: {:?} after {} of {:?} left {:?} instead of {:?}", I::NAME, a, k, s, seen, want));
            }
            if m.backtracked || m.far > m.pos {
                g.nontrivial(hash_str(&format!("{:?}{}{}", a, k, s)));
            }
        }
        (R::Err(_), Err(_)) => {}
        _ => {
            return Err(format!(
                "{}: {:?} after {} of {:?} gives {:?} but means {:?}",
                I::NAME,
                a,
                k,
                s,
                got.map(|x| x.0).map_err(|_| "a failure"),
                want
            ))
        }
    }
    Ok(())
}

/// `observe` for a kind chosen at run time
fn observe_dyn(kind: &KindInfo, a: &A, k: usize, s: &str, seed: usize, g: &mut Gen) -> Res {
    let own = Owned::new(s);
    let src = std::rc::Rc::new(unsafe { own.source(seed) });
    let mut m = M::new(&own.chars);
    m.pos = k;
    let want = m.run(a);
    let sa = unsafe { lend(a) };
    let skip = |n: usize| -> Result<Dyn, String> {
        let mut input = (kind.make)(&src, false);
        for _ in 0..n {
            input.uncons().map_err(|_| "input ended early")?;
        }
        Ok(input)
    };
    let seen = |mut input: Dyn| {
        let mark = if kind.ranges { input.range().as_ptr() as usize } else { 0 };
        let mut tokens = vec![];
        loop {
            let p = input.position();
            match input.uncons() {
                Ok(c) => tokens.push((p, c)),
                Err(_) => return (mark, tokens, p),
            }
        }
    };
    let mut input = skip(k)?;
    let got = build::<Dyn>(sa).parse_stream(&mut input).into_result();
    g.checks += 1;
    match (&want, &got) {
        (R::Ok(v, _), Ok((w, _))) if v == w => {
            let (have, want) = (seen(input), seen(skip(m.pos)?));
            if have != want {
                return Err(format!("{}: {:?} after {} of {:?} left {:?} instead of {:?}", kind.name, a, k, s, have, want));
            }
            if m.backtracked || m.far > m.pos {
                g.nontrivial(hash_str(&format!("{:?}{}{}", a, k, s)));
            }
        }
        (R::Err(_), Err(_)) => {}
        _ => return Err(format!("{}: {:?} after {} of {:?} gives {:?} but means {:?}", kind.name, a, k, s, got.map(|x| x.0).map_err(|_| "a failure"), want)),
    }
    Ok(())
}

fn gen_case(g: &mut Gen) -> A {
    let o = Opts { depth: 3, ..Opts::full() };
    let d = g.small(0, 2);
    let mut a = backtracking(g, &o, d);
    if g.chance(1, 3) {
        let b = backtracking(g, &o, d);
        a = A::Seq(vec![a, b]);
    }
    a
}
/// A text after the start of which the parser is run
fn gen_text(a: &A, g: &mut Gen) -> (String, usize) {
    let mut s = String::new();
    for _ in 0..g.small(0, 4) {
        s.push(if g.chance(1, 3) { '\n' } else { gen_char(g) })
    }
    let k = s.chars().count();
    let mut rest = gen_input(a, g);
    if g.chance(1, 4) {
        // newlines inside of what is given back
        rest = rest.chars().map(|c| if c == ',' { '\n' } else { c }).collect();
    }
    s.push_str(&rest);
    (s, k)
}

fn check<I: Kind>(g: &mut Gen) -> Res
where
    I::Position: std::fmt::Debug,
{
    let a = gen_case(g);
    for _ in 0..3 {
        let (s, k) = gen_text(&a, g);
        let chars: Vec<char> = s.chars().collect();
        g.describe(|| format!("{}: {:?} after {} characters of {:?}", I::NAME, a, k, s));
        observe::<I>(&a, k, &s, &chars, g)?;
    }
    a.label_all(g);
    Ok(())
}

fn kinds_suite(g: &mut Gen) -> Res {
    let a = gen_case(g);
    for _ in 0..3 {
        let (s, k) = gen_text(&a, g);
        let kind = g.pick(KINDS);
        let seed = g.below(16) as usize;
        g.describe(|| format!("{}: {:?} after {} characters of {:?}", kind.name, a, k, s));
        observe_dyn(kind, &a, k, &s, seed, g)?;
        g.label(kind.name);
    }
    a.label_all(g);
    Ok(())
}

fn main() {
    h::runner::main(&Property {
        id: "C03",
        rule: "a case is a parser built around something that gives input back (attempt, look_ahead, not_followed_by, optional, failed alternatives, the last failed iteration of repetitions) run from a generated position of three inputs; afterwards all remaining tokens, the position before each and the address of the rest must be those of a stream from which just the consumed tokens were taken one by one. Non-trivial: the parser succeeded after backtracking or after looking beyond what it consumed; distinct by parser, position and input",
        assumptions: &["how much the parser consumes is decided by the reference interpreter"],
        suites: &[
            Suite { name: "str", quick: 200_000, thorough: 4_000_000, f: check::<Str> },
            Suite { name: "easy_position", quick: 200_000, thorough: 4_000_000, f: check::<EasyPos> },
            Suite { name: "position_slice", quick: 200_000, thorough: 4_000_000, f: check::<PosSlice> },
            Suite { name: "state_span", quick: 200_000, thorough: 4_000_000, f: check::<SpanState> },
            Suite { name: "buffered", quick: 200_000, thorough: 4_000_000, f: check::<BufIter> },
            Suite { name: "kinds", quick: 600_000, thorough: 12_000_000, f: kinds_suite },
        ],
        known: &[],
    })
}
