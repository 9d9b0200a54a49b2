#[path = "../h/mod.rs"]
#[macro_use]
mod h;
#[path = "../h/cmp.rs"]
mod cmp;
use cmp::compare;
use h::ast::*;
use h::gen::*;
use h::runner::*;

/// A repetition at the root, of parsers up to depth `d`
fn rep(g: &mut Gen, o: Opts, d: usize) -> Res {
    let r = gen_rep(g, &o, d);
    // what comes after shows where the repetition stopped and whether it committed
    let a = match g.weighted(&[4, 1, 1, 1]) {
        0 => r,
        1 => A::Seq(vec![r, gen_ast(g, &o, 0)]),
        2 => A::Seq(vec![gen_ast(g, &o, 0), r]),
        _ => A::Choice(vec![r, gen_ast(g, &o, 0)]),
    };
    for _ in 0..3 {
        let s = gen_input(&a, g);
        g.describe(|| format!("{:?} on {:?}", a, s));
        compare(&a, &s, g)?;
    }
    a.label_all(g);
    Ok(())
}
fn shallow(g: &mut Gen) -> Res {
    rep(g, Opts::full(), 0)
}
fn nested(g: &mut Gen) -> Res {
    let d = 1 + g.small(0, 2);
    rep(g, Opts::full(), d)
}

/// A script that asks for about `n` calls
fn script(g: &mut Gen, n: usize, sticky: bool) -> A {
    let v = (0..n)
        .map(|_| match g.weighted(&[5, 4, 1, 1, 1]) {
            0 => (1, true),
            1 => (0, true),
            2 => (2, true),
            3 => (0, false),
            _ => (1, false),
        })
        .collect();
    A::Script(v, sticky)
}
/// Repetitions of parsers that consume, succeed without consuming, fail or commit and fail,
/// differently from call to call
fn scripted(g: &mut Gen) -> Res {
    fn el(g: &mut Gen) -> Box<A> {
        let n = g.small(1, 5);
        let a = script(g, n, false);
        Box::new(match g.weighted(&[8, 1, 1, 1, 1]) {
            0 => a,
            1 => A::Attempt(Box::new(a)),
            2 => A::Seq(vec![a, script(g, 4, false)]),
            3 => A::Choice(vec![a, script(g, 3, false)]),
            _ => A::Map(Box::new(a)),
        })
    }
    let lo = g.small(0, 3);
    let hi = lo + g.small(0, 2);
    let r = match g.below(21) {
        0 => A::Many(el(g)),
        1 => A::Many1(el(g)),
        2 => A::SkipMany(el(g)),
        3 => A::SkipMany1(el(g)),
        4 => A::Count(hi, el(g)),
        5 => A::SkipCount(hi, el(g)),
        6 => A::CountMM(lo, hi, el(g)),
        7 => A::SkipCountMM(lo, hi, el(g)),
        8 => A::SepBy(el(g), el(g)),
        9 => A::SepBy1(el(g), el(g)),
        10 => A::SepEndBy(el(g), el(g)),
        11 => A::SepEndBy1(el(g), el(g)),
        12 | 13 => A::Chainl1(el(g), el(g)),
        // asks again what has just failed
        14 => {
            let op = Box::new(A::Tok(gen_char(g)));
            let n = g.small(1, 5);
            A::Chainr1(Box::new(script(g, n, true)), if g.bool() { op } else { Box::new(A::Opt(op)) })
        }
        15 => A::TakeUntil(el(g)),
        16 => A::SkipUntil(el(g)),
        17 => A::RepeatUntil(el(g), el(g)),
        18 => A::RepeatSkipUntil(el(g), el(g)),
        19 => A::Escaped(el(g), 'a', el(g)),
        _ => {
            let n = g.small(0, 4);
            A::Iterate((0..n).map(|_| *el(g)).collect())
        }
    };
    let a = match g.weighted(&[6, 1, 1, 1, 1]) {
        0 => r,
        1 => A::Seq(vec![r, script(g, 1, false)]),
        2 => A::Seq(vec![script(g, 1, false), r]),
        3 => A::Choice(vec![r, script(g, 1, false)]),
        _ => A::Opt(Box::new(r)),
    };
    for _ in 0..3 {
        let n = g.small(0, 7);
        let s: String = (0..n).map(|_| gen_char(g)).collect();
        g.describe(|| format!("{:?} on {:?}", a, s));
        compare(&a, &s, g)?;
    }
    a.label_all(g);
    Ok(())
}

/// Long repetitions of simple elements, around counts where counters and buffers might wrap
fn long(g: &mut Gen) -> Res {
    const SIZES: [usize; 14] = [3, 15, 16, 17, 63, 64, 255, 256, 257, 1000, 4095, 4096, 4097, 5000];
    let n = *g.pick(&SIZES);
    let n = n + g.small(0, 2);
    let el = || Box::new(A::Tok('a'));
    let sep = || Box::new(A::Tok(','));
    let end = || Box::new(A::Tok('b'));
    let lo = n.saturating_sub(g.small(0, 3));
    let hi = lo + g.small(0, 3);
    let (a, unit): (A, &str) = match g.below(19) {
        0 => (A::Many(el()), "a"),
        1 => (A::Many1(el()), "a"),
        2 => (A::SkipMany(el()), "a"),
        3 => (A::SkipMany1(el()), "a"),
        4 => (A::Count(hi, el()), "a"),
        5 => (A::SkipCount(hi, el()), "a"),
        6 => (A::CountMM(lo, hi, el()), "a"),
        7 => (A::SkipCountMM(lo, hi, el()), "a"),
        8 => (A::SepBy(el(), sep()), "a,"),
        9 => (A::SepBy1(el(), sep()), "a,"),
        10 => (A::SepEndBy(el(), sep()), "a,"),
        11 => (A::SepEndBy1(el(), sep()), "a,"),
        12 => (A::Chainl1(el(), sep()), "a,"),
        13 => (A::TakeUntil(end()), "a"),
        14 => (A::SkipUntil(end()), "a"),
        15 => (A::RepeatUntil(el(), end()), "a"),
        16 => (A::RepeatSkipUntil(el(), end()), "a"),
        17 => (A::Escaped(Box::new(A::Sat(Pred::Ab)), ',', el()), "a,ab"),
        _ => (A::Iterate((0..n.min(300)).map(|_| A::Tok('a')).collect()), "a"),
    };
    let mut s = unit.repeat(n);
    match g.below(5) {
        0 => s.push('b'),
        1 => s.push_str("ab"),
        2 => {
            s.pop();
        }
        3 => {
            s.pop();
            s.push('b')
        }
        _ => {}
    }
    let name = format!("{:?}", a);
    let name: String = name.chars().take(60).collect();
    g.describe(|| format!("{} on {} times {:?} ({} bytes)", name, n, unit, s.len()));
    compare(&a, &s, g)?;
    g.nontrivial(hash_str(&format!("{}{}", name, s)));
    Ok(())
}

fn main() {
    h::runner::main(&Property {
        id: "C02",
        rule: "a case is a repetition combinator over generated element, separator, operator and terminator parsers (alone, or before, after or beside another parser) run on three derived inputs with cheap and with rich errors, the result, value, commit status and rest compared with a reference interpreter; suite 'scripted' repeats parsers that consume, succeed without consuming, fail or commit and fail differently from call to call, as a script says; suite 'long' uses counts from 3 to 5000 of simple elements. Non-trivial: accepted with a structured value after two tokens or more, rejected after committing, or rejected after looking beyond the first token (every long case); distinct by grammar and input",
        assumptions: &[
            "repeated parsers that can succeed without consuming are excluded where the documentation says that they loop",
            "chainr1 is recursive by design, its chains stay below 60 elements",
        ],
        suites: &[
            Suite { name: "shallow", quick: 600_000, thorough: 12_000_000, f: shallow },
            Suite { name: "nested", quick: 600_000, thorough: 12_000_000, f: nested },
            Suite { name: "scripted", quick: 400_000, thorough: 8_000_000, f: scripted },
            Suite { name: "long", quick: 20_000, thorough: 400_000, f: long },
        ],
        known: &[],
    })
}
