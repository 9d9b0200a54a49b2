#[path = "../h/mod.rs"]
#[macro_use]
mod h;
#[path = "../h/dynkind.rs"]
mod dynkind;
use combine::{Parser, StreamOnce};
use dynkind::*;
use h::ast::*;
use h::build::*;
use h::gen::*;
use h::model::*;
use h::runner::*;
use std::rc::Rc;

/// Runs `a` on the same tokens through some of the kinds
fn run(a: &A, s: &str, kinds: &[&KindInfo], seed: usize, g: &mut Gen) -> Res {
    let own = Owned::new(s);
    let src = Rc::new(unsafe { own.source(seed) });
    let mut m = M::new(&own.chars);
    let want = m.run(a);
    let sa = unsafe { lend(a) };
    for k in kinds {
        let mut input = (k.make)(&src, false);
        let got = build::<Dyn>(sa).parse_stream(&mut input).into_result();
        g.checks += 1;
        match (&want, &got) {
            (R::Ok(v, _), Ok((w, _))) if v == w => {
                let mut left = String::new();
                while let Ok(c) = input.uncons() {
                    left.push(c);
                }
                let want: String = own.chars[m.pos..].iter().collect();
                if left != want {
                    return Err(format!("{}: {:?} on {:?} left {:?} instead of {:?}", k.name, a, s, left, want));
                }
            }
            (R::Err(_), Err(_)) => {}
            _ => {
                return Err(format!(
                    "{}: {:?} on {:?} gives {:?} but the grammar means {:?}",
                    k.name,
                    a,
                    s,
                    got.map(|x| x.0).map_err(|_| "a failure"),
                    want
                ))
            }
        }
        g.label(k.name);
    }
    if m.pos > 1 || m.far > 1 {
        g.nontrivial(hash_str(&format!("{:?}|{}", a, s)));
    }
    Ok(())
}

fn case(g: &mut Gen, o: &Opts, kinds: &[&'static KindInfo]) -> Res {
    let d = 1 + g.small(0, 2);
    let a = gen_ast(g, o, d);
    // a few kinds per case, drawn one by one
    let ks: Vec<&KindInfo> = (0..4).map(|_| *g.pick(kinds)).collect();
    let seed = g.below(256) as usize;
    for _ in 0..2 {
        let s = gen_input(&a, g);
        g.describe(|| format!("{:?} on {:?} through {:?}", a, s, ks.iter().map(|k| k.name).collect::<Vec<_>>()));
        run(&a, &s, &ks, seed, g)?;
    }
    a.label_all(g);
    Ok(())
}
fn tokens(g: &mut Gen) -> Res {
    let ks: Vec<&'static KindInfo> = KINDS.iter().collect();
    case(g, &Opts::full(), &ks)
}
fn ranges(g: &mut Gen) -> Res {
    let ks: Vec<&'static KindInfo> = KINDS.iter().filter(|k| k.ranges).collect();
    case(g, &Opts { range: true, ..Opts::full() }, &ks)
}

/// Inputs longer than any internal block size, through every kind
fn long(g: &mut Gen) -> Res {
    let o = Opts { depth: 2, ..Opts::full() };
    let d = g.small(0, 1);
    let el = gen_consuming(g, &o, d);
    let sep = gen_token_leaf(g, &o);
    let a = match g.below(5) {
        0 => A::Many(Box::new(el.clone())),
        1 => A::SepBy(Box::new(el.clone()), Box::new(sep.clone())),
        2 => A::Many(Box::new(A::Attempt(Box::new(el.clone())))),
        3 => A::Attempt(Box::new(A::Seq(vec![A::Many(Box::new(el.clone())), A::Eof]))),
        _ => A::SepEndBy(Box::new(A::Attempt(Box::new(el.clone()))), Box::new(sep.clone())),
    };
    let mut s = String::new();
    let n = g.range(5, 150);
    for i in 0..n {
        let mut t = String::new();
        sample(&el, g, &mut t);
        if matches!(a, A::SepBy(..) | A::SepEndBy(..)) && i > 0 {
            sample(&sep, g, &mut t);
        }
        s.push_str(&t);
    }
    let seed = g.below(256) as usize;
    g.describe(|| format!("{:?} on {} characters", a, s.chars().count()));
    let ks: Vec<&KindInfo> = KINDS.iter().collect();
    run(&a, &s, &ks, seed, g)
}

fn main() {
    h::runner::main(&Property {
        id: "C07",
        rule: "a case is a generated grammar run on two derived inputs through four of 33 stacks of streams (strings, slices and SliceStreams of char and u8, iterators and readers behind buffers, with positions, spans, easy errors, state, complete partial wrappers); success, value and the tokens left are compared with a reference interpreter over the plain tokens. Suite 'ranges' adds zero-copy leaves on the kinds with ranges, also comparing the address and extent of every range; suite 'long' runs repetitions over hundreds of tokens through all kinds. Non-trivial: the parser consumed or looked at two tokens or more; distinct by grammar and input",
        assumptions: &["byte and reference tokens are translated to the characters they stand for before parsers see them", "buffers are given a lookahead of the whole input"],
        suites: &[
            Suite { name: "tokens", quick: 500_000, thorough: 10_000_000, f: tokens },
            Suite { name: "ranges", quick: 500_000, thorough: 10_000_000, f: ranges },
            Suite { name: "long", quick: 8_000, thorough: 160_000, f: long },
        ],
        known: &[],
    })
}
