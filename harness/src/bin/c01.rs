#[path = "../h/mod.rs"]
#[macro_use]
mod h;
#[path = "../h/cmp.rs"]
mod cmp;
use cmp::compare;
use h::ast::*;
use h::gen::*;
use h::runner::*;

fn grammar(g: &mut Gen, o: Opts) -> Res {
    let d = 1 + g.small(0, o.depth - 1);
    let a = gen_ast(g, &o, d);
    for _ in 0..3 {
        let s = gen_input(&a, g);
        g.describe(|| format!("{:?} on {:?}", a, s));
        compare(&a, &s, g)?;
    }
    a.label_all(g);
    Ok(())
}

fn compose(g: &mut Gen) -> Res {
    grammar(g, Opts { reps: false, ..Opts::full() })
}
fn all(g: &mut Gen) -> Res {
    grammar(g, Opts { depth: 5, ..Opts::full() })
}
fn ranges(g: &mut Gen) -> Res {
    grammar(g, Opts { range: true, ..Opts::full() })
}

fn main() {
    h::runner::main(&Property {
        id: "C01",
        rule: "a case is a generated grammar (sequences, all forms of choice, lookahead, transformations, wrappers; suite 'all' adds the repetitions, suite 'ranges' also the zero-copy range parsers) run on three inputs derived from it (sampled sentence, usually mutated, truncated or extended), on a plain and on an error-collecting stream; the result, value, commit status and rest are compared with a reference interpreter. Non-trivial: the last input was accepted with a structured value after consuming two tokens or more, was rejected after committing, or was rejected after looking beyond the first token; counted distinct by grammar and input",
        assumptions: &[
            "grammars whose repeated parser can succeed without consuming are excluded (documented to loop)",
            "the empty literal is excluded for range()",
        ],
        suites: &[
            Suite { name: "compose", quick: 600_000, thorough: 12_000_000, f: compose },
            Suite { name: "all", quick: 600_000, thorough: 12_000_000, f: all },
            Suite { name: "ranges", quick: 600_000, thorough: 12_000_000, f: ranges },
        ],
        known: &[],
    })
}
