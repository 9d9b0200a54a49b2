#[path = "../h/mod.rs"]
#[macro_use]
mod h;
use combine::parser::combinator::{factory, AnyPartialState};
use combine::parser::sequence as seq;
use combine::stream::position::{self, IndexPositioner};
use combine::stream::{easy, MaybePartialStream, PointerOffset};
use combine::{choice, many, optional, ParseResult, Parser};
use h::ast::*;
use h::build::*;
use h::gen::*;
use h::runner::*;

type Easy = easy::Stream<MaybePartialStream<&'static str>>;
type Chars = position::Stream<MaybePartialStream<&'static [char]>, IndexPositioner>;
str_src!(Easy, PointerOffset::new(0));
tok_src!(Chars, 0);

trait Kind: Src {
    fn make(s: &str, chars: &[char], bounds: &[usize], from: usize, to: usize, partial: bool) -> Self;
    fn left(&self) -> usize;
    fn eoi(e: &Self::Error) -> bool {
        combine::ParseError::<Self::Token, Self::Range, Self::Position>::is_unexpected_end_of_input(e)
    }
    fn show(e: Self::Error) -> String;
}
impl Kind for Easy {
    fn make(s: &str, _: &[char], bounds: &[usize], from: usize, to: usize, partial: bool) -> Self {
        easy::Stream(MaybePartialStream(unsafe { lend_str(&s[bounds[from]..bounds[to]]) }, partial))
    }
    fn left(&self) -> usize {
        self.0 .0.chars().count()
    }
    fn show(e: Self::Error) -> String {
        
        format!("{:?}", e)
    }
}
impl Kind for Chars {
    fn make(_: &str, chars: &[char], _: &[usize], from: usize, to: usize, partial: bool) -> Self {
        position::Stream {
            input: MaybePartialStream(unsafe { lend_slice(&chars[from..to]) }, partial),
            positioner: IndexPositioner::new_with_position(from),
        }
    }
    fn left(&self) -> usize {
        self.input.0.len()
    }
    fn show(e: Self::Error) -> String {
        format!("{:?}", e)
    }
}

/// The parser of the case, and the parts that choose a parser by looking at the input
#[derive(Debug)]
enum Top {
    Plain(A),
    Factory(Vec<A>),
    FactorySeq(A, Vec<A>, A),
    FactoryMany(Vec<A>),
    FactoryOr(Vec<A>, A),
    FactoryOpt(A, Vec<A>),
}
fn chosen<I: Kind>(v: &'static [A]) -> impl Parser<I, Output = Val, PartialState = impl Default> {
    factory(move |input: &mut I| {
        let before = input.checkpoint();
        let c = input.uncons();
        input.reset(before).ok();
        build::<I>(&v[c.map_or(0, |c| c as usize) % v.len()])
    })
}
fn make<I: Kind>(t: &'static Top) -> P<I> {
    let l = Val::L;
    match t {
        Top::Plain(a) => build::<I>(a),
        Top::Factory(v) => b(chosen::<I>(v)),
        Top::FactorySeq(x, v, y) => b((build::<I>(x), chosen::<I>(v), build::<I>(y)).map(move |(x, y, z)| l(vec![x, y, z]))),
        Top::FactoryMany(v) => b(many(chosen::<I>(v)).map(l)),
        Top::FactoryOr(v, x) => b(choice((chosen::<I>(v), build::<I>(x)))),
        Top::FactoryOpt(x, v) => b(seq::with(build::<I>(x), optional(chosen::<I>(v))).map(|o| Val::O(o.map(Box::new)))),
    }
}
impl Top {
    fn parts(&self) -> Vec<&A> {
        match self {
            Top::Plain(a) => vec![a],
            Top::Factory(v) | Top::FactoryMany(v) => v.iter().collect(),
            Top::FactorySeq(x, v, y) => {
                let mut r = vec![x];
                r.extend(v);
                r.push(y);
                r
            }
            Top::FactoryOr(v, x) | Top::FactoryOpt(x, v) => {
                let mut r = vec![x];
                r.extend(v);
                r
            }
        }
    }
    fn input(&self, g: &mut Gen) -> String {
        let mut s = String::new();
        match self {
            Top::Plain(a) => return gen_input(a, g),
            Top::FactoryMany(v) => {
                for _ in 0..g.small(0, 4) {
                    sample(g.pick(v), g, &mut s)
                }
            }
            Top::FactorySeq(x, v, y) => {
                sample(x, g, &mut s);
                sample(g.pick(v), g, &mut s);
                sample(y, g, &mut s);
            }
            Top::FactoryOpt(x, v) => {
                sample(x, g, &mut s);
                sample(g.pick(v), g, &mut s);
            }
            Top::FactoryOr(..) | Top::Factory(_) => sample(*g.pick(&self.parts()[..]), g, &mut s),
        }
        if g.chance(1, 3) {
            s.push(gen_char(g))
        }
        if g.chance(1, 4) {
            s.pop();
        }
        s
    }
}

/// How one input is parsed
#[derive(Debug, Clone)]
struct Use {
    s: String,
    /// characters given at each step; the last step is complete input unless abandoned
    cuts: Vec<usize>,
    abandon: bool,
    way: u32,
    keep: bool,
}

#[derive(Debug, PartialEq)]
struct Seen(Vec<(String, usize)>);

/// Runs one use; tells what was seen and whether the parse was completed (so that the state is as good as new)
fn run<I: Kind>(p: &mut P<I>, state: &mut AnyPartialState, u: &Use) -> (Seen, bool) {
    let chars: Vec<char> = u.s.chars().collect();
    let mut bounds: Vec<usize> = u.s.char_indices().map(|x| x.0).collect();
    bounds.push(u.s.len());
    let mut at = 0;
    let mut seen = vec![];
    for k in 0..=u.cuts.len() {
        let partial = k < u.cuts.len();
        if !partial && u.abandon {
            return (Seen(seen), false);
        }
        let end = if partial { u.cuts[k] } else { chars.len() };
        let mut input = I::make(&u.s, &chars, &bounds, at, end.max(at), partial);
        let r = match u.way {
            0 => p.parse_partial(&mut input, state),
            1 if k == 0 => p.parse_first(&mut input, state),
            1 => p.parse_partial(&mut input, state),
            // no state is involved: all of the input at once
            2 => p.parse_stream(&mut input),
            _ => p.parse_lazy(&mut input),
        };
        let left = input.left();
        at = end.max(at) - left;
        let (text, done) = match r {
            ParseResult::CommitOk(v) => (format!("ok {:?}", v), Some(true)),
            ParseResult::PeekOk(v) => (format!("peek ok {:?}", v), Some(true)),
            ParseResult::PeekErr(e) => (format!("peek error {}", I::show(e.error)), Some(true)),
            ParseResult::CommitErr(e) => {
                let more = partial && I::eoi(&e);
                (format!("error {}", I::show(e)), if more { None } else { Some(false) })
            }
        };
        seen.push((text, at));
        if let Some(ok) = done {
            return (Seen(seen), ok);
        }
    }
    (Seen(seen), false)
}

fn check<I: Kind>(g: &mut Gen, o: Opts) -> Res {
    let d = g.small(0, o.depth);
    let alts = |g: &mut Gen| -> Vec<A> { (0..2 + g.small(0, 2)).map(|_| gen_consuming(g, &o, d.min(2))).collect() };
    let top = match g.weighted(&[6, 1, 1, 1, 1, 1]) {
        0 => Top::Plain(gen_ast(g, &o, d)),
        1 => Top::Factory(alts(g)),
        2 => Top::FactorySeq(gen_ast(g, &o, d.min(1)), alts(g), gen_ast(g, &o, d.min(1))),
        3 => Top::FactoryMany(alts(g)),
        4 => Top::FactoryOr(alts(g), gen_ast(g, &o, d.min(1))),
        _ => Top::FactoryOpt(gen_ast(g, &o, d.min(1)), alts(g)),
    };
    for a in top.parts() {
        a.label_all(g);
    }
    let t: &'static Top = unsafe { std::mem::transmute(&top) };
    let n = 2 + g.small(0, 4);
    let uses: Vec<Use> = (0..n)
        .map(|_| {
            let s = top.input(g);
            let way = g.weighted(&[4, 3, 1, 1]) as u32;
            let len = s.chars().count() as u32;
            let mut cuts: Vec<usize> = if way < 2 { (0..g.small(0, 3)).map(|_| g.below(len + 1) as usize).collect() } else { vec![] };
            cuts.sort();
            let abandon = !cuts.is_empty() && g.chance(1, 2);
            Use { s, cuts, abandon, way, keep: g.bool() }
        })
        .collect();
    g.describe(|| format!("{:?} used for {:#?}", top, uses));
    let mut p = make::<I>(t);
    let mut state = AnyPartialState::default();
    let mut clean = true;
    for (i, u) in uses.iter().enumerate() {
        if !clean || !u.keep {
            state = AnyPartialState::default();
            clean = true;
        } else if i > 0 {
            g.label("state_kept");
        }
        let (got, done) = run::<I>(&mut p, &mut state, u);
        let (want, _) = run::<I>(&mut make::<I>(t), &mut AnyPartialState::default(), u);
        g.checks += 1;
        if got != want {
            return Err(format!(
                "use {} ({:?}) of the parser gives {:?} but a new parser gives {:?}",
                i + 1,
                u,
                got.0,
                want.0
            ));
        }
        // states are not involved in the last two ways
        if u.way < 2 {
            clean = done;
        }
        if got.0.len() > 1 {
            g.label(if u.abandon { "abandoned" } else { "resumed" });
        }
        if i > 0 && want.0.iter().any(|x| x.1 > 0) {
            g.nontrivial(hash_str(&format!("{:?}{:?}", top, &uses[..=i])));
        }
    }
    Ok(())
}

fn opts() -> Opts {
    Opts { depth: 4, range: true, partial: true, ..Opts::full() }
}
fn easy(g: &mut Gen) -> Res {
    check::<Easy>(g, opts())
}
fn tokens(g: &mut Gen) -> Res {
    check::<Chars>(g, Opts { range: false, ..opts() })
}

fn main() {
    h::runner::main(&Property {
        id: "C20",
        rule: "a case is one parser value (any grammar, and parsers chosen by looking at the input) used for two to six inputs one after another, each parsed whole or in pieces and completed, failed or abandoned half way, with a fresh state or with the one the previous completed use left; every step of every use (value or full error, commit status, amount consumed) must be that of a newly built parser. Non-trivial: a use after the first which consumed something; distinct by parser and uses",
        assumptions: &[
            "closures given by the user keep no state; hand-written parser functions and loops over Parser::iter are not resumed",
            "the state of an abandoned or finally failed parse is not used again",
        ],
        suites: &[
            Suite { name: "easy", quick: 600_000, thorough: 12_000_000, f: easy },
            Suite { name: "tokens", quick: 600_000, thorough: 12_000_000, f: tokens },
        ],
        known: &[],
    })
}
