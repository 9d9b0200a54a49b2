#[path = "../h/mod.rs"]
#[macro_use]
mod h;
#[path = "../h/dynkind.rs"]
mod dynkind;
use combine::error::{StringStreamError, UnexpectedParse};
use combine::stream::{decode, easy, MaybePartialStream, PointerOffset};
use combine::{Parser, StreamOnce};
use dynkind::{Dyn, KindInfo, Owned, Source, PARTIAL};
use h::ast::*;
use h::build::*;
use h::gen::*;
use h::runner::*;

type Easy = easy::Stream<MaybePartialStream<&'static str>>;
type Plain = MaybePartialStream<&'static str>;
type Slice = MaybePartialStream<&'static [char]>;
str_src!(Easy, PointerOffset::new(0));
str_src!(Plain, PointerOffset::new(0));
tok_src!(Slice, PointerOffset::new(0));

/// A chunk of the input (whose characters are also available as a slice)
struct Text<'a> {
    s: &'a str,
    chars: &'a [char],
    bounds: Vec<usize>, // byte offset of every character and of the end
    /// for `Dyn`
    own: Option<(Owned, &'static KindInfo)>,
}

trait Chunk: Src + combine::RangeStream {
    /// The chunk from character `from` to `to`
    fn chunk(t: &Text, from: usize, to: usize, partial: bool) -> Self;
    /// The number of characters which remain
    fn left(&mut self) -> usize;
    fn eoi(e: &Self::Error) -> bool;
    /// `distance` from the start of the chunk to its end
    fn text_len(&self) -> usize;
}
impl Chunk for Easy {
    fn chunk(t: &Text, from: usize, to: usize, partial: bool) -> Self {
        easy::Stream(Plain::chunk(t, from, to, partial))
    }
    fn left(&mut self) -> usize {
        self.0.left()
    }
    fn text_len(&self) -> usize {
        self.0.text_len()
    }
    fn eoi(e: &Self::Error) -> bool {
        e.errors.iter().any(|e| *e == easy::Error::end_of_input())
    }
}
impl Chunk for Plain {
    fn chunk(t: &Text, from: usize, to: usize, partial: bool) -> Self {
        MaybePartialStream(unsafe { lend_str(&t.s[t.bounds[from]..t.bounds[to]]) }, partial)
    }
    fn left(&mut self) -> usize {
        self.0.chars().count()
    }
    fn text_len(&self) -> usize {
        self.0.len()
    }
    fn eoi(e: &Self::Error) -> bool {
        *e == StringStreamError::Eoi
    }
}
impl Chunk for Slice {
    fn chunk(t: &Text, from: usize, to: usize, partial: bool) -> Self {
        MaybePartialStream(unsafe { std::mem::transmute::<&[char], &'static [char]>(&t.chars[from..to]) }, partial)
    }
    fn left(&mut self) -> usize {
        self.0.len()
    }
    fn text_len(&self) -> usize {
        self.0.len()
    }
    fn eoi(e: &Self::Error) -> bool {
        *e == UnexpectedParse::Eoi
    }
}

impl Chunk for Dyn {
    fn chunk(t: &Text, from: usize, to: usize, partial: bool) -> Self {
        let (own, kind) = t.own.as_ref().unwrap();
        let base = t.bounds[from];
        let source = Source {
            text: unsafe { lend_str(&t.s[base..t.bounds[to]]) },
            bounds: t.bounds[from..=to].iter().map(|b| b - base).collect(),
            chars: unsafe { lend_slice(&own.chars[from..to]) },
            bytes: unsafe { lend_slice(&own.bytes[from..to]) },
            table: own.table.clone(),
            seed: from + to,
        };
        (kind.make)(&source.into(), partial)
    }
    fn left(&mut self) -> usize {
        let mut n = 0;
        while self.uncons().is_ok() {
            n += 1;
        }
        n
    }
    fn text_len(&self) -> usize {
        combine::RangeStreamOnce::range(self).len()
    }
    fn eoi(e: &Self::Error) -> bool {
        *e == StringStreamError::Eoi
    }
}

#[derive(Debug, PartialEq, Clone)]
enum Out {
    Val(Val),
    Fail,
}

/// The values parsed one after another (at most `n`) and the character each ends at
fn whole<I: Chunk>(a: &A, t: &Text, n: usize) -> Vec<(Out, usize)> {
    let sa = unsafe { lend(a) };
    let mut at = 0;
    let mut out = vec![];
    for _ in 0..n {
        let mut input = I::chunk(t, at, t.chars.len(), false);
        match build::<I>(sa).parse_stream(&mut input).into_result() {
            Ok((v, _)) => {
                at = t.chars.len() - input.left();
                out.push((Out::Val(v), at));
            }
            Err(_) => {
                out.push((Out::Fail, 0));
                break;
            }
        }
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    /// `stream::decode`
    Decode,
    /// `Parser::parse_with_state`, asking for more on end of input errors
    State,
}

fn chunked<I: Chunk>(a: &A, t: &Text, n: usize, cuts: &[usize], rebuild: bool, way: Way, g: &mut Gen) -> Result<Vec<(Out, usize)>, String> {
    let sa = unsafe { lend(a) };
    let mut p = build::<I>(sa);
    let mut state = Default::default();
    let mut at = 0; // consumed
    let mut c = 0; // next cut
    let mut out = vec![];
    while out.len() < n {
        let end = if c < cuts.len() { cuts[c] } else { t.chars.len() };
        let partial = c < cuts.len();
        if rebuild {
            p = build::<I>(sa);
        }
        let mut input = I::chunk(t, at, end, partial);
        let r = match way {
            Way::Decode => decode(&mut p, &mut input, &mut state),
            Way::State => match p.parse_with_state(&mut input, &mut state) {
                Ok(v) => Ok((Some(v), 0)),
                Err(e) if partial && I::eoi(&e) => Ok((None, 0)),
                Err(e) => Err(e),
            },
        };
        let used = end - at - input.left();
        match r {
            Ok((Some(v), dist)) => {
                if way == Way::Decode && dist != I::chunk(t, at, at + used, false).text_len() {
                    return Err(format!("decode reports {} but {} characters are gone", dist, used));
                }
                at += used;
                out.push((Out::Val(v), at));
            }
            Ok((None, dist)) => {
                if way == Way::Decode && dist != I::chunk(t, at, at + used, false).text_len() {
                    return Err(format!("decode reports {} but {} characters are gone", dist, used));
                }
                if !partial {
                    return Err("asked for more input although the input is complete".into());
                }
                if used > 0 {
                    g.label("suspended_after_consuming");
                }
                at += used;
                c += 1;
                g.label("suspended");
            }
            Err(_) => {
                out.push((Out::Fail, 0));
                break;
            }
        }
    }
    Ok(out)
}

fn check<I: Chunk>(g: &mut Gen, o: Opts) -> Res {
    check_with::<I>(g, o, false)
}
fn check_with<I: Chunk>(g: &mut Gen, o: Opts, dynamic: bool) -> Res {
    let kinds: Vec<&'static KindInfo> = PARTIAL.iter().filter(|k| k.ranges || !o.range).collect();
    let d = 1 + g.small(0, o.depth - 1);
    let a = gen_ast(g, &o, d);
    a.label_all(g);
    for _ in 0..2 {
        let mut s = gen_input(&a, g);
        let n = g.small(1, 3);
        for _ in 1..n {
            if g.chance(2, 3) {
                sample(&a, g, &mut s);
            }
        }
        let chars: Vec<char> = s.chars().collect();
        let mut bounds: Vec<usize> = s.char_indices().map(|x| x.0).collect();
        bounds.push(s.len());
        let own = if dynamic { Some((Owned::new(&s), *g.pick(&kinds))) } else { None };
        let t = Text { s: &s, chars: &chars, bounds, own };
        let want = whole::<I>(&a, &t, n);
        for k in 0..4 {
            // every character separately, or random cuts (possibly several at one place)
            let cuts: Vec<usize> = if k == 0 {
                (0..=chars.len()).collect()
            } else {
                let m = g.small(1, 4);
                let mut c: Vec<usize> = (0..m).map(|_| g.below(chars.len() as u32 + 1) as usize).collect();
                c.sort();
                c
            };
            let rebuild = g.bool();
            let decodable = t.own.as_ref().map_or(true, |o| o.1.ranges);
            let way = if g.bool() || !decodable { Way::State } else { Way::Decode };
            let kind = t.own.as_ref().map_or("", |o| o.1.name);
            g.describe(|| format!("{} {:?} on {:?} cut at {:?}, {:?}{}", kind, a, s, cuts, way, if rebuild { ", parser rebuilt" } else { "" }));
            let got = chunked::<I>(&a, &t, n, &cuts, rebuild, way, g)?;
            g.checks += 1;
            if got != want {
                return Err(format!("{:?} cut at {:?} gives {:?} but in one piece {:?}", s, cuts, got, want));
            }
            if cuts.iter().any(|c| *c > 0 && *c < chars.len()) && (want[0].1 > 1 || want.len() > 1) {
                g.nontrivial(hash_str(&format!("{:?}{:?}{:?}", a, s, cuts)));
            }
        }
        if n > 1 && matches!(want[..], [(Out::Val(_), _), (Out::Val(_), _), ..]) {
            g.label("several_messages");
        }
    }
    Ok(())
}

fn opts(depth: usize) -> Opts {
    Opts { depth, range: true, partial: true, ..Opts::full() }
}
fn compose(g: &mut Gen) -> Res {
    check::<Easy>(g, Opts { reps: false, ..opts(4) })
}
fn all(g: &mut Gen) -> Res {
    check::<Easy>(g, opts(5))
}
fn plain(g: &mut Gen) -> Res {
    check::<Plain>(g, opts(5))
}
fn slice(g: &mut Gen) -> Res {
    check::<Slice>(g, Opts { range: false, ..opts(5) })
}
fn stacks(g: &mut Gen) -> Res {
    let range = g.bool();
    check_with::<Dyn>(g, Opts { range, ..opts(4) }, true)
}

fn main() {
    h::runner::main(&Property {
        id: "C04",
        rule: "the input is cut strictly inside and the parse consumes more than one character or spans several messages; distinct by grammar, input and cuts",
        assumptions: &[
            "hand-written parser functions (parser::function::parser) and hand-written loops over Parser::iter are excluded: resuming them is up to the code written by the user",
            "grammars of depth up to 5, inputs of up to about 40 characters, up to 4 cuts or one after every character",
            "the state is only ever resumed with the input that follows what was consumed",
        ],
        suites: &[
            Suite { name: "compose", quick: 1_000_000, thorough: 20_000_000, f: compose },
            Suite { name: "all", quick: 1_000_000, thorough: 20_000_000, f: all },
            Suite { name: "plain", quick: 1_000_000, thorough: 20_000_000, f: plain },
            Suite { name: "slice", quick: 1_000_000, thorough: 20_000_000, f: slice },
            Suite { name: "stacks", quick: 600_000, thorough: 12_000_000, f: stacks },
        ],
        known: &[],
    })
}
