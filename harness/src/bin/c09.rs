#[path = "../h/mod.rs"]
#[macro_use]
mod h;
#[path = "../h/slice.rs"]
mod slice;
use combine::parser::range::{self as pr, TakeRange};
use combine::parser::repeat as rep;
use combine::parser::token as tok;
use combine::stream::position::{self, IndexPositioner};
use combine::stream::{easy, span, state, CompleteStream, MaybePartialStream, PartialStream, Range, RangeStream, SliceStream};
use combine::ParseResult::{self, *};
use combine::{attempt, look_ahead, not_followed_by, optional, Parser};
use h::gen::*;
use h::runner::*;
use slice::*;

/// Token-wise parsers to recognize, with what they do on a slice of tokens
#[derive(Debug, Clone)]
enum Inner {
    SkipMany(Test),
    SkipMany1(Test),
    Count(usize),
    /// exactly
    AtLeast(usize),
    TwoRuns(Test, Test),
    LookThen(Test),
    NotThenAny(u32, u32),
    AttemptOr(usize),
    Nested(Test),
    Eof,
}

/// What a parser does: where it ends and whether it commits, or fails
#[derive(Debug, Clone, PartialEq)]
enum Want {
    Ok(usize, bool),
    Err(bool),
    /// waits for more input
    More,
}
use Want::Err as Fail;

fn run_of(m: &Model, at: usize, t: Test) -> usize {
    m.span(at, t).0
}

impl Inner {
    fn gen(g: &mut Gen) -> Inner {
        // only tests by value: the parsers keep no count
        let t = |g: &mut Gen| if g.chance(1, 6) { Test::All } else { Test::Mod(2 + g.below(3), g.below(3)) };
        match g.below(10) {
            0 => Inner::SkipMany(t(g)),
            1 => Inner::SkipMany1(t(g)),
            2 => Inner::Count(g.below(5) as usize),
            3 => Inner::AtLeast(g.below(5) as usize),
            4 => Inner::TwoRuns(t(g), t(g)),
            5 => Inner::LookThen(t(g)),
            6 => Inner::NotThenAny(2 + g.below(3), g.below(3)),
            7 => Inner::AttemptOr(1 + g.below(4) as usize),
            8 => Inner::Nested(t(g)),
            _ => Inner::Eof,
        }
    }
    /// A number for what was parsed, so that the value can be compared too
    fn model(&self, m: &Model, at: usize) -> (Want, usize) {
        let n = m.toks.len();
        let end = |to: usize, v: usize| {
            // a run that reaches the end of partial input waits
            if m.partial && to == n {
                (Want::More, 0)
            } else {
                (Want::Ok(to, to > at), v)
            }
        };
        match *self {
            Inner::SkipMany(t) => end(run_of(m, at, t), 1),
            Inner::SkipMany1(t) => {
                let to = run_of(m, at, t);
                if to == at && !(m.partial && at == n) {
                    (Fail(false), 0)
                } else {
                    end(to, 2)
                }
            }
            Inner::Count(k) => {
                // up to k
                let to = (at + k).min(n);
                if m.partial && to - at < k {
                    (Want::More, 0)
                } else {
                    (Want::Ok(to, to > at), to - at)
                }
            }
            Inner::AtLeast(k) => {
                if at + k <= n {
                    (Want::Ok(at + k, k > 0), k)
                } else if m.partial {
                    (Want::More, 0)
                } else {
                    (Fail(at < n), 0)
                }
            }
            Inner::TwoRuns(a, b) => {
                let x = run_of(m, at, a);
                if m.partial && x == n {
                    return (Want::More, 0);
                }
                let y = run_of(m, x, b);
                end(y, (x - at) * 100 + (y - x))
            }
            Inner::LookThen(t) => {
                let x = run_of(m, at, t);
                if m.partial && x == n {
                    (Want::More, 0)
                } else {
                    (Want::Ok(at, false), x - at)
                }
            }
            Inner::NotThenAny(a, b) => {
                if at == n {
                    return (if m.partial { Want::More } else { Fail(false) }, 0);
                }
                if m.toks[at] % a == b {
                    (Fail(false), 0)
                } else {
                    (Want::Ok(at + 1, true), 7)
                }
            }
            Inner::AttemptOr(k) => {
                if at + k <= n {
                    (Want::Ok(at + k, true), k)
                } else if m.partial {
                    (Want::More, 0)
                } else {
                    (Want::Ok(at, false), 0)
                }
            }
            Inner::Nested(t) => {
                let x = run_of(m, at, t);
                end(x, x - at)
            }
            Inner::Eof => {
                if at < n {
                    (Fail(false), 0)
                } else if m.partial {
                    (Want::More, 0)
                } else {
                    (Want::Ok(at, false), 9)
                }
            }
        }
    }
}

macro_rules! with_inner {
    ($inner: expr, $I: ty, |$p: ident| $e: expr) => {{
        let sat = |t: Test| tok::satisfy(move |c: <$I as combine::StreamOnce>::Token| t.run(0, c.num()));
        match *$inner {
            Inner::SkipMany(t) => { let $p = rep::skip_many(sat(t)).map(|_| 1usize); $e }
            Inner::SkipMany1(t) => { let $p = rep::skip_many1(sat(t)).map(|_| 2usize); $e }
            Inner::Count(k) => { let $p = rep::count::<Vec<_>, _, _>(k, tok::any()).map(|v: Vec<_>| v.len()); $e }
            Inner::AtLeast(k) => { let $p = rep::count_min_max::<Vec<_>, _, _>(k, k, tok::any()).map(|v: Vec<_>| v.len()); $e }
            Inner::TwoRuns(a, b) => {
                let $p = (rep::many::<Vec<_>, _, _>(sat(a)), rep::many::<Vec<_>, _, _>(sat(b))).map(|(x, y): (Vec<_>, Vec<_>)| x.len() * 100 + y.len());
                $e
            }
            Inner::LookThen(t) => { let $p = look_ahead(rep::many::<Vec<_>, _, _>(sat(t))).map(|v: Vec<_>| v.len()); $e }
            Inner::NotThenAny(a, b) => {
                let $p = (not_followed_by(tok::satisfy(move |c: <$I as combine::StreamOnce>::Token| c.num() % a == b).map(|_| "")), tok::any()).map(|_| 7usize);
                $e
            }
            Inner::AttemptOr(k) => {
                let $p = optional(attempt(rep::skip_count_min_max(k, k, tok::any()))).map(move |x| if x.is_some() { k } else { 0 });
                $e
            }
            Inner::Nested(t) => {
                let $p = pr::recognize_with_value(pr::recognize(rep::skip_many(sat(t)))).map(|(a, b): (<$I as combine::StreamOnce>::Range, <$I as combine::StreamOnce>::Range)| {
                    assert!(a.loc() == b.loc(), "recognize within recognize gives another range");
                    a.nums().len()
                });
                $e
            }
            Inner::Eof => { let $p = tok::eof().map(|_| 9usize); $e }
        }
    }};
}

#[derive(Debug, Clone)]
enum Par {
    Range(usize, usize, bool),
    Take(usize),
    While(Test),
    While1(Test),
    Until(usize, usize, bool),
    /// a searcher that finds something after so many tokens, or nothing
    Fn(Option<usize>, bool),
    Recognize(Inner),
    RecognizeValue(Inner),
    LengthPrefix,
}

/// A literal: a piece of the literal source (itself much like the input)
fn piece(p: &Par) -> Option<(usize, usize, bool)> {
    match *p {
        Par::Range(a, b, own) | Par::Until(a, b, own) => Some((a, b, own)),
        _ => None,
    }
}

fn status<T, E>(r: &ParseResult<T, E>) -> &'static str {
    match r {
        CommitOk(_) => "CommitOk",
        PeekOk(_) => "PeekOk",
        CommitErr(_) => "CommitErr",
        PeekErr(_) => "PeekErr",
    }
}

fn go<I>(name: &'static str, s: &mut I, m: &Model, lit: &dyn Fn((usize, usize, bool)) -> (I::Range, Vec<u32>), pars: &[Par], g: &mut Gen) -> Res
where
    I: RangeStream + 'static,
    I::Token: Tok,
    I::Range: Loc + Range + PartialEq,
{
    use combine::error::ParseError;
    let n = m.toks.len();
    let mut at = 0;
    for p in pars {
        // (what should happen, the token the returned range starts at, the value)
        let (want, from, val) = match p {
            Par::Range(..) => {
                let (r, toks) = lit(piece(p).unwrap());
                let k = r.len();
                let w = match m.size(at, k) {
                    Size::Short => {
                        if m.partial {
                            Want::More
                        } else {
                            Fail(false)
                        }
                    }
                    Size::Fits(to) if m.toks[at..to] == toks[..] => Want::Ok(to, k > 0),
                    _ => Fail(false),
                };
                (w, at, 0)
            }
            Par::Take(k) => {
                let w = match m.size(at, *k) {
                    Size::Short if m.partial => Want::More,
                    Size::Short | Size::Within => Fail(false),
                    Size::Fits(to) => Want::Ok(to, *k > 0),
                };
                (w, at, 0)
            }
            Par::While(t) | Par::While1(t) => {
                let to = run_of(m, at, *t);
                let w = if m.partial && to == n {
                    Want::More
                } else if to == at && matches!(p, Par::While1(_)) {
                    Fail(false)
                } else {
                    Want::Ok(to, to > at)
                };
                (w, at, 0)
            }
            Par::Until(..) => {
                let (_, toks) = lit(piece(p).unwrap());
                let found = (at..=n).find(|i| i + toks.len() <= n && m.toks[*i..i + toks.len()] == toks[..]);
                let w = match found {
                    Some(i) => Want::Ok(i, i > at),
                    None if m.partial => Want::More,
                    None => Fail(false),
                };
                (w, at, 0)
            }
            Par::Fn(k, _) => {
                let w = match k {
                    Some(k) => Want::Ok((at + k).min(n), k.min(&(n - at)) > &0),
                    None if m.partial => Want::More,
                    // committed: it went through all that is left
                    None => Fail(at < n),
                };
                (w, at, 0)
            }
            Par::Recognize(i) | Par::RecognizeValue(i) => {
                let (w, v) = i.model(m, at);
                (w, at, v)
            }
            Par::LengthPrefix => {
                if at == n {
                    (if m.partial { Want::More } else { Fail(false) }, at, 0)
                } else {
                    let k = (m.toks[at] % 5) as usize;
                    let w = match m.size(at + 1, k) {
                        Size::Fits(to) => Want::Ok(to, true),
                        Size::Short if m.partial => Want::More,
                        Size::Short | Size::Within => Fail(true),
                    };
                    (w, at + 1, 0)
                }
            }
        };
        let rest_loc = s.range().loc();
        let noval = |r: I::Range| (r, None);
        let r: ParseResult<(I::Range, Option<usize>), I::Error> = match p {
            Par::Range(..) => pr::range(lit(piece(p).unwrap()).0).map(noval).parse_stream(s),
            Par::Take(k) => pr::take(*k).map(noval).parse_stream(s),
            Par::While(t) => {
                let mut i = 0;
                pr::take_while(|c: I::Token| {
                    i += 1;
                    t.run(i - 1, c.num())
                })
                .map(noval)
                .parse_stream(s)
            }
            Par::While1(t) => {
                let mut i = 0;
                pr::take_while1(|c: I::Token| {
                    i += 1;
                    t.run(i - 1, c.num())
                })
                .map(noval)
                .parse_stream(s)
            }
            Par::Until(..) => pr::take_until_range(lit(piece(p).unwrap()).0).map(noval).parse_stream(s),
            Par::Fn(k, enumed) => {
                let to = k.map(|k| m.units[(at + k).min(n)] - m.units[at]);
                let mut bad = false;
                let r = if *enumed {
                    pr::take_fn(|r: I::Range| {
                        bad |= r.loc() != rest_loc;
                        match to {
                            Some(i) => TakeRange::Found(i),
                            None => TakeRange::NotFound(0),
                        }
                    })
                    .map(noval)
                    .parse_stream(s)
                } else {
                    pr::take_fn(|r: I::Range| {
                        bad |= r.loc() != rest_loc;
                        to
                    })
                    .map(noval)
                    .parse_stream(s)
                };
                if bad {
                    return Err(format!("{}: take_fn doesn't get what is left at token {}", name, at));
                }
                r
            }
            Par::Recognize(i) => with_inner!(i, I, |p| pr::recognize(p).map(noval).parse_stream(s)),
            Par::RecognizeValue(i) => {
                with_inner!(i, I, |p| pr::recognize_with_value(p).map(|(r, v)| (r, Some(v))).parse_stream(s))
            }
            Par::LengthPrefix => pr::length_prefix(tok::any().map(|c: I::Token| (c.num() % 5) as u16)).map(noval).parse_stream(s),
        };
        g.checks += 1;
        let (start, wanted) = (at, want.clone());
        let ctx = move |e: String| format!("{} over {:?}: {:?} at token {}: {} (expected {:?})", name, m.toks, p, start, e, wanted);
        match (&want, &r) {
            (Want::Ok(to, true), CommitOk((x, v))) | (Want::Ok(to, false), PeekOk((x, v))) => {
                m.range(x, from, *to).map_err(&ctx)?;
                if let Some(v) = v {
                    if *v != val {
                        return Err(ctx(format!("value {} instead of {}", v, val)));
                    }
                }
                at = *to;
                m.range(&s.range(), at, n).map_err(|e| ctx(format!("left: {}", e)))?;
                g.label("ok");
            }
            (Want::Err(false), PeekErr(_)) => {
                m.range(&s.range(), at, n).map_err(|e| ctx(format!("left: {}", e)))?;
                g.label("peek_err");
            }
            (Want::Err(true), CommitErr(_)) => {
                g.label("commit_err");
                break;
            }
            (Want::More, CommitErr(e)) if e.is_unexpected_end_of_input() => {
                g.label("more");
                break;
            }
            _ => return Err(ctx(format!("{}", status(&r)))),
        }
        // a lack of input is told from other failures
        if let (PeekErr(e), Par::Take(_)) = (&r, p) {
            let short = matches!((p, ), (Par::Take(k), ) if matches!(m.size(at, *k), Size::Short));
            if e.error.is_unexpected_end_of_input() != short {
                return Err(ctx("mistakes the end of input".into()));
            }
        }
    }
    Ok(())
}

struct Case {
    d: Data,
    l: Data,
    pars: Vec<Par>,
}

fn lit_text(c: &Case, p: (usize, usize, bool)) -> (&'static str, Vec<u32>) {
    let d = if p.2 { &c.d } else { &c.l };
    let m = Model::text(d, false);
    let (a, b) = (p.0.min(d.chars.len()), (p.0 + p.1).min(d.chars.len()));
    (&text(d)[m.units[a]..m.units[b]], m.toks[a..b].to_vec())
}
fn lit_slice<T: Tok>(d: &Data, f: fn(&Data) -> &Vec<T>, p: (usize, usize)) -> (&'static [T], Vec<u32>) {
    let v = f(d);
    let (a, b) = (p.0.min(v.len()), (p.0 + p.1).min(v.len()));
    (&sl(v)[a..b], v[a..b].iter().map(|t| t.num()).collect())
}

macro_rules! kinds {
    ($( $name: expr, $data: ident, $partial: expr, |$d: ident| $make: expr; )*) => {
        const KINDS: &[(&str, fn(&Case, &mut Gen) -> Res)] = &[ $( ($name, |c: &Case, g| {
            let $d = &c.d;
            let mut s = $make;
            kinds!(@go $data, s, $partial, c, g, $name)
        }), )* ];
    };
    (@go text, $s: ident, $p: expr, $c: ident, $g: ident, $n: expr) => { go($n, &mut $s, &Model::text(&$c.d, $p), &|p| lit_text($c, p), &$c.pars, $g) };
    (@go $f: ident, $s: ident, $p: expr, $c: ident, $g: ident, $n: expr) => {
        go($n, &mut $s, &Model::slice(&$c.d.$f, $p), &|p| lit_slice(if p.2 { &$c.d } else { &$c.l }, |d| &d.$f, (p.0, p.1)), &$c.pars, $g)
    };
}
type Rich<S> = easy::Stream<S>;
kinds! {
    "str", text, false, |d| text(d);
    "[u8]", bytes, false, |d| sl(&d.bytes);
    "[char]", chars, false, |d| sl(&d.chars);
    "SliceStream<String>", strings, false, |d| SliceStream(sl(&d.strings));
    "partial str", text, true, |d| PartialStream(text(d));
    "partial [u8]", bytes, true, |d| PartialStream(sl(&d.bytes));
    "easy str", text, false, |d| Rich::from(text(d));
    "easy position partial str", text, true, |d| Rich::from(position::Stream::with_positioner(PartialStream(text(d)), IndexPositioner::new()));
    "position str", text, false, |d| position::Stream::new(text(d));
    "complete partial state [u64]", wide, false, |d| CompleteStream(PartialStream(state::Stream { stream: sl(&d.wide), state: 0 }));
    "maybe partial [u8]", bytes, true, |d| MaybePartialStream(sl(&d.bytes), true);
    "span easy str", text, false, |d| span::Stream::<_, easy::Errors<char, &'static str, span::Span<_>>>::from(Rich::from(text(d)));
}

fn gen_par(g: &mut Gen, n: usize, units: usize) -> Par {
    let size = |g: &mut Gen| if g.bool() { g.below(4) as usize } else { g.below(units as u32 + 2) as usize };
    match g.below(11) {
        0 | 1 => Par::Range(g.below(n as u32 + 1) as usize, g.small(0, 5), g.chance(3, 4)),
        2 => Par::Take(size(g)),
        3 => Par::While(gen_test(g, n)),
        4 => Par::While1(gen_test(g, n)),
        5 | 6 => Par::Until(g.below(n as u32 + 1) as usize, g.small(0, 5), g.chance(3, 4)),
        7 => Par::Fn(if g.chance(1, 3) { None } else { Some(g.below(n as u32 + 1) as usize) }, g.bool()),
        8 => Par::Recognize(Inner::gen(g)),
        9 => Par::RecognizeValue(Inner::gen(g)),
        _ => Par::LengthPrefix,
    }
}

fn case(g: &mut Gen, n: usize) -> Res {
    const SMALL: [char; 5] = ['a', 'b', 'é', '漢', '\n'];
    let alpha = 1 + g.below(5) as usize;
    let d = gen_data(g, n, &SMALL[..alpha]);
    let l = gen_data(g, 6, &SMALL);
    let k = g.below(KINDS.len() as u32) as usize;
    let units = if KINDS[k].0.contains("str") { d.text.len() } else { n };
    let pars: Vec<Par> = (0..1 + g.below(5)).map(|_| gen_par(g, n, units)).collect();
    let c = Case { d, l, pars };
    g.describe(|| format!("{}: {:?} on {:?} (literals from {:?})", KINDS[k].0, c.pars, c.d.text, c.l.text));
    if n > 1 && c.pars.len() > 1 {
        g.nontrivial(hash_str(&format!("{}{}{:?}", k, c.d.text, c.pars)));
    }
    g.label(KINDS[k].0);
    (KINDS[k].1)(&c, g)
}
fn short(g: &mut Gen) -> Res {
    let n = g.small(0, 10);
    case(g, n)
}
fn long(g: &mut Gen) -> Res {
    let n = g.below(70) as usize;
    case(g, n)
}

fn main() {
    h::runner::main(&Property {
        id: "C09",
        rule: "at least two parsers one after another over at least two tokens; distinct by stream, input and parsers",
        assumptions: &[
            "an empty range is only compared by its content",
            "on partial input a literal longer than what is there waits for more even if it cannot match any more",
            "take_fn commits when it finds nothing in non-empty input, take_until_range does not (both as documented by their behaviour)",
        ],
        suites: &[
            Suite { name: "short", quick: 2_000_000, thorough: 40_000_000, f: short },
            Suite { name: "long", quick: 500_000, thorough: 10_000_000, f: long },
        ],
        known: &[],
    })
}
