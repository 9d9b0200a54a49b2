#[path = "../h/mod.rs"]
#[macro_use]
mod h;
use combine::parser::combinator::{any_partial_state, AnyPartialState};
use combine::parser::range::{range, take};
use combine::parser::regex::{captures, captures_many, find, find_many, match_, Regex};
use combine::stream::position::{self, SourcePosition};
use combine::stream::{easy, state, CompleteStream, PartialStream, RangeStream};
use combine::{any, attempt, look_ahead, many, not_followed_by, optional, ParseResult::*, Parser};
use h::gen::*;
use h::runner::*;
use std::collections::VecDeque;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Match,
    Find,
    FindMany,
    Captures,
    CapturesMany,
    /// steps over one token
    Any,
}
use Op::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Wrap {
    No,
    Optional,
    LookAhead,
    Attempt,
    Not,
    /// a failing parser afterwards: everything is given back
    Undone,
}

/// A generated pattern
fn pattern(g: &mut Gen, d: usize, bytes: bool, names: &mut u32) -> String {
    match if d == 0 { g.below(4) } else { g.below(12) } {
        0 | 1 => g.pick(&["a", "b", "é", "1", "\\n", "aa", "ab", "x"]).to_string(),
        2 => g.pick(&["[ab]", "[^a]", "[0-9]", ".", "\\d", "\\w", "\\s", "[a-zé]", "[[:alpha:]]"]).to_string(),
        3 => g.pick(&["^", "$", "\\b", "", "\\A", "\\z", "\\B"]).to_string(),
        4 => format!("({})", pattern(g, d - 1, bytes, names)),
        5 => format!("(?:{})", pattern(g, d - 1, bytes, names)),
        6 => {
            *names += 1;
            let n = *names;
            format!("(?P<n{}>{})", n, pattern(g, d - 1, bytes, names))
        }
        7 => format!("(?:{}|{})", pattern(g, d - 1, bytes, names), pattern(g, d - 1, bytes, names)),
        8 | 9 => {
            let q = *g.pick(&["*", "+", "?", "{2}", "{1,2}", "*?", "+?", "??"]);
            format!("(?:{}){}", pattern(g, d - 1, bytes, names), q)
        }
        10 => format!("({})?{}", pattern(g, d - 1, bytes, names), pattern(g, d - 1, bytes, names)),
        _ => format!("{}{}", pattern(g, d - 1, bytes, names), pattern(g, d - 1, bytes, names)),
    }
}

/// The engine, asked by other means than the parsers do
trait Engine: Sized + 'static {
    type R: AsRef<[u8]> + Copy + PartialEq + std::fmt::Debug + combine::stream::Range + 'static;
    fn compile(p: &str) -> Option<Self>;
    /// First match at or after `from` bytes of the text, with its groups
    fn at(&self, text: Self::R, from: usize) -> Option<Vec<Option<(usize, usize)>>>;
    fn width(text: Self::R, at: usize) -> usize;
    fn from(text: Self::R, at: usize) -> Self::R;
}
impl Engine for regex::Regex {
    type R = &'static str;
    fn compile(p: &str) -> Option<Self> {
        regex::Regex::new(p).ok()
    }
    fn at(&self, text: &'static str, from: usize) -> Option<Vec<Option<(usize, usize)>>> {
        let c = self.captures_at(text, from)?;
        Some((0..c.len()).map(|i| c.get(i).map(|m| (m.start(), m.end()))).collect())
    }
    fn width(text: &'static str, at: usize) -> usize {
        text[at..].chars().next().map_or(1, |c| c.len_utf8())
    }
    fn from(text: &'static str, at: usize) -> &'static str {
        &text[at..]
    }
}
impl Engine for regex::bytes::Regex {
    type R = &'static [u8];
    fn compile(p: &str) -> Option<Self> {
        regex::bytes::Regex::new(p).ok()
    }
    fn at(&self, text: &'static [u8], from: usize) -> Option<Vec<Option<(usize, usize)>>> {
        let c = self.captures_at(text, from)?;
        Some((0..c.len()).map(|i| c.get(i).map(|m| (m.start(), m.end()))).collect())
    }
    fn width(_: &'static [u8], _: usize) -> usize {
        1
    }
    fn from(text: &'static [u8], at: usize) -> &'static [u8] {
        &text[at..]
    }
}

/// All matches one after another: no overlap, and no empty match right after a match
fn all<E: Engine>(e: &E, text: E::R) -> Vec<Vec<Option<(usize, usize)>>> {
    let n = text.as_ref().len();
    let mut out = vec![];
    let mut at = 0;
    let mut last = None;
    while at <= n {
        let m = match e.at(text, at) {
            None => break,
            Some(m) => m,
        };
        let (a, b) = m[0].unwrap();
        if a == b && last == Some(b) {
            at = b + E::width(text, b.min(n));
            if at <= n {
                // search again from the next character
                continue;
            }
            break;
        }
        at = b;
        last = Some(b);
        out.push(m);
    }
    out
}

type Groups = Vec<Vec<(usize, usize)>>;
type P<'a, I> = Box<dyn Parser<I, Output = Groups, PartialState = AnyPartialState> + 'a>;

fn loc<R: AsRef<[u8]>>(r: R) -> (usize, usize) {
    let b = r.as_ref();
    (b.as_ptr() as usize, b.len())
}

/// The ranges that an operation gives
fn parser_of<'a, E, I>(op: Op, e: &'a E, form: u32) -> P<'a, I>
where
    E: Engine + Regex<E::R> + Clone,
    I: RangeStream<Range = E::R> + 'a,
{
    macro_rules! b {
        ($p: expr) => {
            Box::new(any_partial_state($p))
        };
    }
    match (op, form) {
        (Match, 0) => b!(match_(e).map(|r| vec![vec![loc(r)]])),
        (Match, _) => b!(match_(e.clone()).map(|r| vec![vec![loc(r)]])),
        (Find, 0) => b!(find(e).map(|r| vec![vec![loc(r)]])),
        (Find, _) => b!(find(e.clone()).map(|r| vec![vec![loc(r)]])),
        (FindMany, 0) => b!(find_many::<Vec<E::R>, _, _>(e).map(|v| v.into_iter().map(|r| vec![loc(r)]).collect::<Groups>())),
        (FindMany, _) => b!(find_many::<VecDeque<E::R>, _, _>(e.clone()).map(|v| v.into_iter().map(|r| vec![loc(r)]).collect::<Groups>())),
        (Captures, 0) => b!(captures::<Vec<E::R>, _, _>(e).map(|v| vec![v.into_iter().map(loc).collect::<Vec<_>>()])),
        (Captures, _) => b!(captures::<VecDeque<E::R>, _, _>(e.clone()).map(|v| vec![v.into_iter().map(loc).collect::<Vec<_>>()])),
        (CapturesMany, 0) => {
            b!(captures_many::<Vec<E::R>, Vec<_>, _, _>(e).map(|v| v.into_iter().map(|x| x.into_iter().map(loc).collect()).collect::<Groups>()))
        }
        (CapturesMany, _) => {
            b!(captures_many::<VecDeque<E::R>, VecDeque<_>, _, _>(e.clone()).map(|v| v.into_iter().map(|x| x.into_iter().map(loc).collect()).collect::<Groups>()))
        }
        (Any, _) => b!(any().map(|_| vec![])),
    }
}

/// What an operation gives for the rest of the text and how much it takes, if it succeeds
fn model<E: Engine>(op: Op, e: &E, rest: E::R) -> Option<(Groups, usize)> {
    let base = rest.as_ref().as_ptr() as usize;
    let here = |(a, b): (usize, usize)| (base + a, b - a);
    let ms = all(e, rest);
    let first = ms.first();
    Some(match op {
        Match => {
            first?;
            (vec![vec![loc(rest)]], 0)
        }
        Find => {
            let m = first?[0].unwrap();
            (vec![vec![here(m)]], m.1)
        }
        FindMany => (ms.iter().map(|m| vec![here(m[0].unwrap())]).collect(), ms.last().map_or(0, |m| m[0].unwrap().1)),
        Captures => {
            let m = first?;
            (vec![m.iter().flatten().map(|x| here(*x)).collect()], m[0].unwrap().1)
        }
        CapturesMany => (ms.iter().map(|m| m.iter().flatten().map(|x| here(*x)).collect()).collect(), ms.last().map_or(0, |m| m[0].unwrap().1)),
        Any => {
            if rest.as_ref().is_empty() {
                return None;
            }
            (vec![], E::width(rest, 0))
        }
    })
}

struct Step {
    op: Op,
    wrap: Wrap,
    pat: usize,
    form: u32,
}

struct Case<E: Engine> {
    pats: Vec<(String, E)>,
    steps: Vec<Step>,
    text: E::R,
}

fn run<E, I>(mut input: I, c: &Case<E>, g: &mut Gen, pos: &dyn Fn(&I, usize) -> Res, err: &dyn Fn(&I::Error, &str) -> Res) -> Res
where
    E: Engine + Regex<E::R> + Clone,
    I: RangeStream<Range = E::R> + 'static,
{
    let mut at = 0;
    for (i, s) in c.steps.iter().enumerate() {
        g.checks += 1;
        let rest = E::from(c.text, at);
        let (name, e) = &c.pats[s.pat];
        let from = at;
        let ctx = |x: String| format!("step {} ({:?}, {:?} /{}/ at {} of {:?}): {}", i, s.wrap, s.op, name, from, c.text, x);
        let p = parser_of::<E, I>(s.op, e, s.form);
        let want = model(s.op, e, rest);
        // (value, taken, committed) or failure
        let exp = match (s.wrap, want.clone()) {
            (Wrap::No, w) | (Wrap::Attempt, w) => w.map(|(v, n)| (v, n, n > 0)),
            (Wrap::Optional, w) => Some(w.map_or((vec![], 0, false), |(v, n)| (v, n, n > 0))),
            (Wrap::LookAhead, w) => w.map(|(v, _)| (v, 0, false)),
            (Wrap::Not, w) => {
                if w.is_some() {
                    None
                } else {
                    Some((vec![], 0, false))
                }
            }
            (Wrap::Undone, _) => Some((vec![], 0, false)),
        };
        let before = input.checkpoint();
        let r = match s.wrap {
            Wrap::No => {
                let mut p = p;
                p.parse_stream(&mut input)
            }
            Wrap::Attempt => attempt(p).parse_stream(&mut input),
            Wrap::Optional => optional(p).map(|x| x.unwrap_or_default()).parse_stream(&mut input),
            Wrap::LookAhead => look_ahead(p).parse_stream(&mut input),
            Wrap::Not => not_followed_by(p.map(|_| "x")).map(|_| vec![]).parse_stream(&mut input),
            Wrap::Undone => optional(attempt(p.with(combine::unexpected_any("no")).map(|_: ()| ()))).map(|_| vec![]).parse_stream(&mut input),
        };
        let used = input.distance(&before);
        match (r, exp) {
            (CommitOk(v), Some((w, n, true))) | (PeekOk(v), Some((w, n, false))) if v == w && used == n => at += n,
            (PeekErr(e), None) => {
                if used != 0 {
                    return Err(ctx(format!("{} used by a failure", used)));
                }
                if !matches!(s.wrap, Wrap::Not) && s.op != Any {
                    err(&e.error, name).map_err(&ctx)?;
                }
                // the rest can be parsed
            }
            (r, exp) => {
                let base = c.text.as_ref().as_ptr() as usize;
                let rel = |v: &Groups| -> Vec<Vec<(i64, usize)>> { v.iter().map(|x| x.iter().map(|y| (y.0 as i64 - base as i64, y.1)).collect()).collect() };
                return Err(ctx(format!(
                    "{} using {}, instead of {}",
                    match r {
                        CommitOk(v) => format!("committed {:?}", rel(&v)),
                        PeekOk(v) => format!("uncommitted {:?}", rel(&v)),
                        CommitErr(_) => "committed failure".into(),
                        PeekErr(_) => "failure".into(),
                    },
                    used,
                    exp.map_or("failure".to_string(), |x| format!("{:?} using {}, committed {}", rel(&x.0), x.1, x.2)),
                )));
            }
        }
        if input.range() != E::from(c.text, at) {
            return Err(ctx(format!("{:?} is left", input.range())));
        }
        pos(&input, at).map_err(&ctx)?;
    }
    Ok(())
}

fn gen_case<E: Engine>(g: &mut Gen, text: E::R, bytes: bool) -> Option<Case<E>> {
    let mut pats = vec![];
    for _ in 0..g.range(1, 2) {
        let mut names = 0;
        let d = g.range(0, 3);
        let mut p = pattern(g, d, bytes, &mut names);
        match g.below(8) {
            0 => p = format!("^(?:{})", p),
            1 => p = format!("(?m){}", p),
            2 => p = format!("(?i){}", p),
            3 if bytes => p = format!("(?-u:{})", p.replace('é', "\\xC3")),
            _ => (),
        }
        let e = E::compile(&p)?;
        pats.push((p, e));
    }
    let n = g.range(1, 5);
    let steps = (0..n)
        .map(|_| Step {
            op: *g.pick(&[Match, Find, FindMany, Captures, CapturesMany, Find, Captures, Any]),
            wrap: *g.pick(&[Wrap::No, Wrap::No, Wrap::No, Wrap::Optional, Wrap::LookAhead, Wrap::Attempt, Wrap::Not, Wrap::Undone]),
            pat: g.below(pats.len() as u32) as usize,
            form: g.below(2),
        })
        .collect();
    Some(Case { pats, steps, text })
}

fn easy_err<T: PartialEq, R: PartialEq, P: Ord + Clone>(e: &easy::Errors<T, R, P>, name: &str) -> Res {
    let want = easy::Error::Expected(easy::Info::Owned(format!("/{}/", name)));
    if e.errors.iter().filter(|x| **x == want).count() == 1 {
        Ok(())
    } else {
        Err("the pattern is not named as expected in the error".into())
    }
}

fn source(text: &str, at: usize) -> SourcePosition {
    let mut p = SourcePosition { line: 1, column: 1 };
    for c in text[..at].chars() {
        p.column += 1;
        if c == '\n' {
            p.line += 1;
            p.column = 1;
        }
    }
    p
}

fn gen_text(g: &mut Gen) -> String {
    let n = if g.chance(1, 8) { g.below(60) as usize } else { g.small(0, 12) };
    (0..n).map(|_| *g.pick(&['a', 'b', 'a', '1', 'é', '\n', 'x', ' '])).collect()
}

fn texts(g: &mut Gen) -> Res {
    let t = gen_text(g);
    let text = unsafe { h::build::lend_str(&t) };
    let c: Case<regex::Regex> = match gen_case(g, text, false) {
        None => {
            g.label("not a pattern");
            return Ok(());
        }
        Some(c) => c,
    };
    describe(g, &c, &t);
    match g.below(5) {
        0 => run(text, &c, g, &|_, _| Ok(()), &|_, _| Ok(())),
        1 => run(easy::Stream(text), &c, g, &|_, _| Ok(()), &|e, n| easy_err(e, n)),
        2 => run(
            position::Stream::new(text),
            &c,
            g,
            &|s, at| {
                let p = combine::Positioned::position(s);
                if p != source(text, at) {
                    return Err(format!("at {:?} instead of {:?}", p, source(text, at)));
                }
                Ok(())
            },
            &|_, _| Ok(()),
        ),
        3 => run(easy::Stream(position::Stream::new(text)), &c, g, &|_, _| Ok(()), &|e, n| easy_err(e, n)),
        _ => run(CompleteStream(PartialStream(state::Stream { stream: text, state: () })), &c, g, &|_, _| Ok(()), &|_, _| Ok(())),
    }
}

fn describe<E: Engine>(g: &mut Gen, c: &Case<E>, t: &str) {
    let s = format!(
        "{:?} on {:?}: {:?}",
        c.pats.iter().map(|x| &x.0).collect::<Vec<_>>(),
        t,
        c.steps.iter().map(|s| (s.wrap, s.op, s.pat)).collect::<Vec<_>>()
    );
    if c.steps.len() > 1 && t.len() > 1 && c.steps.iter().any(|s| model(s.op, &c.pats[s.pat].1, c.text).map_or(false, |x| x.1 > 0)) {
        g.nontrivial(hash_str(&s));
    }
    g.describe(|| s);
}

fn bytes(g: &mut Gen) -> Res {
    let t = gen_text(g);
    let mut b = t.clone().into_bytes();
    if g.chance(1, 3) && !b.is_empty() {
        // not text any more
        let i = g.below(b.len() as u32) as usize;
        b[i] = *g.pick(&[0xff, 0xc3, 0xa9, 0]);
    }
    let text = unsafe { h::build::lend_slice(&b) };
    let c: Case<regex::bytes::Regex> = match gen_case(g, text, true) {
        None => {
            g.label("not a pattern");
            return Ok(());
        }
        Some(c) => c,
    };
    describe(g, &c, &format!("{:?}", b));
    match g.below(3) {
        0 => run(text, &c, g, &|_, _| Ok(()), &|_, _| Ok(())),
        1 => run(easy::Stream(text), &c, g, &|_, _| Ok(()), &|e, n| easy_err(e, n)),
        _ => run(
            position::Stream::new(text),
            &c,
            g,
            &|s, at| {
                let p = combine::Positioned::position(s);
                if p != at {
                    return Err(format!("at {:?} instead of {:?}", p, at));
                }
                Ok(())
            },
            &|_, _| Ok(()),
        ),
    }
}

/// Fields taken by a pattern anchored at the start, as repeated elements
fn fields(g: &mut Gen) -> Res {
    let pats = ["^[ab]+1?", "^(é|a)", "^a*?b", "^(?:(a)|(b))", "^.", "^\\w+ ?", "^(?s:.)"];
    let p = *g.pick(&pats);
    let e = regex::Regex::new(p).unwrap();
    let t = gen_text(g);
    let text = unsafe { h::build::lend_str(&t) };
    // what the engine finds, again and again from where it stopped
    let mut want = vec![];
    let mut at = 0;
    while let Some(m) = e.find(&text[at..]) {
        want.push(m.as_str());
        at += m.end();
    }
    g.describe(|| format!("many(find(/{}/)) on {:?}", p, t));
    g.checks += 1;
    if want.len() > 1 {
        g.nontrivial(hash_str(&format!("{}{}", p, t)));
    }
    let r = many::<Vec<&str>, _, _>(find(&e)).parse(text);
    if r != Ok((want.clone(), &text[at..])) {
        return Err(format!("{:?} instead of {:?} and {:?}", r, want, &text[at..]));
    }
    let r = many::<Vec<Vec<&str>>, _, _>(captures(&e)).skip(take(0)).parse(position::Stream::new(text)).map(|x| (x.0.len(), x.1.input));
    if r != Ok((want.len(), &text[at..])) {
        return Err(format!("{:?} captures instead of {} and {:?}", r, want.len(), &text[at..]));
    }
    // a choice goes on where it stood
    let mut q = find(&e).or(range("x")).or(any().map(|_| ""));
    let mut s = text;
    let mut at = 0;
    while let Ok((v, _)) = q.parse_stream(&mut s).into_result() {
        let (w, n) = match e.find(&text[at..]) {
            Some(m) => (m.as_str(), m.end()),
            None if text[at..].starts_with('x') => ("x", 1),
            None => ("", text[at..].chars().next().unwrap().len_utf8()),
        };
        at += n;
        if v != w || s != &text[at..] {
            return Err(format!("choice gives {:?}, then {:?}, instead of {:?}", v, s, w));
        }
    }
    if at != text.len() {
        return Err(format!("the choice stops at {}", at));
    }
    Ok(())
}

fn main() {
    h::runner::main(&Property {
        id: "C17",
        rule: "at least two steps over at least two tokens, of which one would take something at the start; at least two fields",
        assumptions: &[
            "the engine's own single search from a position (captures_at) is taken as right",
            "partial streams are not searched: a regex parser decides on what is there",
            "groups that take no part in a match are left out, as captures does",
        ],
        suites: &[
            Suite { name: "text", quick: 120_000, thorough: 4_000_000, f: texts },
            Suite { name: "bytes", quick: 80_000, thorough: 3_000_000, f: bytes },
            Suite { name: "fields", quick: 60_000, thorough: 1_000_000, f: fields },
        ],
        known: &[],
    })
}
