#[path = "../h/mod.rs"]
#[macro_use]
mod h;
use combine::parser::token::{any, eof, none_of, one_of, produce, satisfy, satisfy_map, token, tokens, tokens_cmp, value};
use combine::parser::{byte, char as chr};
use combine::stream::{buffered, easy, position, read, IteratorStream, PartialStream, SliceStream};
use combine::{ParseResult::*, Parser, Stream, StreamOnce};
use h::gen::*;
use h::runner::*;
use std::cell::RefCell;
use std::fmt::Debug;

type CharP<I> = Box<dyn Parser<I, Output = char, PartialState = ()>>;
type ByteP<I> = Box<dyn Parser<I, Output = u8, PartialState = ()>>;

fn char_classes<I: Stream<Token = char> + 'static>() -> Vec<(&'static str, CharP<I>, fn(char) -> bool)> {
    vec![
        ("digit", Box::new(combine::parser::combinator::no_partial(chr::digit())), |c| ('0'..='9').contains(&c)),
        ("space", Box::new(chr::space()), char::is_whitespace),
        ("newline", Box::new(chr::newline()), |c| c == '\n'),
        ("tab", Box::new(chr::tab()), |c| c == '\t'),
        ("upper", Box::new(chr::upper()), char::is_uppercase),
        ("lower", Box::new(chr::lower()), char::is_lowercase),
        ("alpha_num", Box::new(chr::alpha_num()), char::is_alphanumeric),
        ("letter", Box::new(chr::letter()), char::is_alphabetic),
        ("oct_digit", Box::new(chr::oct_digit()), |c| ('0'..='7').contains(&c)),
        ("hex_digit", Box::new(chr::hex_digit()), |c| "0123456789abcdefABCDEF".contains(c)),
    ]
}

fn byte_classes<I: Stream<Token = u8> + 'static>() -> Vec<(&'static str, ByteP<I>, fn(u8) -> bool)> {
    vec![
        ("digit", Box::new(byte::digit()), |c| c >= 48 && c <= 57),
        ("space", Box::new(byte::space()), |c| b" \t\n\r\x0c".contains(&c)),
        ("newline", Box::new(byte::newline()), |c| c == 10),
        ("tab", Box::new(byte::tab()), |c| c == 9),
        ("upper", Box::new(byte::upper()), |c| c >= 65 && c <= 90),
        ("lower", Box::new(byte::lower()), |c| c >= 97 && c <= 122),
        ("alpha_num", Box::new(byte::alpha_num()), |c| c >= 48 && c <= 57 || c >= 65 && c <= 90 || c >= 97 && c <= 122),
        ("letter", Box::new(byte::letter()), |c| c >= 65 && c <= 90 || c >= 97 && c <= 122),
        ("oct_digit", Box::new(byte::oct_digit()), |c| c >= 48 && c <= 55),
        ("hex_digit", Box::new(byte::hex_digit()), |c| c >= 48 && c <= 57 || c >= 65 && c <= 70 || c >= 97 && c <= 102),
    ]
}

/// Outcome of a parser on a stream: value and commit, or failure and whether it is the end of input
#[derive(Debug, PartialEq, Clone)]
enum Out<T> {
    Ok(T, bool),
    Err(bool, bool),
}
fn out<I: StreamOnce, T>(r: combine::ParseResult<T, I::Error>) -> Out<T> {
    let eoi = |e: &I::Error| combine::ParseError::is_unexpected_end_of_input(e);
    match r {
        CommitOk(x) => Out::Ok(x, true),
        PeekOk(x) => Out::Ok(x, false),
        CommitErr(e) => Out::Err(true, eoi(&e)),
        PeekErr(e) => Out::Err(false, eoi(&e.error)),
    }
}

/// Every character and every byte, with every class parser
fn every(g: &mut Gen) -> Res {
    g.describe(|| "all characters and bytes".into());
    g.nontrivial(1);
    let mut ps = char_classes::<&'static str>();
    let mut qs = char_classes::<easy::Stream<&'static [char]>>();
    for u in 0..0x110000u32 {
        let c = match char::from_u32(u) {
            Some(c) => c,
            None => continue,
        };
        let mut b = [0; 8];
        let n = c.encode_utf8(&mut b).len();
        b[n] = b'1';
        let s: &str = std::str::from_utf8(&b[..n + 1]).unwrap();
        // Safety: used only in this round
        let s: &'static str = unsafe { h::build::lend_str(s) };
        for (name, p, test) in &mut ps {
            let mut i = s;
            let r = out::<&'static str, _>(p.parse_stream(&mut i));
            let want = if test(c) { Out::Ok(c, true) } else { Out::Err(false, false) };
            let left = if test(c) { 1 } else { n + 1 };
            if r != want || i.len() != left {
                return Err(format!("{} on {:?} (U+{:04X}): {:?} with {} bytes left, instead of {:?}", name, c, u, r, i.len(), want));
            }
        }
        g.checks += 10;
        // the other kind of stream for the first planes' worth of letters and a sample of the rest
        if u < 0x3000 || u % 97 == 0 {
            let d = [c, '1'];
            let s: &'static [char] = unsafe { h::build::lend_slice(&d) };
            for (name, p, test) in &mut qs {
                let mut i = easy::Stream(s);
                let r = out::<easy::Stream<&'static [char]>, _>(p.parse_stream(&mut i));
                let want = if test(c) { Out::Ok(c, true) } else { Out::Err(false, false) };
                if r != want || i.0.len() != if test(c) { 1 } else { 2 } {
                    return Err(format!("{} on {:?} (U+{:04X}) of a slice: {:?} instead of {:?}", name, c, u, r, want));
                }
            }
            g.checks += 10;
        }
    }
    // bytes, with every following byte
    let mut ps = byte_classes::<&'static [u8]>();
    let mut crlf = byte::crlf::<&'static [u8]>();
    for a in 0..=255u8 {
        for b in 0..=256u32 {
            let d = [a, b as u8];
            let s: &'static [u8] = unsafe { h::build::lend_slice(&d[..if b == 256 { 1 } else { 2 }]) };
            for (name, p, test) in &mut ps {
                let mut i = s;
                let r = out::<&'static [u8], _>(p.parse_stream(&mut i));
                let want = if test(a) { Out::Ok(a, true) } else { Out::Err(false, false) };
                if r != want || i.len() != s.len() - test(a) as usize {
                    return Err(format!("{} on byte {}: {:?} instead of {:?}", name, a, r, want));
                }
            }
            let mut i = s;
            let r = out::<&'static [u8], _>(crlf.parse_stream(&mut i));
            let want = match (a, b) {
                (13, 10) => Out::Ok(10, true),
                (13, 256) => Out::Err(true, true),
                (13, _) => Out::Err(true, false),
                _ => Out::Err(false, false),
            };
            if r != want || (a == 13 && b == 10 && !i.is_empty()) {
                return Err(format!("crlf on {:?}: {:?} instead of {:?}", s, r, want));
            }
            g.checks += 11;
        }
    }
    Ok(())
}

/// How a literal is compared
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cmp {
    Eq,
    NoCase,
    /// not symmetric: what is expected comes first
    LessEq,
    Always,
    Never,
}
impl Cmp {
    fn test(self, l: u32, r: u32) -> bool {
        let up = |x: u32| if (97..=122).contains(&x) { x - 32 } else { x };
        match self {
            Cmp::Eq => l == r,
            Cmp::NoCase => up(l) == up(r),
            Cmp::LessEq => l <= r,
            Cmp::Always => true,
            Cmp::Never => false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Lit {
    Token,
    Tokens(Cmp),
    TokensCmp(Cmp),
    Str,
    StrCmp(Cmp),
    OneOf,
    NoneOf,
    Satisfy(u32),
    SatisfyMap(u32),
    Any,
    Eof,
    Value,
    Produce,
    /// one of the two documented to skip any number
    Spaces,
    Crlf,
    Class(usize),
}

fn gen_lit_kind(g: &mut Gen) -> Lit {
    let c = *g.pick(&[Cmp::Eq, Cmp::NoCase, Cmp::LessEq, Cmp::Always, Cmp::Never]);
    match g.below(18) {
        0 => Lit::Token,
        1 | 2 => Lit::Tokens(c),
        3 | 4 => Lit::TokensCmp(c),
        5 => Lit::Str,
        6 | 7 => Lit::StrCmp(c),
        8 => Lit::OneOf,
        9 => Lit::NoneOf,
        10 => Lit::Satisfy(2 + g.below(4)),
        11 => Lit::SatisfyMap(2 + g.below(4)),
        12 => Lit::Any,
        13 => Lit::Eof,
        14 => {
            if g.bool() {
                Lit::Value
            } else {
                Lit::Produce
            }
        }
        15 => Lit::Spaces,
        16 => Lit::Crlf,
        _ => Lit::Class(g.below(10) as usize),
    }
}

thread_local! {
    /// pairs a literal's comparison was given
    static SEEN: RefCell<Vec<(u32, u32)>> = RefCell::new(vec![]);
}
fn asked(c: Cmp, l: u32, r: u32) -> bool {
    SEEN.with(|s| s.borrow_mut().push((l, r)));
    c.test(l, r)
}

/// What the parser does on the tokens left: (outcome with a value as tokens, tokens taken)
fn model(l: Lit, lit: &[u32], data: &[u32], is_char: bool, partial: bool) -> (Out<Vec<u32>>, usize, Vec<(u32, u32)>) {
    let end = |committed: bool| Out::Err(committed || partial, true);
    let one = |ok: &dyn Fn(u32) -> Option<u32>| match data.first() {
        None => (end(false), 0, vec![]),
        Some(t) => match ok(*t) {
            Some(v) => (Out::Ok(vec![v], true), 1, vec![]),
            None => (Out::Err(false, false), 0, vec![]),
        },
    };
    let literal = |c: Cmp, value: &dyn Fn(&[u32]) -> Vec<u32>| {
        let mut pairs = vec![];
        for (i, x) in lit.iter().enumerate() {
            match data.get(i) {
                None => return (end(i > 0), 0, pairs),
                Some(t) => {
                    pairs.push((*x, *t));
                    if !c.test(*x, *t) {
                        return (Out::Err(i > 0, false), 0, pairs);
                    }
                }
            }
        }
        (Out::Ok(value(lit), !lit.is_empty()), lit.len(), pairs)
    };
    let same = |l: &[u32]| l.to_vec();
    match l {
        Lit::Token => one(&|t| (t == lit[0]).then_some(t)),
        Lit::Tokens(c) | Lit::TokensCmp(c) | Lit::StrCmp(c) => literal(c, &same),
        Lit::Str => {
            let (a, b, _) = literal(Cmp::Eq, &same);
            (a, b, vec![])
        }
        Lit::OneOf => one(&|t| lit.contains(&t).then_some(t)),
        Lit::NoneOf => one(&|t| (!lit.contains(&t)).then_some(t)),
        Lit::Satisfy(m) => one(&|t| (t % m != 0).then_some(t)),
        Lit::SatisfyMap(m) => one(&|t| (t % m != 0).then_some(t / m)),
        Lit::Any => one(&Some),
        Lit::Eof => match data.first() {
            None if partial => (Out::Err(true, true), 0, vec![]),
            None => (Out::Ok(vec![], false), 0, vec![]),
            Some(_) => (Out::Err(false, false), 0, vec![]),
        },
        Lit::Value | Lit::Produce => (Out::Ok(lit.to_vec(), false), 0, vec![]),
        Lit::Spaces => {
            let n = data
                .iter()
                .take_while(|t| if is_char { char::from_u32(**t).unwrap().is_whitespace() } else { [9, 10, 12, 13, 32].contains(*t) })
                .count();
            if partial && n == data.len() {
                (Out::Err(true, true), 0, vec![])
            } else {
                (Out::Ok(vec![], n > 0), n, vec![])
            }
        }
        Lit::Crlf => match data {
            [13, 10, ..] => (Out::Ok(vec![10], true), 2, vec![]),
            [13] => (Out::Err(true, true), 0, vec![]),
            [13, ..] => (Out::Err(true, false), 0, vec![]),
            [] => (end(false), 0, vec![]),
            _ => (Out::Err(false, false), 0, vec![]),
        },
        Lit::Class(k) => one(&|t| {
            if is_char {
                (char_classes::<&'static str>()[k].2)(char::from_u32(t).unwrap()).then_some(t)
            } else {
                (byte_classes::<&'static [u8]>()[k].2)(t as u8).then_some(t)
            }
        }),
    }
}

trait Tok: Copy + PartialEq + Debug + 'static {
    fn n(self) -> u32;
    fn of(n: u32) -> Self;
}
impl Tok for char {
    fn n(self) -> u32 {
        self as u32
    }
    fn of(n: u32) -> Self {
        char::from_u32(n).unwrap()
    }
}
impl Tok for u8 {
    fn n(self) -> u32 {
        self as u32
    }
    fn of(n: u32) -> Self {
        n as u8
    }
}

/// The parsers that any token has
fn common<I>(l: Lit, lit: &'static [I::Token], form: u32, i: &mut I) -> Option<Out<Vec<u32>>>
where
    I: Stream + 'static,
    I::Token: Tok,
    I::Error: combine::ParseError<I::Token, I::Range, I::Position>,
{
    let back = |v: &[I::Token]| v.iter().map(|t| t.n()).collect::<Vec<_>>();
    Some(out::<I, _>(match l {
        Lit::Token => token(lit[0]).map(|t: I::Token| vec![t.n()]).parse_stream(i),
        Lit::Tokens(c) => tokens(move |l: I::Token, r: I::Token| asked(c, l.n(), r.n()), "literal", lit.iter().cloned())
            .map(|it| back(&it.collect::<Vec<_>>()))
            .parse_stream(i),
        Lit::TokensCmp(c) => match form % 2 {
            0 => tokens_cmp(lit.iter().cloned(), move |l: I::Token, r: I::Token| asked(c, l.n(), r.n())).map(|it| back(&it.collect::<Vec<_>>())).parse_stream(i),
            _ => tokens_cmp(lit, move |l: &I::Token, r: I::Token| asked(c, l.n(), r.n())).map(back).parse_stream(i),
        },
        Lit::OneOf => match form % 2 {
            0 => one_of(lit.iter().cloned()).map(|t: I::Token| vec![t.n()]).parse_stream(i),
            _ => one_of(lit.to_vec()).map(|t: I::Token| vec![t.n()]).parse_stream(i),
        },
        Lit::NoneOf => match form % 2 {
            0 => none_of(lit.iter().cloned()).map(|t: I::Token| vec![t.n()]).parse_stream(i),
            _ => none_of(lit.to_vec()).map(|t: I::Token| vec![t.n()]).parse_stream(i),
        },
        Lit::Satisfy(m) => satisfy(move |t: I::Token| t.n() % m != 0).map(|t: I::Token| vec![t.n()]).parse_stream(i),
        Lit::SatisfyMap(m) => satisfy_map(move |t: I::Token| if t.n() % m != 0 { Some(vec![t.n() / m]) } else { None }).parse_stream(i),
        Lit::Any => any().map(|t: I::Token| vec![t.n()]).parse_stream(i),
        Lit::Eof => eof().map(|_| vec![]).parse_stream(i),
        Lit::Value => value(back(lit)).parse_stream(i),
        Lit::Produce => produce(|| back(lit)).parse_stream(i),
        _ => return None,
    }))
}

fn of_chars<I: Stream<Token = char> + 'static>(l: Lit, lit: &'static [char], text: &'static str, form: u32, i: &mut I) -> Out<Vec<u32>> {
    let back = |s: &str| s.chars().map(|c| c as u32).collect::<Vec<_>>();
    out::<I, _>(match l {
        Lit::Str => chr::string(text).map(back).parse_stream(i),
        Lit::StrCmp(c) => chr::string_cmp(text, move |l, r| asked(c, l as u32, r as u32)).map(back).parse_stream(i),
        Lit::Spaces => chr::spaces().map(|_| vec![]).parse_stream(i),
        Lit::Crlf => chr::crlf().map(|c| vec![c as u32]).parse_stream(i),
        Lit::Class(k) => {
            let mut ps = char_classes::<I>();
            ps[k].1.by_ref().map(|c| vec![c as u32]).parse_stream(i)
        }
        Lit::Token if form % 2 == 1 => chr::char(lit[0]).map(|c| vec![c as u32]).parse_stream(i),
        _ => return common(l, lit, form, i).unwrap(),
    })
}
fn of_bytes<I: Stream<Token = u8, Range = &'static [u8]> + 'static>(l: Lit, lit: &'static [u8], form: u32, i: &mut I) -> Out<Vec<u32>> {
    let back = |s: &[u8]| s.iter().map(|c| *c as u32).collect::<Vec<_>>();
    out::<I, _>(match l {
        Lit::Str => byte::bytes(lit).map(back).parse_stream(i),
        Lit::StrCmp(c) => byte::bytes_cmp(lit, move |l: u8, r: u8| asked(c, l as u32, r as u32)).map(back).parse_stream(i),
        Lit::Spaces => byte::spaces().map(|_| vec![]).parse_stream(i),
        Lit::Crlf => byte::crlf().map(|c| vec![c as u32]).parse_stream(i),
        Lit::Class(k) => {
            let mut ps = byte_classes::<I>();
            ps[k].1.by_ref().map(|c| vec![c as u32]).parse_stream(i)
        }
        Lit::Token if form % 2 == 1 => byte::byte(lit[0]).map(|c| vec![c as u32]).parse_stream(i),
        _ => return common(l, lit, form, i).unwrap(),
    })
}

struct Case {
    data: Vec<u32>,
    /// the parsers with their literals
    lits: Vec<(Lit, Vec<u32>)>,
    form: u32,
}

/// One after another while they succeed
fn steps<I>(mut input: I, c: &Case, is_char: bool, partial: bool, g: &mut Gen, run: &dyn Fn(usize, &mut I) -> Out<Vec<u32>>) -> Res
where
    I: Stream + 'static,
    I::Token: Tok,
{
    let mut at = 0;
    for (k, (l, lit)) in c.lits.iter().enumerate() {
        g.checks += 1;
        let (want, used, pairs) = model(*l, lit, &c.data[at..], is_char, partial);
        SEEN.with(|s| s.borrow_mut().clear());
        let before = input.checkpoint();
        let r = run(k, &mut input);
        let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
        let here = format!("parser {} {:?} of {:?} at {}", k, l, lit, at);
        if r != want {
            return Err(format!("{}: {:?} instead of {:?}", here, r, want));
        }
        if seen != pairs {
            return Err(format!("{}: compared {:?} instead of {:?} (expected, actual)", here, seen, pairs));
        }
        match want {
            Out::Ok(..) => at += used,
            Out::Err(true, _) => return Ok(()),
            Out::Err(false, _) => {
                let _ = input.reset(before);
            }
        }
    }
    let mut left = vec![];
    while let Ok(t) = input.uncons() {
        left.push(t.n());
    }
    if left != c.data[at..] {
        return Err(format!("{:?} is left instead of {:?}", left, &c.data[at..]));
    }
    Ok(())
}

fn literals(g: &mut Gen) -> Res {
    let is_char = g.bool();
    let alpha: &[u32] = if is_char {
        *g.pick(&[&[97, 65][..], &[97, 98, 66, 65], &[13, 10, 32, 9], &[97, 0xe9, 0x6f22, 0x1F980, 32, 0x2028], &[48, 55, 56, 70, 103, 12, 11, 0x85]])
    } else {
        *g.pick(&[&[97, 65][..], &[97, 98, 66, 65], &[13, 10, 32, 9, 11, 12], &[0, 255, 128, 127], &[48, 55, 56, 70, 103]])
    };
    let n = g.small(0, 12);
    let data: Vec<u32> = (0..n).map(|_| *g.pick(alpha)).collect();
    let k = g.range(1, 4);
    let mut at = 0;
    let mut lits = vec![];
    for _ in 0..k {
        let l = gen_lit_kind(g);
        let mut lit: Vec<u32> = if g.chance(2, 3) {
            // what comes next
            let m = g.small(0, 6);
            data[at.min(n)..].iter().take(m).copied().collect()
        } else {
            (0..g.small(0, 4)).map(|_| *g.pick(alpha)).collect()
        };
        if g.chance(1, 4) && !lit.is_empty() {
            let i = g.below(lit.len() as u32) as usize;
            lit[i] = *g.pick(alpha);
        }
        if l == Lit::Token && lit.is_empty() {
            lit = vec![*g.pick(alpha)];
        }
        let m = model(l, &lit, &data[at..], is_char, false);
        if let Out::Ok(..) = m.0 {
            at += m.1;
        }
        lits.push((l, lit));
    }
    let c = Case { data, lits, form: g.below(4) };
    let kind = g.below(5);
    let ctx = format!("{} stream {} over {:?}: {:?}", if is_char { "char" } else { "byte" }, kind, c.data, c.lits);
    g.describe(|| ctx.clone());
    if at > 1 && k > 1 {
        g.nontrivial(hash_str(&ctx));
    }
    let r = if is_char {
        let data: Vec<char> = c.data.iter().map(|x| char::of(*x)).collect();
        let text: String = data.iter().collect();
        let ls: Vec<Vec<char>> = c.lits.iter().map(|l| l.1.iter().map(|x| char::of(*x)).collect()).collect();
        let ts: Vec<String> = ls.iter().map(|l| l.iter().collect()).collect();
        // Safety: all outlive the streams and parsers
        let (d, s) = unsafe { (h::build::lend_slice(&data), h::build::lend_str(&text)) };
        macro_rules! go {
            ($s: expr, $p: expr) => {
                steps($s, &c, true, $p, g, &|k, i| {
                    of_chars(c.lits[k].0, unsafe { h::build::lend_slice(&ls[k]) }, unsafe { h::build::lend_str(&ts[k]) }, c.form, i)
                })
            };
        }
        match kind {
            0 => go!(s, false),
            1 => go!(easy::Stream(position::Stream::new(d)), false),
            2 => go!(PartialStream(s), true),
            3 => go!(buffered::Stream::new(position::Stream::new(IteratorStream::new(d.iter().cloned())), 32), false),
            _ => go!(easy::Stream(s), false),
        }
    } else {
        let data: Vec<u8> = c.data.iter().map(|x| *x as u8).collect();
        let ls: Vec<Vec<u8>> = c.lits.iter().map(|l| l.1.iter().map(|x| *x as u8).collect()).collect();
        let d = unsafe { h::build::lend_slice(&data) };
        macro_rules! go {
            ($s: expr, $p: expr) => {
                steps($s, &c, false, $p, g, &|k, i| of_bytes(c.lits[k].0, unsafe { h::build::lend_slice(&ls[k]) }, c.form, i))
            };
        }
        match kind {
            0 => go!(d, false),
            1 => go!(easy::Stream(d), false),
            2 => go!(PartialStream(d), true),
            3 => go!(buffered::Stream::new(position::Stream::new(read::Stream::new(d)), 32), false),
            _ => go!(position::Stream::new(d), false),
        }
    };
    r.map_err(|e| format!("{}: {}", ctx, e))
}

/// Tokens of any type, by reference and by value
fn others(g: &mut Gen) -> Res {
    let n = g.small(0, 8);
    let data: Vec<String> = (0..n).map(|_| g.pick(&["x", "y", "zz"]).to_string()).collect();
    let m = g.small(0, 4);
    let lit: Vec<String> = if g.bool() { data.iter().take(m).cloned().collect() } else { (0..m).map(|_| g.pick(&["x", "y", "zz"]).to_string()).collect() };
    let ctx = format!("{:?} on {:?}", lit, data);
    g.describe(|| ctx.clone());
    let m = lit.len();
    let prefix = data.iter().zip(&lit).take_while(|x| x.0 == x.1).count();
    let whole = prefix == lit.len();
    if whole && m > 1 {
        g.nontrivial(hash_str(&ctx));
    }
    g.checks += 4;
    // by reference
    let mut s = SliceStream(&data[..]);
    let r = out::<SliceStream<String>, _>(tokens(|l: &String, r: &String| l == r, "literal", lit.iter()).map(|_| ()).parse_stream(&mut s));
    let want = if whole { Out::Ok((), m > 0) } else { Out::Err(prefix > 0, prefix == data.len()) };
    if r != want || (whole && s.0.len() != n - m) {
        return Err(format!("{}: tokens of a SliceStream {:?} instead of {:?}", ctx, r, want));
    }
    // by value
    let mut s = &data[..];
    let r = out::<&[String], _>(tokens_cmp(lit.iter(), |l: &String, r: String| *l == r).map(|_| ()).parse_stream(&mut s));
    if r != want || (whole && s.len() != n - m) {
        return Err(format!("{}: tokens_cmp of a slice {:?} instead of {:?}", ctx, r, want));
    }
    let first = data.first();
    let has = first.map_or(false, |f| lit.contains(f));
    let r = one_of(lit.iter()).parse(SliceStream(&data[..])).map(|x| (x.0.clone(), x.1 .0.len())).ok();
    if r != first.filter(|_| has).map(|f| (f.clone(), n - 1)) {
        return Err(format!("{}: one_of {:?}", ctx, r));
    }
    let r = none_of(lit.iter().cloned()).parse(&data[..]).map(|x| (x.0, x.1.len())).ok();
    if r != first.filter(|_| !has).map(|f| (f.clone(), n - 1)) {
        return Err(format!("{}: none_of {:?}", ctx, r));
    }
    if let Some(t) = lit.first() {
        let r = token(t.clone()).parse(&data[..]).map(|x| (x.0, x.1.len())).ok();
        if r != first.filter(|f| *f == t).map(|f| (f.clone(), n - 1)) {
            return Err(format!("{}: token {:?}", ctx, r));
        }
    }
    Ok(())
}

fn main() {
    h::runner::main(&Property {
        id: "C18",
        rule: "every character and every pair of bytes once; at least two parsers of which more than one token is taken; a literal of at least two tokens that is there",
        assumptions: &[
            "the predicates of std for characters (is_whitespace, is_alphabetic, ...) are the documented sets",
        ],
        suites: &[
            Suite { name: "every", quick: 1, thorough: 1, f: every },
            Suite { name: "literals", quick: 1_500_000, thorough: 40_000_000, f: literals },
            Suite { name: "others", quick: 300_000, thorough: 5_000_000, f: others },
        ],
        known: &[],
    })
}
