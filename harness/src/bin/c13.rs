#[path = "../h/mod.rs"]
#[macro_use]
mod h;
use combine::error::{self as ce, ErrorInfo, ParseError, ParseErrorInto, StreamError, StreamErrorInto, StringStreamError, Tracked, UnexpectedParse};
use combine::stream::easy::{self, Error, Errors, Info};
use combine::stream::position::SourcePosition;
use combine::stream::read;
use combine::stream::span::Span;
use combine::stream::PointerOffset;
use h::gen::*;
use h::runner::*;
use std::fmt;

/// What an error says: a token, a range or a text
#[derive(Clone, Debug, PartialEq)]
enum I {
    T(char),
    R(&'static str),
    S(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Un,
    Ex,
    Msg,
    Other,
}
type E = (K, I);
#[derive(Clone, Debug)]
struct Model<P> {
    pos: P,
    errs: Vec<E>,
}

fn same(a: &E, b: &E) -> bool {
    // errors of other types cannot be compared
    a.0 != K::Other && a == b
}

impl<P: Ord + Clone> Model<P> {
    fn add(&mut self, e: E) {
        if !self.errs.iter().any(|x| same(x, &e)) {
            self.errs.push(e);
        }
    }
    fn merge(self, o: Self) -> Self {
        use std::cmp::Ordering::*;
        match self.pos.cmp(&o.pos) {
            Less => o,
            Greater => self,
            Equal => {
                let mut s = self;
                for e in o.errs {
                    s.add(e);
                }
                s
            }
        }
    }
    fn show(&self) -> String
    where
        P: fmt::Display,
    {
        format!("Parse error at {}\n{}", self.pos, show(&self.errs))
    }
}

fn show_info(i: &I) -> String {
    match i {
        I::T(c) => format!("`{}`", c),
        I::R(r) => format!("`{}`", r),
        I::S(s) => s.clone(),
    }
}

/// The text documented for errors
fn show(errs: &[E]) -> String {
    let mut out = String::new();
    for e in errs.iter().filter(|e| e.0 == K::Un) {
        out += &format!("Unexpected {}\n", show_info(&e.1));
    }
    let ex: Vec<_> = errs.iter().filter(|e| e.0 == K::Ex).map(|e| show_info(&e.1)).collect();
    match ex.len() {
        0 => (),
        1 => out += &format!("Expected {}\n", ex[0]),
        n => out += &format!("Expected {} or {}\n", ex[..n - 1].join(", "), ex[n - 1]),
    }
    for e in errs.iter().filter(|e| matches!(e.0, K::Msg | K::Other)) {
        out += &format!("{}\n", show_info(&e.1));
    }
    out
}

const TEXTS: &[&str] = &["end of input", "digit", "parse", "x", "", "unexpected slice on character boundary"];
const RANGES: &[&str] = &["x", "let", "λé", ""];
const CHARS: &[char] = &['x', 'a', 'λ', '\n'];

fn gen_info(g: &mut Gen) -> I {
    match g.below(4) {
        0 => I::T(*g.pick(CHARS)),
        1 => I::R(g.pick(RANGES)),
        _ => I::S(g.pick(TEXTS).to_string()),
    }
}
fn gen_err(g: &mut Gen) -> E {
    match g.below(9) {
        0..=2 => (K::Un, gen_info(g)),
        3..=5 => (K::Ex, gen_info(g)),
        6..=7 => (K::Msg, gen_info(g)),
        _ => (K::Other, I::S(g.pick(TEXTS).to_string())),
    }
}

fn stat(s: &str) -> &'static str {
    TEXTS.iter().copied().find(|t| *t == s).unwrap_or("?")
}

/// The info itself, its text owned or not
fn real_info(i: &I, owned: bool) -> Info<char, &'static str> {
    match i {
        I::T(c) => Info::Token(*c),
        I::R(r) => Info::Range(r),
        I::S(s) if owned => Info::Owned(s.clone()),
        I::S(s) => Info::Static(stat(s)),
    }
}
fn real(e: &E, g: &mut Gen) -> Error<char, &'static str> {
    let i = || e.1.clone();
    let owned = g.bool();
    match e.0 {
        K::Un => Error::Unexpected(real_info(&i(), owned)),
        K::Ex => Error::Expected(real_info(&i(), owned)),
        K::Msg => Error::Message(real_info(&i(), owned)),
        K::Other => match i() {
            I::S(s) => {
                if owned {
                    Error::Other(s.into())
                } else {
                    Error::from(std::io::Error::new(std::io::ErrorKind::Other, s))
                }
            }
            _ => unreachable!(),
        },
    }
}

/// An error made through the constructors every error type has
fn make<S: StreamError<char, &'static str>>(e: &E, g: &mut Gen) -> S {
    let how = g.below(3);
    macro_rules! by {
        ($tok: ident, $ran: ident, $fmt: ident, $sta: ident, $any: ident) => {
            match (&e.1, how) {
                (I::T(c), 0) => S::$tok(*c),
                (I::T(c), 1) => S::$any(*c),
                (I::T(c), _) => S::$any(ce::Token(*c)),
                (I::R(r), 0) => S::$ran(r),
                (I::R(r), 1) => S::$any(ce::Range(*r)),
                (I::R(r), _) => S::$any(ce::Info::<char, &'static str, &'static str>::Range(*r)),
                (I::S(s), 0) => S::$fmt(s),
                (I::S(s), 1) => S::$sta(stat(s)),
                (I::S(s), _) => {
                    if g.bool() {
                        S::$any(stat(s))
                    } else {
                        S::$any(ce::Format(s.clone()))
                    }
                }
            }
        };
    }
    match e.0 {
        K::Un => by!(unexpected_token, unexpected_range, unexpected_format, unexpected_static_message, unexpected),
        K::Ex => by!(expected_token, expected_range, expected_format, expected_static_message, expected),
        K::Msg => by!(message_token, message_range, message_format, message_static_message, message),
        K::Other => match &e.1 {
            I::S(s) => S::other(std::io::Error::new(std::io::ErrorKind::Other, s.clone())),
            _ => unreachable!(),
        },
    }
}

/// What is in an easy error
trait Look {
    fn i(&self) -> I;
}
impl Look for Info<char, &'static str> {
    fn i(&self) -> I {
        match self {
            Info::Token(c) => I::T(*c),
            Info::Range(r) => I::R(r),
            Info::Owned(s) => I::S(s.clone()),
            Info::Static(s) => I::S(s.to_string()),
        }
    }
}
fn look(e: &Error<char, &'static str>) -> E {
    match e {
        Error::Unexpected(i) => (K::Un, i.i()),
        Error::Expected(i) => (K::Ex, i.i()),
        Error::Message(i) => (K::Msg, i.i()),
        Error::Other(o) => (K::Other, I::S(o.to_string())),
    }
}

fn is_eoi(e: &E) -> bool {
    same(e, &(K::Un, I::S("end of input".into())))
}

type Er<P> = Errors<char, &'static str, P>;

fn agree<P: PartialEq + fmt::Debug + Ord + Clone>(what: &str, x: &Er<P>, m: &Model<P>) -> Res {
    let got: Vec<E> = x.errors.iter().map(look).collect();
    if got != m.errs || x.position != m.pos {
        return Err(format!("after {}: {:?} at {:?}, not {:?} at {:?}", what, got, x.position, m.errs, m.pos));
    }
    if ParseError::<char, &'static str, P>::is_unexpected_end_of_input(x) != m.errs.iter().any(is_eoi) {
        return Err(format!("after {}: is_unexpected_end_of_input is wrong for {:?}", what, got));
    }
    if ParseError::<char, &'static str, P>::position(x) != m.pos {
        return Err(format!("after {}: position() is not {:?}", what, m.pos));
    }
    Ok(())
}

fn build<P: Ord + Clone>(g: &mut Gen, m: &Model<P>) -> Er<P> {
    let distinct = (0..m.errs.len()).all(|i| !m.errs[..i].iter().any(|x| same(x, &m.errs[i])));
    match g.below(if distinct { 4 } else { 2 }) {
        0 => Errors::from_errors(m.pos.clone(), m.errs.iter().map(|e| real(e, g)).collect()),
        1 => {
            let mut x = Errors::empty(m.pos.clone());
            for e in &m.errs {
                x.errors.push(make(e, g));
            }
            x
        }
        2 if m.errs.len() == 1 && is_eoi(&m.errs[0]) => Errors::end_of_input(m.pos.clone()),
        2 if m.errs.len() == 1 => Errors::new(m.pos.clone(), real(&m.errs[0], g)),
        _ => {
            // through the trait, which needs them to be distinct
            let mut x = match m.errs.first() {
                Some(e) => <Er<P> as ParseError<_, _, _>>::from_error(m.pos.clone(), make(e, g)),
                None => <Er<P> as ParseError<_, _, _>>::empty(m.pos.clone()),
            };
            for e in m.errs.iter().skip(1) {
                x.add(make(e, g));
            }
            x
        }
    }
}

fn gen_model<P: Ord + Clone>(g: &mut Gen, pos: &mut dyn FnMut(&mut Gen) -> P) -> Model<P> {
    let mut m = Model { pos: pos(g), errs: vec![] };
    // Some errors list far more than people read
    let many = g.chance(1, 24);
    let n = if many { 8 + g.below(70) as usize } else { g.small(0, 6) };
    for _ in 0..n {
        let mut e = gen_err(g);
        if many && e.0 != K::Other && g.chance(3, 4) {
            e.1 = I::T(char::from_u32(0x400 + g.below(150)).unwrap());
        }
        m.add(e);
    }
    m
}

trait Pos: Ord + Clone + fmt::Debug {
    fn gen(g: &mut Gen) -> Self;
    fn text(&self) -> Option<String> {
        None
    }
}
impl Pos for usize {
    fn gen(g: &mut Gen) -> Self {
        g.below(3) as usize
    }
    fn text(&self) -> Option<String> {
        Some(self.to_string())
    }
}
impl Pos for SourcePosition {
    fn gen(g: &mut Gen) -> Self {
        SourcePosition { line: g.below(3) as i32 + 1, column: g.below(3) as i32 + 1 }
    }
    fn text(&self) -> Option<String> {
        Some(format!("line: {}, column: {}", self.line, self.column))
    }
}
impl Pos for Span<usize> {
    fn gen(g: &mut Gen) -> Self {
        let start = g.below(3) as usize;
        Span { start, end: start + g.below(3) as usize }
    }
}
static BUF: &str = "0123456789";
impl Pos for PointerOffset<str> {
    fn gen(g: &mut Gen) -> Self {
        PointerOffset::new(BUF.as_ptr() as usize + g.below(3) as usize)
    }
}

/// One value taken through operations
fn ops<P: Pos>(g: &mut Gen) -> Res
where
    Er<P>: Maybe<P>,
{
    let mut m = gen_model(g, &mut P::gen);
    let mut x = build(g, &m);
    let mut log = format!("{:?}", m);
    let mut merges = 0;
    agree("building", &x, &m)?;
    for _ in 0..g.range(1, 8) {
        g.checks += 1;
        let what;
        match g.below(16) {
            0 | 1 => {
                let e = if g.bool() && !m.errs.is_empty() { m.errs[g.below(m.errs.len() as u32) as usize].clone() } else { gen_err(g) };
                what = format!("add_error {:?}", e);
                let r = real(&e, g);
                if g.bool() {
                    x.add_error(r);
                } else {
                    ParseError::add(&mut x, r);
                }
                m.add(e);
            }
            2 => {
                let mut e = gen_err(g);
                if e.0 == K::Other {
                    e.0 = K::Msg;
                }
                what = format!("add_{:?} {:?}", e.0, e.1);
                fn go<'b, P: Pos, N>(x: &mut Er<P>, k: K, n: N)
                where
                    N: for<'s> ErrorInfo<'s, char, &'static str>,
                {
                    match k {
                        K::Un => x.add_unexpected(n),
                        K::Ex => x.add_expected(n),
                        _ => x.add_message(n),
                    }
                }
                match &e.1 {
                    I::T(c) if g.bool() => go(&mut x, e.0, *c),
                    I::T(c) => go(&mut x, e.0, ce::Token(*c)),
                    I::R(r) => go(&mut x, e.0, &ce::Range(*r)),
                    I::S(s) if g.bool() => go(&mut x, e.0, ce::Format(s.clone())),
                    I::S(s) if g.bool() => go(&mut x, e.0, ce::Info::<char, &'static str, String>::Format(s.clone())),
                    I::S(s) => go(&mut x, e.0, stat(s)),
                }
                m.add(e);
            }
            3..=5 => {
                let o = if g.chance(1, 6) { m.clone() } else { gen_model(g, &mut P::gen) };
                let y = build(g, &o);
                what = format!("merge {:?}", o);
                merges += 1;
                let left = g.chance(3, 4);
                let by_trait = g.bool();
                let (a, b, ma, mb) = if left { (x, y, m, o) } else { (y, x, o, m) };
                x = if by_trait { ParseError::merge(a, b) } else { Errors::merge(a, b) };
                m = ma.merge(mb);
            }
            6 => {
                let i = gen_info(g);
                what = format!("set_expected {:?}", i);
                let owned = g.bool();
                x.set_expected(real_info(&i, owned));
                m.errs.retain(|e| e.0 != K::Ex);
                m.errs.push((K::Ex, i));
            }
            7 | 8 => {
                // only what is expected meanwhile is replaced
                let i = gen_info(g);
                let inner: Vec<E> = (0..g.small(0, 4)).map(|_| gen_err(g)).collect();
                what = format!("ParseError::set_expected {:?} around {:?}", i, inner);
                let mut t = Tracked::from(x);
                let info = make(&(K::Ex, i.clone()), g);
                let real_inner: Vec<_> = inner.iter().map(|e| make(e, g)).collect();
                <Er<P> as ParseError<_, _, _>>::set_expected(&mut t, info, |t| {
                    for e in real_inner {
                        t.error.add(e);
                    }
                });
                x = t.error;
                let start = m.errs.len();
                for e in inner {
                    m.add(e);
                }
                let tail: Vec<E> = m.errs.split_off(start).into_iter().filter(|e| e.0 != K::Ex).collect();
                m.errs.extend(tail);
                m.add((K::Ex, i));
            }
            9 => {
                what = "clear_expected".to_string();
                x.clear_expected();
                m.errs.retain(|e| e.0 != K::Ex);
            }
            10 => {
                let p = P::gen(g);
                what = format!("set_position {:?}", p);
                ParseError::<char, &'static str, P>::set_position(&mut x, p.clone());
                m.pos = p;
            }
            11 => {
                what = "map_token, map_range, map_position".to_string();
                let up = |c: char| if c == 'a' { 'x' } else { c };
                let cut = |r: &'static str| if r == "let" { "x" } else { r };
                let q = P::gen(g);
                let mut seen = vec![];
                let q2 = q.clone();
                x = match g.below(3) {
                    0 => x.map_token(up).map_range(cut).map_position(|p| {
                        seen.push(p);
                        q2
                    }),
                    1 => x
                        .map_position(|p| {
                            seen.push(p);
                            q2
                        })
                        .map_range(|r| r.to_string())
                        .map_token(|c| c.to_string())
                        .map_token(|s| up(s.chars().next().unwrap()))
                        .map_range(|s| cut(RANGES.iter().copied().find(|r| *r == s).unwrap())),
                    _ => {
                        let e2 = x.errors.into_iter().map(|e| e.map_token(up).map_range(cut)).collect();
                        seen.push(x.position);
                        Errors::from_errors(q2, e2)
                    }
                };
                if seen != [m.pos.clone()] {
                    return Err(format!("map_position was given {:?}, not {:?}", seen, m.pos));
                }
                m.pos = q;
                for e in &mut m.errs {
                    match &mut e.1 {
                        I::T(c) => *c = up(*c),
                        I::R(r) => *r = cut(r),
                        _ => (),
                    }
                }
            }
            12 => {
                what = "into_other".to_string();
                x = ParseError::into_other::<Er<P>>(x);
                m = converted(&m);
            }
            13 => {
                what = "into_other_error".to_string();
                x = ParseErrorInto::<char, &'static str, P>::into_other_error::<Er<P>, char, &'static str, P>(x);
                m = converted(&m);
            }
            14 => {
                // a stream error into another type and back
                what = "each error into_other".to_string();
                let by_into = g.bool();
                x.errors = x
                    .errors
                    .into_iter()
                    .map(|e| -> Error<char, &'static str> {
                        if by_into {
                            StreamErrorInto::<char, &'static str>::into_other_error::<Error<char, &'static str>, char, &'static str>(e)
                        } else {
                            StreamError::<char, &'static str>::into_other(e)
                        }
                    })
                    .collect();
                for e in &mut m.errs {
                    if e.0 == K::Other {
                        e.0 = K::Msg;
                    }
                }
            }
            _ => {
                what = "into_other_error of wider types".to_string();
                let y: Errors<u32, String, Wide<P>> = ParseErrorInto::<char, &'static str, P>::into_other_error(x);
                m = converted(&m);
                x = y
                    .map_token(|c| char::from_u32(c).unwrap())
                    .map_range(|s| RANGES.iter().copied().find(|r| *r == s).unwrap())
                    .map_position(|p| p.0);
            }
        }
        log += &format!("; {}", what);
        agree(&log, &x, &m)?;
        let text = x.shown();
        if let Some(t) = text {
            let want = m.pos.text().map(|p| format!("Parse error at {}\n{}", p, show(&m.errs))).unwrap();
            if t != want {
                return Err(format!("after {}: displayed as {:?}, not {:?}", log, t, want));
            }
            g.checks += 1;
        }
        // reflexive, up to errors of other types
        let y: Er<P> = Errors::from_errors(m.pos.clone(), m.errs.iter().map(|e| real(e, g)).collect());
        let other = m.errs.iter().any(|e| e.0 == K::Other);
        if (x == y) == other {
            return Err(format!("after {}: equality with an equal value is {}", log, !other));
        }
        let mut far = build(g, &m);
        far.errors.push(Error::Message(Info::Static("more")));
        if x == far {
            return Err(format!("after {}: equal to a value with one more error", log));
        }
    }
    if merges > 0 {
        g.nontrivial(hash_str(&log));
    }
    g.describe(|| log.clone());
    Ok(())
}

trait Maybe<P> {
    fn shown(&self) -> Option<String>;
}
impl Maybe<usize> for Er<usize> {
    fn shown(&self) -> Option<String> {
        Some(self.to_string())
    }
}
impl Maybe<SourcePosition> for Er<SourcePosition> {
    fn shown(&self) -> Option<String> {
        Some(self.to_string())
    }
}
impl Maybe<Span<usize>> for Er<Span<usize>> {
    fn shown(&self) -> Option<String> {
        None
    }
}
impl Maybe<PointerOffset<str>> for Er<PointerOffset<str>> {
    fn shown(&self) -> Option<String> {
        None
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Wide<P>(P);
impl<P> From<P> for Wide<P> {
    fn from(p: P) -> Self {
        Wide(p)
    }
}

/// Errors of other types become messages, and equal ones become one
fn converted<P: Ord + Clone>(m: &Model<P>) -> Model<P> {
    let mut o = Model { pos: m.pos.clone(), errs: vec![] };
    for (k, i) in &m.errs {
        o.add((if *k == K::Other { K::Msg } else { *k }, i.clone()));
    }
    o
}

fn algebra(g: &mut Gen) -> Res {
    match g.below(5) {
        0 | 1 => ops::<usize>(g),
        2 => ops::<SourcePosition>(g),
        3 => ops::<Span<usize>>(g),
        _ => ops::<PointerOffset<str>>(g),
    }
}

/// Merging is associative, idempotent and commutative up to order
fn laws(g: &mut Gen) -> Res {
    let ms: Vec<Model<usize>> = (0..3)
        .map(|_| {
            let mut m = gen_model(g, &mut |g: &mut Gen| g.below(2) as usize);
            m.errs.retain(|e| e.0 != K::Other);
            m
        })
        .collect();
    let log = format!("{:?}", ms);
    g.describe(|| log.clone());
    let b = |g: &mut Gen, i: usize| build(g, &ms[i]);
    let (x, y, z) = (b(g, 0), b(g, 1), b(g, 2));
    let left = x.merge(y).merge(z);
    let (x, y, z) = (b(g, 0), b(g, 1), b(g, 2));
    let right = x.merge(y.merge(z));
    if left != right {
        return Err(format!("{}: merge is not associative: {:?} and {:?}", log, left, right));
    }
    let twice = b(g, 0).merge(b(g, 0));
    if twice != b(g, 0) {
        return Err(format!("{}: merging with itself gives {:?}", log, twice));
    }
    let ab = b(g, 0).merge(b(g, 1));
    let ba = b(g, 1).merge(b(g, 0));
    let sub = |p: &Er<usize>, q: &Er<usize>| p.errors.iter().all(|e| q.errors.contains(e));
    if ab.position != ba.position || !sub(&ab, &ba) || !sub(&ba, &ab) {
        return Err(format!("{}: merging in the other order gives {:?} and {:?}", log, ab, ba));
    }
    for i in 0..2 {
        if ms[i].pos == ab.position && !b(g, i).errors.iter().all(|e| ab.errors.contains(e)) {
            return Err(format!("{}: merging lost an error: {:?}", log, ab));
        }
    }
    if ms[0].pos == ms[1].pos {
        g.nontrivial(hash_str(&log));
    }
    g.checks += 4;
    Ok(())
}

/// Texts given in any order and number appear once, under their heading
fn texts(g: &mut Gen) -> Res {
    let n = g.range(0, 12);
    let mut x: Errors<String, String, String> = Errors::empty(g.pick(&["here", "", "line: 3\n"]).to_string());
    let mut want: Vec<E> = vec![];
    let words = ["if", "else", "Unexpected", "Expected", "or", ",", "a, b or c", "\n", "`", "é\u{301}"];
    for _ in 0..n {
        let w = *g.pick(&words);
        let k = *g.pick(&[K::Un, K::Ex, K::Ex, K::Msg, K::Other]);
        let form = g.below(4);
        let info = match form {
            0 => Info::Token(w.to_string()),
            1 => Info::Range(w.to_string()),
            2 => Info::Owned(w.to_string()),
            _ => Info::Static(w),
        };
        // how the model shows it; tokens and ranges look alike but are not equal
        let shown = match form {
            0 => format!("`{}`", w),
            1 => format!("`{}`", w),
            _ => w.to_string(),
        };
        let before = x.errors.len();
        match k {
            K::Un => x.add_error(Error::Unexpected(info)),
            K::Ex => x.add_error(Error::Expected(info)),
            K::Msg => x.add_error(Error::Message(info)),
            K::Other => x.add_error(Error::Other(w.into())),
        }
        let shown = if k == K::Other { w.to_string() } else { shown };
        if x.errors.len() > before {
            let one = format!("{}", x.errors[before]);
            let head = match k {
                K::Un => "Unexpected ",
                K::Ex => "Expected ",
                _ => "",
            };
            if one != format!("{}{}", head, shown) {
                return Err(format!("a single error is shown as {:?}, not {}{}", one, head, shown));
            }
            want.push((k, I::S(shown)));
        } else if k == K::Other {
            return Err("an error of another type was dropped".into());
        } else if !want.iter().any(|e| e.0 == k && e.1 == I::S(shown.clone())) {
            return Err(format!("{:?} {} was dropped from {:?}", k, shown, x));
        }
    }
    let expect = format!("Parse error at {}\n{}", x.position, show(&want));
    g.describe(|| expect.clone());
    g.checks += 1;
    if want.len() > 3 {
        g.nontrivial(hash_str(&expect));
    }
    let m = Model { pos: x.position.clone(), errs: want };
    if m.show() != expect {
        return Err("HARNESS: two renderings".into());
    }
    if x.to_string() != expect {
        return Err(format!("displayed as {:?}, not {:?}", x.to_string(), expect));
    }
    Ok(())
}

/// What the cheap errors can tell apart
#[derive(Clone, Copy, PartialEq, Debug)]
enum C {
    Parse,
    Eoi,
    Boundary,
    Io,
}

const BOUNDARY: &str = "unexpected slice on character boundary";

trait Cheap: ParseError<char, &'static str, usize, StreamError = Self> + StreamError<char, &'static str> + fmt::Display {
    const ALL: &'static [C];
    fn new(c: C) -> Self;
    fn see(&self) -> C;
    fn into<T: ParseError<char, &'static str, usize>>(self) -> Option<T>;
    fn into_s<T: StreamError<char, &'static str>>(self) -> Option<T>;
}
impl Cheap for UnexpectedParse {
    const ALL: &'static [C] = &[C::Parse, C::Eoi];
    fn new(c: C) -> Self {
        match c {
            C::Eoi => UnexpectedParse::Eoi,
            _ => UnexpectedParse::Unexpected,
        }
    }
    fn see(&self) -> C {
        match self {
            UnexpectedParse::Eoi => C::Eoi,
            UnexpectedParse::Unexpected => C::Parse,
        }
    }
    fn into<T: ParseError<char, &'static str, usize>>(self) -> Option<T> {
        Some(ParseErrorInto::<char, &'static str, usize>::into_other_error(self))
    }
    fn into_s<T: StreamError<char, &'static str>>(self) -> Option<T> {
        Some(StreamErrorInto::<char, &'static str>::into_other_error(self))
    }
}
impl Cheap for StringStreamError {
    const ALL: &'static [C] = &[C::Parse, C::Eoi, C::Boundary];
    fn new(c: C) -> Self {
        match c {
            C::Eoi => StringStreamError::Eoi,
            C::Boundary => StringStreamError::CharacterBoundary,
            _ => StringStreamError::UnexpectedParse,
        }
    }
    fn see(&self) -> C {
        match self {
            StringStreamError::Eoi => C::Eoi,
            StringStreamError::UnexpectedParse => C::Parse,
            StringStreamError::CharacterBoundary => C::Boundary,
        }
    }
    fn into<T: ParseError<char, &'static str, usize>>(self) -> Option<T> {
        Some(ParseErrorInto::<char, &'static str, usize>::into_other_error(self))
    }
    fn into_s<T: StreamError<char, &'static str>>(self) -> Option<T> {
        Some(StreamErrorInto::<char, &'static str>::into_other_error(self))
    }
}
impl Cheap for read::Error {
    const ALL: &'static [C] = &[C::Parse, C::Eoi, C::Io];
    fn new(c: C) -> Self {
        match c {
            C::Eoi => read::Error::EndOfInput,
            C::Io => read::Error::Io(std::io::Error::new(std::io::ErrorKind::Other, "disk")),
            _ => read::Error::Unexpected,
        }
    }
    fn see(&self) -> C {
        match self {
            read::Error::EndOfInput => C::Eoi,
            read::Error::Unexpected => C::Parse,
            read::Error::Io(_) => C::Io,
        }
    }
    fn into<T: ParseError<char, &'static str, usize>>(self) -> Option<T> {
        None
    }
    fn into_s<T: StreamError<char, &'static str>>(self) -> Option<T> {
        None
    }
}

fn cheap_of<X: Cheap>(e: &E) -> C {
    if is_eoi(e) {
        C::Eoi
    } else if X::ALL.contains(&C::Boundary) && e.0 == K::Msg && e.1 == I::S(BOUNDARY.into()) {
        C::Boundary
    } else {
        C::Parse
    }
}

fn cheap_ops<X: Cheap>(g: &mut Gen) -> Res {
    let mut m = *g.pick(X::ALL);
    let mut x = X::new(m);
    let mut log = format!("{:?}", m);
    let mut adds = 0;
    for _ in 0..g.range(1, 6) {
        g.checks += 1;
        match g.below(7) {
            0..=2 => {
                // end of input and input errors stay whatever is added
                let (add, c) = if g.chance(1, 3) {
                    let c = *g.pick(X::ALL);
                    (X::new(c), c)
                } else {
                    let mut e = gen_err(g);
                    if e.1 == I::S(BOUNDARY.into()) && e.0 == K::Msg {
                        // by a formatted message this is not recognized
                        e.0 = K::Ex;
                    }
                    if g.chance(1, 4) {
                        e = (K::Un, I::S("end of input".into()));
                        // only the dedicated constructor makes it
                        (<X as StreamError<_, _>>::end_of_input(), C::Eoi)
                    } else {
                        let c = if is_eoi(&e) { C::Parse } else { cheap_of::<X>(&e) };
                        (make::<X>(&e, g), c)
                    }
                };
                log += &format!("; add {:?}", c);
                adds += 1;
                x.add(add);
                if !matches!(m, C::Eoi | C::Io) {
                    m = c;
                }
            }
            3 => {
                x = if g.bool() {
                    log += "; into itself";
                    ParseError::into_other(x)
                } else {
                    log += "; stream error into itself";
                    StreamError::into_other(x)
                };
                if m == C::Io {
                    m = C::Parse;
                }
            }
            4 => {
                log += "; set_position";
                ParseError::<char, &'static str, usize>::set_position(&mut x, 3);
                if ParseError::<char, &'static str, usize>::position(&x) != 0 {
                    return Err(format!("{}: a position without one being kept", log));
                }
            }
            5 => {
                log += "; clear_expected";
                ParseError::<char, &'static str, usize>::clear_expected(&mut x);
            }
            _ => {
                let by = g.below(4);
                log += &format!("; into {}", ["easy errors", "easy errors (into_other_error)", "an easy error", "an easy error (into_other_error)"][by as usize]);
                let (e, pos) = match by {
                    0 | 1 => {
                        let y: Option<Er<usize>> = if by == 0 { Some(ParseError::into_other(X::new(m))) } else { Cheap::into(X::new(m)) };
                        match y {
                            None => continue,
                            Some(y) if y.errors.len() == 1 => (look(&y.errors[0]), y.position),
                            Some(y) => return Err(format!("{}: {:?}", log, y)),
                        }
                    }
                    _ => {
                        let y: Option<Error<char, &'static str>> = if by == 2 { Some(StreamError::into_other(X::new(m))) } else { X::new(m).into_s() };
                        match y {
                            None => continue,
                            Some(y) => (look(&y), 0),
                        }
                    }
                };
                let want = match m {
                    C::Parse => (K::Un, I::S("parse".into())),
                    C::Eoi => (K::Un, I::S("end of input".into())),
                    C::Boundary => (K::Msg, I::S(BOUNDARY.into())),
                    C::Io => (K::Other, I::S("disk".into())),
                };
                if e != want || pos != 0 {
                    return Err(format!("{}: gives {:?} at {}, not {:?}", log, e, pos, want));
                }
            }
        }
        if x.see() != m {
            return Err(format!("{}: {:?}, not {:?}", log, x.see(), m));
        }
        if ParseError::<char, &'static str, usize>::is_unexpected_end_of_input(&x) != (m == C::Eoi)
            || StreamError::<char, &'static str>::is_unexpected_end_of_input(&x) != (m == C::Eoi)
        {
            return Err(format!("{}: is_unexpected_end_of_input of {:?}", log, m));
        }
        let shown = match m {
            C::Parse => "unexpected parse",
            C::Eoi => "unexpected end of input",
            C::Boundary => BOUNDARY,
            C::Io => "disk",
        };
        if x.to_string() != shown {
            return Err(format!("{}: displayed as {:?}", log, x.to_string()));
        }
        for c in X::ALL {
            if (x == X::new(*c)) != (*c == m && m != C::Io) {
                return Err(format!("{}: {:?} == {:?} is wrong", log, m, c));
            }
        }
        if let Some(y) = (m != C::Io).then(|| X::from_error(7, X::new(m))) {
            if y.see() != m || X::empty(3).see() != C::Parse {
                return Err(format!("{}: from_error or empty", log));
            }
        }
    }
    g.describe(|| log.clone());
    if adds > 1 {
        g.nontrivial(hash_str(&log));
    }
    Ok(())
}

fn cheap(g: &mut Gen) -> Res {
    match g.below(3) {
        0 => cheap_ops::<UnexpectedParse>(g),
        1 => cheap_ops::<StringStreamError>(g),
        _ => cheap_ops::<read::Error>(g),
    }
}

/// Easy errors to each cheap kind: what is told apart stays apart
fn down(g: &mut Gen) -> Res {
    let m = gen_model(g, &mut |g: &mut Gen| g.below(9) as usize);
    let log = format!("{:?}", m);
    g.describe(|| log.clone());
    fn go<X: Cheap>(g: &mut Gen, m: &Model<usize>) -> Res {
        let x: X = if g.bool() {
            ParseError::into_other(build(g, m))
        } else {
            ParseErrorInto::<char, &'static str, usize>::into_other_error::<X, char, &'static str, usize>(build(g, m))
        };
        g.checks += 1;
        // end of input stays whatever else is there; otherwise the last one counts
        let want = if m.errs.iter().any(is_eoi) { C::Eoi } else { m.errs.last().map_or(C::Parse, cheap_of::<X>) };
        let got = x.see();
        // a text is recognized as the boundary message only when it is a static one
        let boundary = m.errs.last().map_or(false, |e| e.0 == K::Msg && e.1 == I::S(BOUNDARY.into()));
        if got != want && !(want == C::Boundary && boundary && got == C::Parse) {
            return Err(format!("{:?} became {:?}, not {:?}", m, got, want));
        }
        Ok(())
    }
    go::<UnexpectedParse>(g, &m)?;
    go::<StringStreamError>(g, &m)?;
    go::<read::Error>(g, &m)?;
    // a single easy error as the error of a parse keeps what was added last
    let mut x: Error<char, &'static str> = <Error<_, _> as ParseError<char, &'static str, usize>>::empty(0);
    for e in &m.errs {
        ParseError::<_, _, usize>::add(&mut x, real(e, g));
    }
    let want = m.errs.last().cloned().unwrap_or((K::Msg, I::S("".into())));
    if look(&x) != want {
        return Err(format!("{:?}: a single easy error is {:?}, not {:?}", m, look(&x), want));
    }
    let y: Er<usize> = ParseError::into_other(x);
    let want = converted(&Model { pos: 0, errs: vec![want] });
    agree("a single easy error into easy errors", &y, &want)?;
    if m.errs.len() > 2 {
        g.nontrivial(hash_str(&log));
    }
    Ok(())
}

fn main() {
    let _: Option<easy::ParseError<&str>> = None;
    h::runner::main(&Property {
        id: "C13",
        rule: "operation sequences with a merge; laws with two errors at one position; texts with more than three errors; cheap errors with two additions; conversions of more than two errors",
        assumptions: &[
            "errors of other types (Other) cannot be compared, so they never count as equal and become messages with the same text when converted to another error type",
        ],
        suites: &[
            Suite { name: "operations", quick: 600_000, thorough: 20_000_000, f: algebra },
            Suite { name: "laws", quick: 300_000, thorough: 8_000_000, f: laws },
            Suite { name: "texts", quick: 300_000, thorough: 8_000_000, f: texts },
            Suite { name: "cheap", quick: 600_000, thorough: 20_000_000, f: cheap },
            Suite { name: "down", quick: 300_000, thorough: 8_000_000, f: down },
        ],
        known: &[],
    })
}
