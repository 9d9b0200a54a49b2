//! The reference meaning of a grammar: an ordered-choice recursive descent with a commit flag,
//! over a plain slice of tokens. Shares no code with the library.

use super::ast::*;
use super::build::{and_then_ok, flat_map_ok, op_char};

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Ok(Val, bool),
    Err(bool),
}

pub struct M<'a> {
    pub inp: &'a [char],
    pub pos: usize,
    pub fuel: u64,
    /// furthest position inspected
    pub far: usize,
    /// a parser looked at (or past) the end of input
    pub hit_end: bool,
    /// backtracking over consumed input happened
    pub backtracked: bool,
    /// how many units of a range a token takes
    pub width: fn(char) -> usize,
    /// how often each scripted parser ran
    pub calls: std::collections::HashMap<*const A, usize>,
}

impl<'a> M<'a> {
    pub fn new(inp: &'a [char]) -> Self {
        M { inp, pos: 0, fuel: 200_000, far: 0, hit_end: false, backtracked: false, width: char::len_utf8, calls: Default::default() }
    }

    fn peek(&mut self) -> Option<char> {
        match self.inp.get(self.pos) {
            Some(c) => {
                self.far = self.far.max(self.pos + 1);
                Some(*c)
            }
            None => {
                self.hit_end = true;
                None
            }
        }
    }
    fn tok(&mut self, f: impl FnOnce(char) -> bool) -> R {
        match self.peek() {
            Some(c) if f(c) => {
                self.pos += 1;
                R::Ok(Val::C(c), true)
            }
            _ => R::Err(false),
        }
    }
    fn lit(&mut self, s: &str, eq: impl Fn(char, char) -> bool) -> R {
        let mut com = false;
        for c in s.chars() {
            match self.peek() {
                Some(d) if eq(c, d) => {
                    self.pos += 1;
                    com = true;
                }
                _ => return R::Err(com),
            }
        }
        R::Ok(Val::S(s.to_string()), com)
    }
    fn reset(&mut self, p: usize) {
        if self.pos != p {
            self.backtracked = true;
        }
        self.pos = p;
    }

    /// A sequence: committed failure once anything before committed
    fn seq(&mut self, v: &[&A]) -> Result<(Vec<Val>, bool), bool> {
        let mut com = false;
        let mut out = vec![];
        for a in v {
            match self.run(a) {
                R::Ok(x, c) => {
                    com |= c;
                    out.push(x);
                }
                R::Err(c) => return Err(com || c),
            }
        }
        Ok((out, com))
    }
    fn choice(&mut self, v: &mut dyn Iterator<Item = &A>) -> R {
        let start = self.pos;
        for a in v {
            self.pos = start;
            match self.run(a) {
                R::Err(false) => {}
                r => return r,
            }
        }
        self.pos = start;
        R::Err(false)
    }
    fn many(&mut self, a: &A, max: usize) -> Result<(Vec<Val>, bool), bool> {
        let mut com = false;
        let mut out = vec![];
        while out.len() < max {
            let before = self.pos;
            match self.run(a) {
                R::Ok(v, c) => {
                    com |= c;
                    out.push(v);
                }
                R::Err(true) => return Err(true),
                R::Err(false) => {
                    self.pos = before;
                    break;
                }
            }
        }
        Ok((out, com))
    }

    /// `first (sep item)*` where `pair` failing uncommitted ends the list before the separator
    fn sep_rest(&mut self, sep: &A, item: &A, out: &mut Vec<(Val, Val)>) -> Result<bool, bool> {
        let mut com = false;
        loop {
            let before = self.pos;
            match self.seq(&[sep, item]) {
                Ok((mut v, c)) => {
                    com |= c;
                    let i = v.pop().unwrap();
                    let s = v.pop().unwrap();
                    out.push((s, i));
                }
                Err(true) => return Err(true),
                Err(false) => {
                    self.pos = before;
                    return Ok(com);
                }
            }
        }
    }

    fn sep_end_by1(&mut self, a: &A, s: &A) -> R {
        let (first, mut com) = match self.run(a) {
            R::Ok(v, c) => (v, c),
            e => return e,
        };
        let mut out = vec![first];
        loop {
            let before = self.pos;
            match self.run(s) {
                R::Ok(_, c) => {
                    com |= c;
                    let before = self.pos;
                    match self.run(a) {
                        R::Ok(v, c) => {
                            com |= c;
                            out.push(v);
                        }
                        R::Err(true) => return R::Err(true),
                        R::Err(false) => {
                            self.pos = before;
                            break;
                        }
                    }
                }
                R::Err(true) => return R::Err(true),
                R::Err(false) => {
                    self.pos = before;
                    break;
                }
            }
        }
        R::Ok(Val::L(out), com)
    }

    fn chainr(&mut self, a: &A, o: &A) -> R {
        let (mut l, mut com) = match self.run(a) {
            R::Ok(v, c) => (v, c),
            e => return e,
        };
        let before = self.pos;
        match self.run(o) {
            R::Ok(ov, c) => match self.chainr(a, o) {
                R::Ok(r, c2) => {
                    com |= c | c2;
                    l = Val::F(op_char(&ov), Box::new(l), Box::new(r));
                    R::Ok(l, com)
                }
                R::Err(c2) => {
                    if c || c2 {
                        R::Err(true)
                    } else {
                        self.pos = before;
                        R::Ok(l, com)
                    }
                }
            },
            R::Err(true) => R::Err(true),
            R::Err(false) => {
                self.pos = before;
                R::Ok(l, com)
            }
        }
    }

    pub fn run(&mut self, a: &A) -> R {
        use A::*;
        if self.fuel == 0 {
            panic!("{} model out of fuel in {:?} at {} of {:?}", super::runner::HARNESS_BUG, a, self.pos, self.inp.iter().collect::<String>());
        }
        self.fuel -= 1;
        let start = self.pos;
        let text = |m: &Self, from: usize| -> String { m.inp[from..m.pos].iter().collect() };
        match a {
            Any => self.tok(|_| true),
            Script(v, sticky) => {
                let i = self.calls.get(&(a as *const A)).copied().unwrap_or(0);
                let (n, ok) = v.get(i).copied().unwrap_or((0, false));
                self.calls.insert(a, i + 1);
                let full = (0..n).all(|_| matches!(self.tok(|_| true), R::Ok(..)));
                if ok && full {
                    R::Ok(Val::N(i as i64 + 1), n > 0)
                } else {
                    if *sticky {
                        self.calls.insert(a, v.len());
                    }
                    R::Err(self.pos > start)
                }
            }
            Tok(t) => self.tok(|c| c == *t),
            OneOf(s) => self.tok(|c| s.contains(c)),
            NoneOf(s) => self.tok(|c| !s.contains(c)),
            Sat(p) => self.tok(|c| p.test(c)),
            SatMap(p) => match self.tok(|c| p.test(c)) {
                R::Ok(v, c) => R::Ok(Val::L(vec![v]), c),
                e => e,
            },
            Lit(s) | Toks(s) | TokCmp(s) => self.lit(s, |a, b| a == b),
            LitCmp(s) => self.lit(s, |a, b| a.eq_ignore_ascii_case(&b)),
            Cls(k) => self.tok(|c| k.test(c)),
            Crlf => match self.lit("\r\n", |a, b| a == b) {
                R::Ok(_, c) => R::Ok(Val::C('\n'), c),
                e => e,
            },
            Newline => match self.tok(|c| c == '\n') {
                R::Err(_) => match self.lit("\r\n", |a, b| a == b) {
                    R::Ok(_, c) => R::Ok(Val::C('\n'), c),
                    e => e,
                },
                ok => ok,
            },
            Spaces => {
                while matches!(self.tok(|c| c.is_whitespace()), R::Ok(..)) {}
                R::Ok(Val::U, self.pos > start)
            }
            Eof => {
                if self.peek().is_none() {
                    R::Ok(Val::U, false)
                } else {
                    R::Err(false)
                }
            }
            Value(n) | Produce(n) => R::Ok(Val::N(*n), false),
            Unexp(_) => R::Err(false),
            Rng(r) => match r {
                // range parsers decide on the whole range: they fail without committing
                RLeaf::Range(s) => match self.lit(s, |a, b| a == b) {
                    R::Err(_) => {
                        self.pos = start;
                        R::Err(false)
                    }
                    ok => ok,
                },
                // bytes, which must end between two characters
                RLeaf::Take(n) => {
                    let (mut i, mut size) = (start, 0);
                    while size < *n && i < self.inp.len() {
                        size += (self.width)(self.inp[i]);
                        i += 1;
                    }
                    if size < *n {
                        self.hit_end = true;
                        self.far = self.inp.len();
                        R::Err(false)
                    } else if size > *n {
                        R::Err(false)
                    } else {
                        self.pos = i;
                        self.far = self.far.max(self.pos);
                        R::Ok(Val::S(text(self, start)), *n > 0)
                    }
                }
                RLeaf::TakeWhile(p) => {
                    while matches!(self.tok(|c| p.test(c)), R::Ok(..)) {}
                    R::Ok(Val::S(text(self, start)), self.pos > start)
                }
                RLeaf::TakeWhile1(p) => {
                    while matches!(self.tok(|c| p.test(c)), R::Ok(..)) {}
                    if self.pos > start {
                        R::Ok(Val::S(text(self, start)), true)
                    } else {
                        R::Err(false)
                    }
                }
                RLeaf::TakeUntil(s) => {
                    let needle: Vec<char> = s.chars().collect();
                    let mut i = start;
                    loop {
                        if self.inp.len() - i < needle.len() {
                            self.hit_end = true;
                            self.far = self.inp.len();
                            return R::Err(false);
                        }
                        if self.inp[i..i + needle.len()] == needle[..] {
                            self.pos = i;
                            self.far = self.far.max(i + needle.len());
                            return R::Ok(Val::S(text(self, start)), i > start);
                        }
                        i += 1;
                    }
                }
            },
            Seq(v) | Iterate(v) => {
                let v: Vec<&A> = v.iter().collect();
                match self.seq(&v) {
                    Ok((v, c)) => R::Ok(Val::L(v), c),
                    Err(c) => R::Err(c),
                }
            }
            With(x, y) => match self.seq(&[x, y]) {
                Ok((mut v, c)) => R::Ok(v.remove(1), c),
                Err(c) => R::Err(c),
            },
            Skip(x, y) => match self.seq(&[x, y]) {
                Ok((mut v, c)) => R::Ok(v.remove(0), c),
                Err(c) => R::Err(c),
            },
            Between(x, y, z) => match self.seq(&[x, z, y]) {
                Ok((mut v, c)) => R::Ok(v.remove(1), c),
                Err(c) => R::Err(c),
            },
            StructP(x, y, z) => match self.seq(&[x, y, z]) {
                Ok((mut v, c)) => {
                    v.remove(1);
                    R::Ok(Val::L(v), c)
                }
                Err(c) => R::Err(c),
            },
            Then(x, v) | ThenPartial(x, v) | ThenRef(x, v) => match self.run(x) {
                R::Ok(o, c) => {
                    let n = &v[o.hash() % v.len()];
                    match self.run(n) {
                        R::Ok(p, c2) => R::Ok(
                            if matches!(a, ThenRef(..)) { Val::L(vec![o, p]) } else { p },
                            c || c2,
                        ),
                        R::Err(c2) => R::Err(c || c2),
                    }
                }
                e => e,
            },
            Choice(v) | ChoiceVec(v) | OrMacro(v) => self.choice(&mut v.iter()),
            Or(x, y) => self.choice(&mut [&**x, &**y].into_iter()),
            Opt(x) => match self.run(x) {
                R::Ok(v, c) => R::Ok(Val::O(Some(Box::new(v))), c),
                R::Err(true) => R::Err(true),
                R::Err(false) => {
                    self.pos = start;
                    R::Ok(Val::O(None), false)
                }
            },
            Attempt(x) => match self.run(x) {
                R::Err(c) => {
                    if c {
                        self.backtracked = true;
                    }
                    self.pos = start;
                    R::Err(false)
                }
                ok => ok,
            },
            LookAhead(x) => match self.run(x) {
                R::Ok(v, _) => {
                    self.reset(start);
                    R::Ok(v, false)
                }
                e => e,
            },
            NotFollowed(x) => {
                let r = self.run(x);
                self.reset(start);
                match r {
                    R::Ok(..) => R::Err(false),
                    R::Err(_) => R::Ok(Val::U, false),
                }
            }
            Map(x) => match self.run(x) {
                R::Ok(v, c) => R::Ok(Val::L(vec![v, Val::N(1)]), c),
                e => e,
            },
            AndThen(x) => match self.run(x) {
                R::Ok(v, c) => {
                    if and_then_ok(&v) {
                        R::Ok(v, c)
                    } else {
                        R::Err(c)
                    }
                }
                e => e,
            },
            FlatMap(x) => match self.run(x) {
                R::Ok(v, c) => {
                    if flat_map_ok(&v) {
                        R::Ok(v, c)
                    } else {
                        R::Err(c)
                    }
                }
                e => e,
            },
            // committed exactly if something was consumed
            RRecognize(x) => match self.run(x) {
                R::Ok(..) => R::Ok(Val::S(text(self, start)), self.pos > start),
                e => e,
            },
            Recognize(x) => match self.run(x) {
                R::Ok(_, c) => R::Ok(Val::S(text(self, start)), c),
                e => e,
            },
            RRecognizeVal(x) => match self.run(x) {
                R::Ok(v, _) => R::Ok(Val::L(vec![Val::S(text(self, start)), v]), self.pos > start),
                e => e,
            },
            Many(x) => match self.many(x, usize::MAX) {
                Ok((v, c)) => R::Ok(Val::L(v), c),
                Err(c) => R::Err(c),
            },
            SkipMany(x) => match self.many(x, usize::MAX) {
                Ok((_, c)) => R::Ok(Val::U, c),
                Err(c) => R::Err(c),
            },
            Many1(x) | SkipMany1(x) => match self.run(x) {
                R::Ok(f, c) => match self.many(x, usize::MAX) {
                    Ok((v, c2)) => R::Ok(
                        if matches!(a, Many1(_)) {
                            let mut o = vec![f];
                            o.extend(v);
                            Val::L(o)
                        } else {
                            Val::U
                        },
                        c || c2,
                    ),
                    Err(c) => R::Err(c),
                },
                e => e,
            },
            // "up to n times"
            Count(n, x) => match self.many(x, *n) {
                Ok((v, c)) => R::Ok(Val::L(v), c),
                Err(c) => R::Err(c),
            },
            SkipCount(n, x) => match self.many(x, *n) {
                Ok((_, c)) => R::Ok(Val::U, c),
                Err(c) => R::Err(c),
            },
            CountMM(lo, hi, x) | SkipCountMM(lo, hi, x) => match self.many(x, *hi) {
                Ok((v, c)) => {
                    if v.len() < *lo {
                        R::Err(c)
                    } else if matches!(a, CountMM(..)) {
                        R::Ok(Val::L(v), c)
                    } else {
                        R::Ok(Val::U, c)
                    }
                }
                Err(c) => R::Err(c),
            },
            SepBy(x, y) | SepBy1(x, y) => match self.run(x) {
                R::Ok(f, c) => {
                    let mut rest = vec![];
                    match self.sep_rest(y, x, &mut rest) {
                        Ok(c2) => {
                            let mut o = vec![f];
                            o.extend(rest.into_iter().map(|x| x.1));
                            R::Ok(Val::L(o), c || c2)
                        }
                        Err(c) => R::Err(c),
                    }
                }
                R::Err(false) if matches!(a, SepBy(..)) => {
                    self.pos = start;
                    R::Ok(Val::L(vec![]), false)
                }
                e => e,
            },
            SepEndBy(x, y) => match self.sep_end_by1(x, y) {
                R::Err(false) => {
                    self.pos = start;
                    R::Ok(Val::L(vec![]), false)
                }
                r => r,
            },
            SepEndBy1(x, y) => self.sep_end_by1(x, y),
            Chainl1(x, y) => match self.run(x) {
                R::Ok(f, c) => {
                    let mut rest = vec![];
                    match self.sep_rest(y, x, &mut rest) {
                        Ok(c2) => R::Ok(
                            rest.into_iter()
                                .fold(f, |l, (o, r)| Val::F(op_char(&o), Box::new(l), Box::new(r))),
                            c || c2,
                        ),
                        Err(c) => R::Err(c),
                    }
                }
                e => e,
            },
            Chainr1(x, y) => self.chainr(x, y),
            TakeUntil(x) | SkipUntil(x) => {
                let mut com = false;
                loop {
                    let before = self.pos;
                    match self.run(x) {
                        R::Ok(_, c) => {
                            self.reset(before);
                            // the terminator counts towards the commit status although it is not
                            // consumed
                            return R::Ok(
                                if matches!(a, TakeUntil(_)) { Val::S(text(self, start)) } else { Val::U },
                                com || c,
                            );
                        }
                        R::Err(true) => return R::Err(true),
                        R::Err(false) => {
                            self.pos = before;
                            match self.tok(|_| true) {
                                R::Ok(..) => com = true,
                                R::Err(_) => return R::Err(com),
                            }
                        }
                    }
                }
            }
            RepeatUntil(x, y) | RepeatSkipUntil(x, y) => {
                let mut com = false;
                let mut out = vec![];
                loop {
                    let before = self.pos;
                    match self.run(y) {
                        R::Ok(_, c) => {
                            self.reset(before);
                            return R::Ok(
                                if matches!(a, RepeatUntil(..)) { Val::L(out) } else { Val::U },
                                com || c,
                            );
                        }
                        R::Err(true) => return R::Err(true),
                        R::Err(false) => {
                            self.pos = before;
                            match self.run(x) {
                                R::Ok(v, c) => {
                                    com |= c;
                                    out.push(v);
                                }
                                R::Err(c) => return R::Err(com || c),
                            }
                        }
                    }
                }
            }
            Escaped(x, e, y) => {
                let mut com = false;
                loop {
                    let before = self.pos;
                    match self.run(x) {
                        R::Ok(_, c) => com |= c,
                        R::Err(true) => return R::Err(true),
                        R::Err(false) => {
                            self.pos = before;
                            match self.tok(|c| c == *e) {
                                R::Ok(..) => {
                                    com = true;
                                    if let R::Err(_) = self.run(y) {
                                        return R::Err(true);
                                    }
                                }
                                R::Err(_) => {
                                    self.pos = before;
                                    return R::Ok(Val::U, com);
                                }
                            }
                        }
                    }
                }
            }
            IterateShared(n, x) => {
                let v: Vec<&A> = (0..*n).map(|_| &**x).collect();
                match self.seq(&v) {
                    Ok((v, c)) => R::Ok(Val::L(v), c),
                    Err(c) => R::Err(c),
                }
            }
            W(w, x) => match w {
                Wrap::Ignore => match self.run(x) {
                    R::Ok(_, c) => R::Ok(Val::U, c),
                    e => e,
                },
                Wrap::FromIter => match self.many(x, 2) {
                    Ok((v, c)) => R::Ok(Val::L(v), c),
                    Err(c) => R::Err(c),
                },
                _ => self.run(x),
            },
        }
    }
}
