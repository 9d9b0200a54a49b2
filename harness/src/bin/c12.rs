#[path = "../h/mod.rs"]
#[macro_use]
mod h;
use combine::stream::{easy, PointerOffset};
use combine::ParseResult::*;
use combine::Parser;
use h::ast::*;
use h::build::*;
use h::gen::*;
use h::model::*;
use h::runner::*;
use std::collections::BTreeSet;

type Easy = easy::Stream<&'static str>;
str_src!(Easy, PointerOffset::new(0));

type Set = BTreeSet<String>;
fn one(s: impl ToString) -> Set {
    std::iter::once(s.to_string()).collect()
}
fn union(a: &Set, b: &Set) -> Set {
    a.union(b).cloned().collect()
}
fn tk(c: char) -> String {
    format!("t:{}", c)
}
fn st(s: &str) -> String {
    format!("s:{}", s)
}

/// What is expected at a position: at least `low`, at most `up`
#[derive(Clone, Debug, Default)]
struct X {
    low: Set,
    up: Set,
    /// those of `low` which are labels given to parsers that consumed nothing: forgotten once a
    /// sequence around them has consumed something
    soft: Set,
}
impl X {
    fn exact(s: Set) -> X {
        X { up: s.clone(), low: s, soft: Set::new() }
    }
    fn join(&self, o: &X) -> X {
        X {
            low: union(&self.low, &o.low),
            up: union(&self.up, &o.up),
            soft: union(&self.soft, &o.soft),
        }
    }
    fn harden(mut self) -> X {
        self.low = self.low.difference(&self.soft).cloned().collect();
        self.soft.clear();
        self
    }
    fn label(l: &str) -> X {
        X { soft: one(st(l)), ..X::exact(one(st(l))) }
    }
    fn loose(mut self) -> X {
        self.low.clear();
        self
    }
    fn upto(mut self, s: &Set) -> X {
        self.up.extend(s.iter().cloned());
        self
    }
}
#[derive(Clone, Debug)]
struct Fail {
    com: bool,
    /// the furthest position a failed alternative stopped at
    pos: usize,
    x: X,
    /// the token at `pos` has to be named
    tok: bool,
    /// further texts which have to be named as unexpected, and messages
    says: Set,
    /// an attempt which failed further on is part of it
    deep: bool,
}
#[derive(Clone, Debug)]
enum E {
    /// what could have continued what was parsed
    Ok(Val, bool, X),
    Err(Fail),
}

/// Everything `a` can list when it (or its end) is asked what it expected
fn labels(a: &A) -> Set {
    use A::*;
    match a {
        Tok(c) => one(tk(*c)),
        OneOf(s) => s.chars().map(tk).collect(),
        Lit(s) | LitCmp(s) => one(st(s)),
        Toks(s) => one(st(s)),
        Cls(c) => one(st(c.name())),
        Crlf => one(st("crlf newline")),
        Newline => [st("crlf newline"), st("lf newline")].into_iter().collect(),
        Spaces => [st("whitespace"), st("whitespaces")].into_iter().collect(),
        Eof => one(st("end of input")),
        Rng(RLeaf::Range(s)) => one(format!("r:{}", s)),
        W(Wrap::Silent, _) => Set::new(),
        W(Wrap::Expected(l), x) => {
            let mut s = labels(x);
            s.insert(st(l));
            s
        }
        NotFollowed(_) => Set::new(),
        _ => {
            let mut s = Set::new();
            for k in a.kids() {
                s.extend(labels(k))
            }
            if let Escaped(_, c, _) = a {
                s.insert(tk(*c));
            }
            s
        }
    }
}

/// Which parser follows is decided while parsing
fn has_then(a: &A) -> bool {
    a.any(&|a| {
        use A::*;
        match a {
            Then(..) | ThenPartial(..) | ThenRef(..) | W(Wrap::Dispatch, _) => true,
            Choice(_) | ChoiceVec(_) | OrMacro(_) | Or(..) => has_seq(a),
            _ => false,
        }
    })
}
fn has_seq(a: &A) -> bool {
    a.any(&|a| {
        use A::*;
        matches!(
            a,
            Seq(_)
                | With(..)
                | Skip(..)
                | Between(..)
                | StructP(..)
                | Then(..)
                | ThenPartial(..)
                | ThenRef(..)
                | SepBy(..)
                | SepBy1(..)
                | Chainl1(..)
                | Many1(_)
                | SkipMany1(_)
                | W(Wrap::Dispatch, _)
        )
    })
}

/// Some sequence in `a` has a choice as its last parser
fn ends_in_choice(a: &A) -> bool {
    fn choice_last(a: &A) -> bool {
        use A::*;
        match a {
            Choice(_) | ChoiceVec(_) | OrMacro(_) | Or(..) | Newline => true,
            _ => a.kids().iter().any(|a| choice_last(a)),
        }
    }
    a.any(&|a| {
        use A::*;
        match a {
            Seq(v) => v.last().map_or(false, choice_last),
            With(_, x) | Skip(_, x) | Between(_, x, _) | StructP(_, _, x) => choice_last(x),
            Then(_, v) | ThenPartial(_, v) | ThenRef(_, v) => v.iter().any(choice_last),
            _ => false,
        }
    })
}

struct I<'a> {
    m: M<'a>,
    /// what stopped the last repetition
    stop: Option<Fail>,
}
impl<'a> I<'a> {
    fn leaf(&mut self, a: &A) -> E {
        let start = self.m.pos;
        match self.m.run(a) {
            R::Ok(v, c) => E::Ok(v, c, X::default()),
            R::Err(c) => E::Err(Fail { com: c, pos: start, x: X::exact(labels(a)), tok: !c, says: Set::new(), deep: false }),
        }
    }
    fn seq(&mut self, v: &[&A]) -> Result<(Vec<Val>, bool, X), Fail> {
        let (mut com, mut out, mut pend, mut last) = (false, vec![], X::default(), false);
        let mut lossy = false;
        for a in v {
            match self.run(a) {
                E::Ok(x, c, p) => {
                    last = c;
                    lossy = !c && (lossy || ends_in_choice(a));
                    pend = if c { p } else { pend.join(&p) };
                    com |= c;
                    out.push(x);
                }
                E::Err(mut f) => {
                    // listed in known-findings.txt: key choice-ends-sequence
                    if lossy && !f.com {
                        f.x = f.x.loose();
                        f.says.clear();
                    }
                    return Err(Self::after(f, com, &pend));
                }
            }
        }
        // a sequence which consumed something is only asked for what its last parser could continue with
        Ok((out, com, if com && !last { pend.loose() } else if com { pend.harden() } else { pend }))
    }
    /// `f` behind something that could have been continued with `pend`
    fn after(mut f: Fail, com: bool, pend: &X) -> Fail {
        if f.com || f.deep {
            f.x = f.x.upto(&pend.up);
        } else {
            f.x = f.x.join(pend);
        }
        f.com |= com;
        f
    }
    fn choice(&mut self, v: &mut dyn Iterator<Item = &A>, all: Set) -> E {
        let start = self.m.pos;
        let mut err: Option<Fail> = None;
        let mut passed = X::default();
        for a in v {
            self.m.pos = start;
            match self.run(a) {
                E::Err(f) if !f.com => {
                    if !f.deep && !has_seq(a) {
                        passed = passed.join(&f.x);
                    }
                    err = Some(match err {
                        None => f,
                        Some(e) => {
                            let (far, near) = if e.pos > f.pos { (e.clone(), f.clone()) } else { (f.clone(), e.clone()) };
                            let same = far.pos == near.pos;
                            Fail {
                                com: false,
                                pos: far.pos,
                                x: if same { far.x.join(&near.x) } else { far.x.upto(&near.x.up) },
                                tok: far.tok || (same && near.tok),
                                says: if same { union(&far.says, &near.says) } else { far.says },
                                deep: far.deep || near.deep,
                            }
                        }
                    });
                }
                E::Err(mut f) => {
                    f.x = f.x.upto(&all);
                    return E::Err(f);
                }
                // nor which alternative was taken
                E::Ok(v, true, p) => return E::Ok(v, true, p.loose().upto(&all)),
                E::Ok(v, false, p) => {
                    // which parser of an alternative failed is not remembered
                    let mut p = if has_seq(a) { p.loose() } else { p };
                    p = p.join(&passed);
                    return E::Ok(v, false, p.upto(&all));
                }
            }
        }
        self.m.pos = start;
        let mut e = err.unwrap_or(Fail { com: false, pos: start, x: X::default(), tok: false, says: Set::new(), deep: false });
        e.x = e.x.upto(&all);
        E::Err(e)
    }
    /// Runs `a` until it fails, at most `max` times
    fn many(&mut self, a: &A, max: usize) -> Result<(Vec<Val>, bool, X), Fail> {
        let (mut com, mut out, mut pend) = (false, vec![], X::default());
        while out.len() < max {
            let before = self.m.pos;
            match self.run(a) {
                E::Ok(v, c, p) => {
                    com |= c;
                    pend = if has_seq(a) { p.loose() } else { p };
                    out.push(v);
                }
                E::Err(f) if f.com => return Err(Self::after(f, true, &pend)),
                E::Err(f) => {
                    self.m.pos = before;
                    self.stop = Some(f.clone());
                    if !f.deep && !has_then(a) {
                        pend = pend.join(&f.x);
                    }
                    break;
                }
            }
        }
        Ok((out, com, pend.upto(&labels(a))))
    }
    fn sep_rest(&mut self, sep: &A, item: &A, pend: X) -> Result<(Vec<(Val, Val)>, bool, X), Fail> {
        let (mut com, mut out, mut pend) = (false, vec![], pend.loose());
        loop {
            let before = self.m.pos;
            match self.seq(&[sep, item]) {
                Ok((mut v, c, p)) => {
                    com |= c;
                    let i = v.pop().unwrap();
                    let s = v.pop().unwrap();
                    out.push((s, i));
                    pend = p.loose();
                }
                Err(f) if f.com => return Err(f),
                Err(f) => {
                    self.m.pos = before;
                    // the item behind a separator which may be empty is not remembered
                    if let (E::Err(f), false) = (self.run(sep), f.deep || has_seq(sep)) {
                        pend = pend.join(&f.x);
                    }
                    self.m.pos = before;
                    return Ok((out, com, if com { pend } else { pend.loose() }.upto(&labels(sep)).upto(&labels(item))));
                }
            }
        }
    }
    fn chainr(&mut self, x: &A, y: &A) -> E {
        let all = union(&labels(x), &labels(y));
        match self.run(x) {
            E::Ok(l, com, p) => {
                let before = self.m.pos;
                match self.run(y) {
                    E::Ok(o, c, p) => match self.chainr(x, y) {
                        E::Ok(r, c2, p) => E::Ok(Val::F(op_char(&o), Box::new(l), Box::new(r)), com || c || c2, p.loose().upto(&all)),
                        E::Err(f) if c || f.com => E::Err(Self::after(f, true, &p.loose().upto(&all))),
                        E::Err(_) => {
                            self.m.pos = before;
                            E::Ok(l, com, X::default().upto(&all))
                        }
                    },
                    E::Err(f) if f.com => E::Err(Self::after(f, true, &p.loose().upto(&all))),
                    E::Err(_) => {
                        self.m.pos = before;
                        E::Ok(l, com, X::default().upto(&all))
                    }
                }
            }
            e => e,
        }
    }
    /// The outcome of the reference interpreter, nothing said about what is expected
    fn opaque(&mut self, a: &A) -> E {
        let start = self.m.pos;
        match self.m.run(a) {
            R::Ok(v, c) => E::Ok(v, c, X::default().upto(&labels(a))),
            R::Err(c) => E::Err(Fail {
                com: c,
                pos: usize::MAX - start,
                x: X::default().upto(&labels(a)),
                tok: false,
                says: Set::new(),
                deep: false,
            }),
        }
    }

    fn run(&mut self, a: &A) -> E {
        use A::*;
        let start = self.m.pos;
        let map = |e: E, g: &mut dyn FnMut(Val) -> Val| match e {
            E::Ok(v, c, p) => E::Ok(g(v), c, p),
            e => e,
        };
        match a {
            Spaces => {
                let r = self.m.run(a);
                match r {
                    R::Ok(v, c) => E::Ok(
                        v,
                        c,
                        if c { X::default().upto(&labels(a)) } else { X::label("whitespaces").upto(&labels(a)) },
                    ),
                    _ => unreachable!(),
                }
            }
            Eof => match self.leaf(a) {
                E::Ok(v, c, _) => E::Ok(v, c, X::default().upto(&labels(a))),
                e => e,
            },
            // '\r' commits to the newline
            Crlf | Newline => match self.m.run(a) {
                R::Ok(v, c) => E::Ok(v, c, X::default().upto(&labels(a))),
                R::Err(c) => E::Err(Fail {
                    com: c,
                    pos: start + c as usize,
                    x: X::exact(if c { one(st("lf newline")) } else { labels(a) }),
                    tok: true,
                    says: Set::new(),
                    deep: false,
                }),
            },
            Unexp(s) => E::Err(Fail { com: false, pos: start, x: X::default(), tok: false, says: one(st(s)), deep: false }),
            Any | Tok(_) | OneOf(_) | NoneOf(_) | Sat(_) | SatMap(_) | Lit(_) | LitCmp(_) | Toks(_) | TokCmp(_) | Cls(_)
            | Value(_) | Produce(_) => self.leaf(a),
            Rng(RLeaf::Range(_)) => self.leaf(a),
            // they expect nothing in particular
            Rng(RLeaf::Take(_) | RLeaf::TakeUntil(_)) => {
                self.m.hit_end = false;
                match self.m.run(a) {
                    R::Ok(v, c) => E::Ok(v, c, X::default()),
                    // the end of the input is further on
                    R::Err(c) => {
                        let says = if self.m.hit_end { st("end of input") } else { "m:unexpected slice on character boundary".into() };
                        E::Err(Fail { com: c, pos: start, x: X::default(), tok: false, says: one(says), deep: false })
                    }
                }
            }
            Rng(RLeaf::TakeWhile(_) | RLeaf::TakeWhile1(_)) => self.leaf(a),
            Seq(v) => {
                let v: Vec<&A> = v.iter().collect();
                match self.seq(&v) {
                    Ok((v, c, p)) => E::Ok(Val::L(v), c, p),
                    Err(f) => E::Err(f),
                }
            }
            With(x, y) | Skip(x, y) => match self.seq(&[x, y]) {
                Ok((mut v, c, p)) => E::Ok(v.remove(matches!(a, With(..)) as usize), c, p),
                Err(f) => E::Err(f),
            },
            Between(x, y, z) => match self.seq(&[x, z, y]) {
                Ok((mut v, c, p)) => E::Ok(v.remove(1), c, p),
                Err(f) => E::Err(f),
            },
            StructP(x, y, z) => match self.seq(&[x, y, z]) {
                Ok((mut v, c, p)) => {
                    v.remove(1);
                    E::Ok(Val::L(v), c, p)
                }
                Err(f) => E::Err(f),
            },
            Then(x, v) | ThenPartial(x, v) | ThenRef(x, v) => match self.run(x) {
                E::Ok(o, c, p) => {
                    let n = &v[o.hash() % v.len()];
                    match self.run(n) {
                        E::Ok(q, c2, p2) => E::Ok(
                            if matches!(a, ThenRef(..)) { Val::L(vec![o, q]) } else { q },
                            c || c2,
                            p2.loose().upto(&labels(a)),
                        ),
                        E::Err(f) => E::Err(Self::after(f, c, &p.loose())),
                    }
                }
                e => e,
            },
            Choice(v) | ChoiceVec(v) | OrMacro(v) => self.choice(&mut v.iter(), labels(a)),
            Or(x, y) => self.choice(&mut [&**x, &**y].into_iter(), labels(a)),
            Opt(x) => match self.run(x) {
                E::Ok(v, c, p) => E::Ok(Val::O(Some(Box::new(v))), c, p),
                E::Err(f) if f.com => E::Err(f),
                E::Err(f) => {
                    self.m.pos = start;
                    let x2 = if f.deep || has_then(x) { X::default() } else { f.x };
                    E::Ok(Val::O(None), false, x2.upto(&labels(x)))
                }
            },
            Attempt(x) => match self.run(x) {
                E::Err(mut f) => {
                    self.m.pos = start;
                    if f.com || f.pos != start {
                        f.x = f.x.upto(&labels(x));
                    }
                    // these do not say again what they wanted once they were passed by
                    if f.com && x.any(&|a| matches!(a, TakeUntil(_) | SkipUntil(_) | RepeatUntil(..) | RepeatSkipUntil(..))) {
                        f.x = f.x.loose();
                    }
                    f.com = false;
                    f.deep |= f.pos != start;
                    E::Err(f)
                }
                e => e,
            },
            LookAhead(x) => match self.run(x) {
                E::Ok(v, _, p) => {
                    self.m.pos = start;
                    E::Ok(v, false, p.loose().upto(&labels(x)))
                }
                e => e,
            },
            NotFollowed(x) => {
                let r = self.run(x);
                self.m.pos = start;
                match r {
                    E::Ok(..) => E::Err(Fail {
                        com: false,
                        pos: start,
                        x: X::default(),
                        // an existing test wants nothing at all at the end of the input
                        tok: start < self.m.inp.len(),
                        says: Set::new(),
                        deep: false,
                    }),
                    E::Err(_) => E::Ok(Val::U, false, X::default()),
                }
            }
            Map(x) => map(self.run(x), &mut |v| Val::L(vec![v, Val::N(1)])),
            AndThen(x) => match self.run(x) {
                E::Ok(v, c, p) => {
                    if and_then_ok(&v) {
                        E::Ok(v, c, p)
                    } else {
                        E::Err(Fail {
                            com: c,
                            pos: start,
                            x: X::default().upto(&labels(x)),
                            tok: false,
                            says: one("m:refused"),
                            deep: false,
                        })
                    }
                }
                e => e,
            },
            Recognize(x) | RRecognize(x) => {
                let r = self.run(x);
                let text: String = self.m.inp[start..self.m.pos.max(start)].iter().collect();
                match r {
                    E::Ok(_, c, p) => {
                        E::Ok(Val::S(text), if matches!(a, RRecognize(_)) { self.m.pos > start } else { c }, p)
                    }
                    e => e,
                }
            }
            RRecognizeVal(x) => {
                let r = self.run(x);
                let text: String = self.m.inp[start..self.m.pos.max(start)].iter().collect();
                match r {
                    E::Ok(v, _, p) => E::Ok(Val::L(vec![Val::S(text), v]), self.m.pos > start, p),
                    e => e,
                }
            }
            Many(x) => match self.many(x, usize::MAX) {
                Ok((v, c, p)) => E::Ok(Val::L(v), c, p),
                Err(f) => E::Err(f),
            },
            SkipMany(x) => match self.many(x, usize::MAX) {
                Ok((_, c, p)) => E::Ok(Val::U, c, p),
                Err(f) => E::Err(f),
            },
            Many1(x) | SkipMany1(x) => match self.run(x) {
                E::Ok(f, c, _) => match self.many(x, usize::MAX) {
                    Ok((v, c2, p)) => {
                        let mut o = vec![f];
                        o.extend(v);
                        E::Ok(if matches!(a, Many1(_)) { Val::L(o) } else { Val::U }, c || c2, p)
                    }
                    Err(f) => E::Err(f),
                },
                e => e,
            },
            Count(n, x) | SkipCount(n, x) => match self.many(x, *n) {
                Ok((v, c, p)) => {
                    E::Ok(if matches!(a, Count(..)) { Val::L(v) } else { Val::U }, c, p.loose().upto(&labels(x)))
                }
                Err(f) => E::Err(f),
            },
            CountMM(lo, hi, x) | SkipCountMM(lo, hi, x) => match self.many(x, *hi) {
                Ok((v, c, p)) => {
                    if v.len() < *lo {
                        let mut f = self.stop.take().unwrap();
                        f.com = c;
                        // once committed only the number of missing elements is told
                        if c {
                            f.x = f.x.loose();
                            f.says.clear();
                        } else if has_seq(x) {
                            f.x = f.x.loose();
                            f.says.clear();
                        }
                        f.x = f.x.upto(&labels(x));
                        f.tok = false;
                        E::Err(f)
                    } else {
                        E::Ok(if matches!(a, CountMM(..)) { Val::L(v) } else { Val::U }, c, p.loose().upto(&labels(x)))
                    }
                }
                Err(f) => E::Err(f),
            },
            SepBy(x, y) | SepBy1(x, y) => match self.run(x) {
                E::Ok(f, c, p) => match self.sep_rest(y, x, p) {
                    Ok((rest, c2, p)) => {
                        let mut o = vec![f];
                        o.extend(rest.into_iter().map(|x| x.1));
                        E::Ok(Val::L(o), c || c2, p)
                    }
                    Err(f) => E::Err(f),
                },
                E::Err(f) if !f.com && matches!(a, SepBy(..)) => {
                    self.m.pos = start;
                    E::Ok(Val::L(vec![]), false, if f.deep || has_then(x) { X::default() } else { f.x }.upto(&labels(a)))
                }
                e => e,
            },
            Chainl1(x, y) => match self.run(x) {
                E::Ok(f, c, p) => match self.sep_rest(y, x, p) {
                    Ok((rest, c2, p)) => E::Ok(
                        rest.into_iter().fold(f, |l, (o, r)| Val::F(op_char(&o), Box::new(l), Box::new(r))),
                        c || c2,
                        p.loose(),
                    ),
                    Err(f) => E::Err(f),
                },
                e => e,
            },
            W(w, x) => match w {
                Wrap::Silent => match self.run(x) {
                    E::Ok(v, c, _) => E::Ok(v, c, X::default()),
                    E::Err(mut f) => {
                        f.x = X::default();
                        f.says.clear();
                        E::Err(f)
                    }
                },
                Wrap::Expected(l) => match self.run(x) {
                    E::Ok(v, c, p) => {
                        let own = X::label(l).upto(&labels(x));
                        E::Ok(v, c, if c { p.harden().upto(&own.up) } else { own })
                    }
                    E::Err(mut f) => {
                        if !f.com {
                            f.x = X::label(l);
                        }
                        E::Err(f)
                    }
                },
                Wrap::Message(s) => match self.run(x) {
                    E::Err(mut f) => {
                        f.says.insert(format!("m:{}", s));
                        E::Err(f)
                    }
                    e => e,
                },
                Wrap::Dispatch => match self.run(x) {
                    E::Ok(v, c, p) => E::Ok(v, c, p.loose()),
                    e => e,
                },
                Wrap::Ignore => map(self.run(x), &mut |_| Val::U),
                _ => self.run(x),
            },
            SepEndBy(x, y) | SepEndBy1(x, y) => match self.run(x) {
                E::Ok(f, c, p) => {
                    let (mut com, mut out, mut pend) = (c, vec![f], p.loose());
                    let all = union(&labels(x), &labels(y));
                    loop {
                        let before = self.m.pos;
                        match self.run(y) {
                            E::Ok(_, c, p) => {
                                com |= c;
                                pend = p.loose().upto(&all);
                                let before = self.m.pos;
                                match self.run(x) {
                                    E::Ok(v, c, p) => {
                                        com |= c;
                                        out.push(v);
                                        pend = p.loose().upto(&all);
                                    }
                                    E::Err(f) if f.com => return E::Err(Self::after(f, true, &pend)),
                                    E::Err(_) => {
                                        self.m.pos = before;
                                        break;
                                    }
                                }
                            }
                            E::Err(f) if f.com => return E::Err(Self::after(f, true, &pend)),
                            E::Err(_) => {
                                self.m.pos = before;
                                break;
                            }
                        }
                    }
                    E::Ok(Val::L(out), com, pend.upto(&all))
                }
                E::Err(f) if !f.com && matches!(a, SepEndBy(..)) => {
                    self.m.pos = start;
                    E::Ok(Val::L(vec![]), false, if f.deep || has_then(x) { X::default() } else { f.x }.upto(&labels(a)))
                }
                e => e,
            },
            Chainr1(x, y) => self.chainr(x, y),
            TakeUntil(x) | SkipUntil(x) => {
                let mut com = false;
                loop {
                    let before = self.m.pos;
                    match self.run(x) {
                        E::Ok(_, c, _) => {
                            let text: String = self.m.inp[start..before].iter().collect();
                            self.m.pos = before;
                            let v = if matches!(a, TakeUntil(_)) { Val::S(text) } else { Val::U };
                            return E::Ok(v, com || c, X::default().upto(&labels(x)));
                        }
                        E::Err(f) if f.com => return E::Err(Self::after(f, true, &X::default())),
                        E::Err(_) => {
                            self.m.pos = before;
                            if before == self.m.inp.len() {
                                return E::Err(Fail { com, pos: before, x: X::default().upto(&labels(x)), tok: true, says: Set::new(), deep: false });
                            }
                            self.m.pos += 1;
                            com = true;
                        }
                    }
                }
            }
            RepeatUntil(x, y) | RepeatSkipUntil(x, y) => {
                let (mut com, mut out) = (false, vec![]);
                loop {
                    let before = self.m.pos;
                    match self.run(y) {
                        E::Ok(_, c, _) => {
                            self.m.pos = before;
                            let v = if matches!(a, RepeatUntil(..)) { Val::L(out) } else { Val::U };
                            return E::Ok(v, com || c, X::default().upto(&labels(a)));
                        }
                        E::Err(f) if f.com => return E::Err(Self::after(f, true, &X::default())),
                        E::Err(_) => {
                            self.m.pos = before;
                            match self.run(x) {
                                E::Ok(v, c, _) => {
                                    com |= c;
                                    out.push(v);
                                }
                                // which is forgotten once the input was found not to start with it
                                E::Err(mut f) => {
                                    if !com && !f.com {
                                        f.x = f.x.loose();
                                    }
                                    return E::Err(Self::after(f, com, &X::default().upto(&labels(a))));
                                }
                            }
                        }
                    }
                }
            }
            Escaped(x, e, y) => {
                let mut com = false;
                loop {
                    let before = self.m.pos;
                    match self.run(x) {
                        E::Ok(_, c, _) => com |= c,
                        E::Err(f) if f.com => return E::Err(Self::after(f, true, &X::default())),
                        E::Err(_) => {
                            self.m.pos = before;
                            if self.m.inp.get(before) != Some(e) {
                                return E::Ok(Val::U, com, X::default().upto(&labels(a)));
                            }
                            self.m.pos += 1;
                            com = true;
                            if let E::Err(f) = self.run(y) {
                                return E::Err(Self::after(f, true, &X::default()));
                            }
                        }
                    }
                }
            }
            _ => self.opaque(a),
        }
    }
}

/// Replaces what the interpreter says nothing about
fn tame(a: &mut A) {
    for k in a.kids_mut() {
        tame(k)
    }
    use A::*;
    let take = |x: &mut A| std::mem::replace(x, Eof);
    match a {
        FlatMap(x) => *a = Map(Box::new(take(x))),
        Iterate(v) => *a = if v.is_empty() { Value(0) } else { Seq(std::mem::take(v)) },
        IterateShared(n, x) => *a = if *n == 0 { Value(0) } else { Seq(vec![take(x); *n]) },
        W(Wrap::FnParser, x) | W(Wrap::FromIter, x) | W(Wrap::Factory, x) => *a = take(x),
        _ => {}
    }
}
fn info<R: std::fmt::Debug>(i: &easy::Info<char, R>) -> String {
    match i {
        easy::Info::Token(c) => tk(*c),
        easy::Info::Range(r) => format!("r:{}", format!("{:?}", r).trim_matches('"')),
        easy::Info::Owned(s) => st(s),
        easy::Info::Static(s) => st(s),
    }
}

fn check(a: &A, s: &str, g: &mut Gen) -> Res {
    let cs: Vec<char> = s.chars().collect();
    let mut i = I { m: M::new(&cs), stop: None };
    let want = i.run(a);
    let (sa, ss) = unsafe { (lend(a), lend_str(s)) };
    let mut input = easy::Stream(ss);
    let mut p = build::<Easy>(sa);
    let r = p.parse_stream(&mut input);
    let f = match (&r, &want) {
        (CommitOk(v), E::Ok(w, true, _)) | (PeekOk(v), E::Ok(w, false, _)) if v == w => {
            return Ok(());
        }
        (CommitErr(_), E::Err(f)) if f.com => f,
        (PeekErr(_), E::Err(f)) if !f.com => f,
        _ => return Err(format!("on {:?}: {:?} but the model has {:?}", s, r, want)),
    };
    let e = match r {
        CommitErr(e) => e,
        PeekErr(e) => e.error,
        _ => unreachable!(),
    };
    g.checks += 1;
    let off = e.position.translate_position(ss);
    let pos = s.char_indices().take_while(|(i, _)| *i < off).count();
    let show = || format!("on {:?}: error at {} {:?}, the model has {:?}", s, pos, e.errors, f);
    if f.pos <= cs.len() && pos != f.pos {
        return Err(format!("position: {}", show()));
    }
    let (mut exp, mut unexp, mut says) = (Set::new(), Set::new(), Set::new());
    for e in &e.errors {
        let new = match e {
            easy::Error::Expected(i) => exp.insert(info(i)),
            easy::Error::Unexpected(i) => {
                says.insert(info(i));
                unexp.insert(info(i))
            }
            easy::Error::Message(i) => says.insert(format!("m:{}", &info(i)[2..])),
            easy::Error::Other(_) => true,
        };
        if !new {
            return Err(format!("listed twice: {}", show()));
        }
    }
    if let Some(l) = f.x.low.iter().find(|l| !exp.contains(*l)) {
        return Err(format!("{:?} missing: {}", l, show()));
    }
    if let Some(l) = exp.iter().find(|l| !f.x.up.contains(*l)) {
        return Err(format!("{:?} impossible: {}", l, show()));
    }
    if f.tok {
        let t = cs.get(pos).map_or(st("end of input"), |c| tk(*c));
        if !unexp.contains(&t) {
            return Err(format!("unexpected {:?} missing: {}", t, show()));
        }
    }
    if let Some(l) = f.says.iter().find(|l| !says.contains(*l)) {
        return Err(format!("text {:?} missing: {}", l, show()));
    }
    g.label(if f.com { "committed" } else { "uncommitted" });
    if f.pos > 0 {
        g.label("not_at_start")
    }
    if f.deep {
        g.label("deep_attempt")
    }
    if f.x.low == f.x.up {
        g.label("exact")
    }
    if f.x.low.len() > 1 {
        g.label("several_expected");
        g.nontrivial(hash_str(&format!("{:?}|{}", a, s)))
    }
    Ok(())
}

fn grammar(g: &mut Gen, o: Opts) -> Res {
    let d = 1 + g.small(0, o.depth - 1);
    let mut a = gen_ast(g, &o, d);
    tame(&mut a);
    for _ in 0..3 {
        let s = gen_input(&a, g);
        g.describe(|| format!("{:?} on {:?}", a, s));
        check(&a, &s, g)?;
    }
    a.label_all(g);
    Ok(())
}
fn compose(g: &mut Gen) -> Res {
    grammar(g, Opts { reps: false, ..Opts::full() })
}
fn all(g: &mut Gen) -> Res {
    grammar(g, Opts { range: true, ..Opts::full() })
}

/// Small grammars of the combinators which keep track of what is expected
fn gen_small(g: &mut Gen, d: usize) -> A {
    use A::*;
    let bx = |a| Box::new(a);
    if d == 0 {
        return match g.weighted(&[6, 3, 2, 2, 1, 1, 1, 1, 1]) {
            0 => Tok(*g.pick(&['a', 'b', '1', ','])),
            1 => Cls(*g.pick(&[Class::Digit, Class::Letter, Class::Space])),
            2 => OneOf(*g.pick(&["ab", "1,"])),
            3 => Lit(*g.pick(&["ab", "1,", "ba"])),
            4 => Eof,
            5 => Spaces,
            6 => Value(0),
            7 => Any,
            _ => Sat(Pred::Ab),
        };
    }
    let d2 = d - 1;
    match g.weighted(&[8, 6, 5, 3, 3, 2, 2, 1, 2, 1, 1, 2]) {
        0 => {
            let n = g.small(2, 4);
            Seq((0..n).map(|_| gen_small(g, d2)).collect())
        }
        1 => {
            let n = g.small(2, 4);
            let v = (0..n).map(|_| gen_small(g, d2)).collect();
            match g.below(3) {
                0 => Choice(v),
                1 => ChoiceVec(v),
                _ => OrMacro(v),
            }
        }
        2 => Opt(bx(gen_small(g, d2))),
        3 => Attempt(bx(gen_small(g, d2))),
        4 => W(Wrap::Expected(*g.pick(&LABELS)), bx(gen_small(g, d2))),
        5 => W(Wrap::Message(*g.pick(&LABELS)), bx(gen_small(g, d2))),
        6 => {
            let x = bx(consuming(g, d2));
            match g.below(4) {
                0 => Many(x),
                1 => Many1(x),
                2 => SkipMany(x),
                _ => SkipMany1(x),
            }
        }
        7 => {
            let (x, y) = (bx(consuming(g, d2)), bx(gen_small(g, 0)));
            match g.below(3) {
                0 => SepBy(x, y),
                1 => SepBy1(x, y),
                _ => Chainl1(x, y),
            }
        }
        8 => With(bx(gen_small(g, d2)), bx(gen_small(g, d2))),
        9 => W(Wrap::Silent, bx(gen_small(g, d2))),
        10 => LookAhead(bx(gen_small(g, d2))),
        _ => Skip(bx(gen_small(g, d2)), bx(gen_small(g, d2))),
    }
}
fn consuming(g: &mut Gen, d: usize) -> A {
    let a = gen_small(g, d);
    if a.nullable() {
        A::Seq(vec![a, A::Tok('a')])
    } else {
        a
    }
}
fn small(g: &mut Gen) -> Res {
    let d = 1 + g.small(0, 2);
    let a = gen_small(g, d);
    for _ in 0..3 {
        let s = gen_input(&a, g);
        g.describe(|| format!("{:?} on {:?}", a, s));
        check(&a, &s, g)?;
    }
    a.label_all(g);
    Ok(())
}

/// A choice at the end of a sequence inside a sequence hides what the parsers behind it expect
fn known_choice() -> Res {
    let a = A::Seq(vec![
        A::Seq(vec![A::Value(0), A::Opt(Box::new(A::Choice(vec![A::Tok('a'), A::Tok('b')])))]),
        A::Tok('c'),
    ]);
    let mut p = build::<Easy>(unsafe { lend(&a) });
    let r = p.parse_stream(&mut easy::Stream("x"));
    let got = match r {
        PeekErr(e) => e.error.errors.iter().any(|e| matches!(e, easy::Error::Expected(easy::Info::Token('c')))),
        _ => false,
    };
    if got {
        Ok(())
    } else {
        Err(format!("{:?} on \"x\": the expected 'c' is missing", a))
    }
}

fn main() {
    h::runner::main(&Property {
        id: "C12",
        rule: "a case is a generated grammar (suite 'small': the combinators that keep track of expectations, over few tokens; 'compose': everything but repetitions; 'all': everything the error model knows, also range()) run on three inputs derived from it; the error of every rejected input is compared with an error model: exact furthest position, the unexpected token or end of input, every expectation that has to be listed and none outside of those that may be, messages, no duplicates. Non-trivial: more than one expectation had to be listed; counted distinct by grammar and input",
        assumptions: &[
            "not decided: which expectations are listed for sep_end_by, chainr1, take_until, repeat_until, escaped, iterate, flat_map, parsers made by factory, fn_parser or an iterator (their position and texts neither)",
            "expectations of parsers that were left without consuming before the failing one may be listed in full, although an inner one cannot come first",
            "only a lower bound holds where the library documents approximation: alternatives remembered by a choice that succeeded, elements inside a sequence that consumed, count_min_max after an element",
        ],
        suites: &[
            Suite { name: "small", quick: 1_500_000, thorough: 40_000_000, f: small },
            Suite { name: "compose", quick: 600_000, thorough: 12_000_000, f: compose },
            Suite { name: "all", quick: 600_000, thorough: 12_000_000, f: all },
        ],
        known: &[Known { key: "choice-ends-sequence", f: known_choice }],
    })
}
