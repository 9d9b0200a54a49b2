//! A language of grammars over `char` tokens, their generator and a sampler of likely inputs.

use super::gen::Gen;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U,
    C(char),
    S(String),
    L(Vec<Val>),
    O(Option<Box<Val>>),
    N(i64),
    F(char, Box<Val>, Box<Val>),
}

impl Val {
    pub fn hash(&self) -> usize {
        match self {
            Val::U => 1,
            Val::C(c) => *c as usize,
            Val::S(s) => s.chars().map(|c| c as usize).sum::<usize>() + 3,
            Val::L(v) => v.iter().map(|v| v.hash()).sum::<usize>() + v.len(),
            Val::O(None) => 0,
            Val::O(Some(v)) => v.hash() + 1,
            Val::N(n) => *n as usize,
            Val::F(c, a, b) => *c as usize + a.hash() + b.hash(),
        }
    }
    /// Total number of leaves, for the values produced by repeated parsers
    pub fn size(&self) -> usize {
        match self {
            Val::L(v) => 1 + v.iter().map(|v| v.size()).sum::<usize>(),
            Val::O(Some(v)) => 1 + v.size(),
            Val::F(_, a, b) => 1 + a.size() + b.size(),
            Val::S(s) => 1 + s.len(),
            _ => 1,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Ab,
    Digit,
    NotComma,
    Space,
    Never,
    Always,
    NonAscii,
}
pub const PREDS: [Pred; 7] = [
    Pred::Ab,
    Pred::Digit,
    Pred::NotComma,
    Pred::Space,
    Pred::NonAscii,
    Pred::Always,
    Pred::Never,
];
impl Pred {
    pub fn test(self, c: char) -> bool {
        match self {
            Pred::Ab => c == 'a' || c == 'b',
            Pred::Digit => c.is_ascii_digit(),
            Pred::NotComma => c != ',',
            Pred::Space => c == ' ' || c == '\n',
            Pred::Never => false,
            Pred::Always => true,
            Pred::NonAscii => !c.is_ascii(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Class {
    Digit,
    Letter,
    AlphaNum,
    Space,
    Upper,
    Lower,
    Newline,
    Tab,
    Hex,
    Oct,
}
pub const CLASSES: [Class; 10] = [
    Class::Digit,
    Class::Letter,
    Class::AlphaNum,
    Class::Space,
    Class::Upper,
    Class::Lower,
    Class::Newline,
    Class::Tab,
    Class::Hex,
    Class::Oct,
];
impl Class {
    pub fn test(self, c: char) -> bool {
        match self {
            Class::Digit => c.is_ascii_digit(),
            Class::Letter => c.is_alphabetic(),
            Class::AlphaNum => c.is_alphanumeric(),
            Class::Space => c.is_whitespace(),
            Class::Upper => c.is_uppercase(),
            Class::Lower => c.is_lowercase(),
            Class::Newline => c == '\n',
            Class::Tab => c == '\t',
            Class::Hex => c.is_ascii_hexdigit(),
            Class::Oct => ('0'..='7').contains(&c),
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Class::Digit => "digit",
            Class::Letter => "letter",
            Class::AlphaNum => "letter or digit",
            Class::Space => "whitespace",
            Class::Upper => "uppercase letter",
            Class::Lower => "lowercase letter",
            Class::Newline => "lf newline",
            Class::Tab => "tab",
            Class::Hex => "hexadecimal digit",
            Class::Oct => "octal digit",
        }
    }
}

pub const ALPHA: [char; 14] = ['a', 'b', '1', ',', ' ', '(', 'x', '\n', 'A', '0', 'é', '\r', '漢', '\u{1F980}'];
pub const SETS: [&str; 5] = ["ab", "1,", "a", "x(é", "b0 \n"];
pub const LITS: [&str; 9] = ["a", "ab", "aab", "1,", "ba", "é1", "abab", "(x", "漢a"];
pub const LABELS: [&str; 3] = ["thing", "item", "stuff"];

/// Leaves that need a range stream
#[derive(Clone, Debug, PartialEq)]
pub enum RLeaf {
    Range(&'static str),
    Take(usize),
    TakeWhile(Pred),
    TakeWhile1(Pred),
    TakeUntil(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Wrap {
    Lazy,
    Factory,
    Opaque,
    NoPartial,
    EitherL,
    EitherR,
    AnySend,
    AnySendSync,
    Boxed,
    ByRef,
    ParserMacro,
    ParserMacroState,
    FnParser,
    Dispatch,
    Spanned,
    Silent,
    Expected(&'static str),
    Message(&'static str),
    MapInput,
    Ignore,
    FromIter,
    /// not generated by `gen_wrap`
    DispatchDirect,
    MapSame,
}

#[derive(Clone, Debug, PartialEq)]
pub enum A {
    Any,
    Tok(char),
    OneOf(&'static str),
    NoneOf(&'static str),
    Sat(Pred),
    SatMap(Pred),
    Lit(&'static str),
    LitCmp(&'static str),
    Toks(&'static str),
    TokCmp(&'static str),
    Cls(Class),
    Crlf,
    Newline,
    Spaces,
    Eof,
    Value(i64),
    Produce(i64),
    Unexp(&'static str),
    Rng(RLeaf),
    /// a parser with a memory: each call does the next step of the script, which is to consume so
    /// many tokens and succeed or fail; it fails without consuming when the script has ended (or,
    /// if it is `true`, has failed before)
    Script(Vec<(u8, bool)>, bool),
    // sequencing
    Seq(Vec<A>),
    With(Box<A>, Box<A>),
    Skip(Box<A>, Box<A>),
    Between(Box<A>, Box<A>, Box<A>),
    Then(Box<A>, Vec<A>),
    ThenPartial(Box<A>, Vec<A>),
    ThenRef(Box<A>, Vec<A>),
    StructP(Box<A>, Box<A>, Box<A>),
    // alternatives
    Choice(Vec<A>),
    ChoiceVec(Vec<A>),
    Or(Box<A>, Box<A>),
    OrMacro(Vec<A>),
    Opt(Box<A>),
    // lookahead
    Attempt(Box<A>),
    LookAhead(Box<A>),
    NotFollowed(Box<A>),
    // transforming
    Map(Box<A>),
    AndThen(Box<A>),
    FlatMap(Box<A>),
    Recognize(Box<A>),
    RRecognize(Box<A>),
    RRecognizeVal(Box<A>),
    // repetition
    Many(Box<A>),
    Many1(Box<A>),
    SkipMany(Box<A>),
    SkipMany1(Box<A>),
    Count(usize, Box<A>),
    SkipCount(usize, Box<A>),
    CountMM(usize, usize, Box<A>),
    SkipCountMM(usize, usize, Box<A>),
    SepBy(Box<A>, Box<A>),
    SepBy1(Box<A>, Box<A>),
    SepEndBy(Box<A>, Box<A>),
    SepEndBy1(Box<A>, Box<A>),
    Chainl1(Box<A>, Box<A>),
    Chainr1(Box<A>, Box<A>),
    TakeUntil(Box<A>),
    SkipUntil(Box<A>),
    RepeatUntil(Box<A>, Box<A>),
    RepeatSkipUntil(Box<A>, Box<A>),
    Escaped(Box<A>, char, Box<A>),
    Iterate(Vec<A>),
    IterateShared(usize, Box<A>),
    // wrappers
    W(Wrap, Box<A>),
}

impl A {
    /// May succeed without consuming (conservative: true when unsure)
    pub fn nullable(&self) -> bool {
        use A::*;
        match self {
            Any | Tok(_) | OneOf(_) | NoneOf(_) | Sat(_) | SatMap(_) | Cls(_) | Crlf | Newline => false,
            Lit(s) | LitCmp(s) | Toks(s) | TokCmp(s) => s.is_empty(),
            Spaces | Eof | Value(_) | Produce(_) => true,
            Unexp(_) => false,
            Rng(RLeaf::Range(s)) => s.is_empty(),
            Rng(RLeaf::Take(n)) => *n == 0,
            Rng(RLeaf::TakeWhile(_)) | Rng(RLeaf::TakeUntil(_)) => true,
            Rng(RLeaf::TakeWhile1(_)) => false,
            Script(..) => true,
            Seq(v) | Iterate(v) => v.iter().all(|a| a.nullable()),
            With(a, b) | Skip(a, b) => a.nullable() && b.nullable(),
            Between(a, b, c) | StructP(a, b, c) => a.nullable() && b.nullable() && c.nullable(),
            Then(a, v) | ThenPartial(a, v) | ThenRef(a, v) => a.nullable() && v.iter().any(|a| a.nullable()),
            Choice(v) | ChoiceVec(v) | OrMacro(v) => v.iter().any(|a| a.nullable()),
            Or(a, b) => a.nullable() || b.nullable(),
            Opt(_) | LookAhead(_) | NotFollowed(_) => true,
            Attempt(a) | Map(a) | AndThen(a) | FlatMap(a) | Recognize(a) | RRecognize(a) | RRecognizeVal(a) => {
                a.nullable()
            }
            Many(_) | SkipMany(_) => true,
            Many1(a) | SkipMany1(a) => a.nullable(),
            Count(..) | SkipCount(..) => true,
            CountMM(lo, _, a) | SkipCountMM(lo, _, a) => *lo == 0 || a.nullable(),
            SepBy(..) | SepEndBy(..) => true,
            SepBy1(a, _) | SepEndBy1(a, _) | Chainl1(a, _) | Chainr1(a, _) => a.nullable(),
            TakeUntil(_) | SkipUntil(_) | RepeatUntil(..) | RepeatSkipUntil(..) | Escaped(..) => true,
            IterateShared(n, a) => *n == 0 || a.nullable(),
            W(Wrap::FromIter, _) => true,
            W(_, a) => a.nullable(),
        }
    }

    pub fn kids(&self) -> Vec<&A> {
        use A::*;
        match self {
            Seq(v) | Iterate(v) | Choice(v) | ChoiceVec(v) | OrMacro(v) => v.iter().collect(),
            With(a, b) | Skip(a, b) | Or(a, b) | SepBy(a, b) | SepBy1(a, b) | SepEndBy(a, b) | SepEndBy1(a, b)
            | Chainl1(a, b) | Chainr1(a, b) | RepeatUntil(a, b) | RepeatSkipUntil(a, b) | Escaped(a, _, b) => {
                vec![&**a, &**b]
            }
            Between(a, b, c) | StructP(a, b, c) => vec![&**a, &**b, &**c],
            Then(a, v) | ThenPartial(a, v) | ThenRef(a, v) => {
                let mut r = vec![&**a];
                r.extend(v.iter());
                r
            }
            Opt(a) | LookAhead(a) | NotFollowed(a) | Attempt(a) | Map(a) | AndThen(a) | FlatMap(a) | Recognize(a)
            | RRecognize(a) | RRecognizeVal(a) | Many(a) | SkipMany(a) | Many1(a) | SkipMany1(a) | Count(_, a)
            | SkipCount(_, a) | CountMM(_, _, a) | SkipCountMM(_, _, a) | TakeUntil(a) | SkipUntil(a)
            | IterateShared(_, a) | W(_, a) => vec![&**a],
            _ => vec![],
        }
    }
    pub fn kids_mut(&mut self) -> Vec<&mut A> {
        use A::*;
        match self {
            Seq(v) | Iterate(v) | Choice(v) | ChoiceVec(v) | OrMacro(v) => v.iter_mut().collect(),
            With(a, b) | Skip(a, b) | Or(a, b) | SepBy(a, b) | SepBy1(a, b) | SepEndBy(a, b) | SepEndBy1(a, b)
            | Chainl1(a, b) | Chainr1(a, b) | RepeatUntil(a, b) | RepeatSkipUntil(a, b) | Escaped(a, _, b) => {
                vec![&mut **a, &mut **b]
            }
            Between(a, b, c) | StructP(a, b, c) => vec![&mut **a, &mut **b, &mut **c],
            Then(a, v) | ThenPartial(a, v) | ThenRef(a, v) => {
                let mut r = vec![&mut **a];
                r.extend(v.iter_mut());
                r
            }
            Opt(a) | LookAhead(a) | NotFollowed(a) | Attempt(a) | Map(a) | AndThen(a) | FlatMap(a) | Recognize(a)
            | RRecognize(a) | RRecognizeVal(a) | Many(a) | SkipMany(a) | Many1(a) | SkipMany1(a) | Count(_, a)
            | SkipCount(_, a) | CountMM(_, _, a) | SkipCountMM(_, _, a) | TakeUntil(a) | SkipUntil(a)
            | IterateShared(_, a) | W(_, a) => vec![&mut **a],
            _ => vec![],
        }
    }
    pub fn nodes(&self) -> usize {
        1 + self.kids().iter().map(|k| k.nodes()).sum::<usize>()
    }
    pub fn any(&self, f: &dyn Fn(&A) -> bool) -> bool {
        f(self) || self.kids().iter().any(|k| k.any(f))
    }
    pub fn kind(&self) -> &'static str {
        use A::*;
        match self {
            Any => "any",
            Tok(_) => "token",
            OneOf(_) => "one_of",
            NoneOf(_) => "none_of",
            Sat(_) => "satisfy",
            SatMap(_) => "satisfy_map",
            Lit(_) => "string",
            LitCmp(_) => "string_cmp",
            Toks(_) => "tokens",
            TokCmp(_) => "tokens_cmp",
            Cls(_) => "class",
            Crlf => "crlf",
            Newline => "newline",
            Spaces => "spaces",
            Eof => "eof",
            Value(_) => "value",
            Produce(_) => "produce",
            Unexp(_) => "unexpected",
            Rng(RLeaf::Range(_)) => "range",
            Rng(RLeaf::Take(_)) => "take",
            Rng(RLeaf::TakeWhile(_)) => "take_while",
            Rng(RLeaf::TakeWhile1(_)) => "take_while1",
            Rng(RLeaf::TakeUntil(_)) => "take_until_range",
            Script(..) => "script",
            Seq(_) => "tuple",
            With(..) => "with",
            Skip(..) => "skip",
            Between(..) => "between",
            Then(..) => "then",
            ThenPartial(..) => "then_partial",
            ThenRef(..) => "then_ref",
            StructP(..) => "struct_parser",
            Choice(_) => "choice_tuple",
            ChoiceVec(_) => "choice_slice",
            Or(..) => "or",
            OrMacro(_) => "choice_macro",
            Opt(_) => "optional",
            Attempt(_) => "attempt",
            LookAhead(_) => "look_ahead",
            NotFollowed(_) => "not_followed_by",
            Map(_) => "map",
            AndThen(_) => "and_then",
            FlatMap(_) => "flat_map",
            Recognize(_) => "recognize",
            RRecognize(_) => "range_recognize",
            RRecognizeVal(_) => "range_recognize_with_value",
            Many(_) => "many",
            Many1(_) => "many1",
            SkipMany(_) => "skip_many",
            SkipMany1(_) => "skip_many1",
            Count(..) => "count",
            SkipCount(..) => "skip_count",
            CountMM(..) => "count_min_max",
            SkipCountMM(..) => "skip_count_min_max",
            SepBy(..) => "sep_by",
            SepBy1(..) => "sep_by1",
            SepEndBy(..) => "sep_end_by",
            SepEndBy1(..) => "sep_end_by1",
            Chainl1(..) => "chainl1",
            Chainr1(..) => "chainr1",
            TakeUntil(_) => "take_until",
            SkipUntil(_) => "skip_until",
            RepeatUntil(..) => "repeat_until",
            RepeatSkipUntil(..) => "repeat_skip_until",
            Escaped(..) => "escaped",
            Iterate(_) => "iterate",
            IterateShared(..) => "iterate_shared",
            W(w, _) => match w {
                Wrap::Lazy => "w_lazy",
                Wrap::Factory => "w_factory",
                Wrap::Opaque => "w_opaque",
                Wrap::NoPartial => "w_no_partial",
                Wrap::EitherL => "w_left",
                Wrap::EitherR => "w_right",
                Wrap::AnySend => "w_any_send",
                Wrap::AnySendSync => "w_any_send_sync",
                Wrap::Boxed => "w_boxed",
                Wrap::ByRef => "w_by_ref",
                Wrap::ParserMacro => "w_parser_macro",
                Wrap::ParserMacroState => "w_parser_macro_state",
                Wrap::FnParser => "w_fn_parser",
                Wrap::Dispatch => "w_dispatch",
                Wrap::Spanned => "w_spanned",
                Wrap::Silent => "w_silent",
                Wrap::Expected(_) => "w_expected",
                Wrap::Message(_) => "w_message",
                Wrap::MapInput => "w_map_input",
                Wrap::Ignore => "w_ignore",
                Wrap::FromIter => "w_iter",
                Wrap::DispatchDirect => "w_dispatch_direct",
                Wrap::MapSame => "w_map_same",
            },
        }
    }
    pub fn label_all(&self, g: &mut Gen) {
        g.label(self.kind());
        for k in self.kids() {
            k.label_all(g);
        }
    }
}

/// What the generator may use
#[derive(Clone, Copy)]
pub struct Opts {
    pub range: bool,
    pub reps: bool,
    pub wraps: bool,
    pub look: bool,
    pub eof: bool,
    /// only parsers that keep or restore their progress when suspended
    pub partial: bool,
    pub depth: usize,
}

impl Opts {
    pub fn full() -> Opts {
        Opts { range: false, reps: true, wraps: true, look: true, eof: true, partial: false, depth: 4 }
    }
}

pub fn gen_char(g: &mut Gen) -> char {
    // mostly the first few
    if g.chance(3, 4) {
        ALPHA[g.below(5) as usize]
    } else {
        *g.pick(&ALPHA)
    }
}
pub fn gen_pred(g: &mut Gen) -> Pred {
    PREDS[g.weighted(&[6, 5, 3, 2, 2, 2, 1])]
}
pub fn gen_lit(g: &mut Gen) -> &'static str {
    g.pick(&LITS)
}

/// A leaf that always consumes at least one token when it succeeds
pub fn gen_token_leaf(g: &mut Gen, o: &Opts) -> A {
    let rng = if o.range { 1 } else { 0 };
    match g.weighted(&[
        8,
        2,
        3,
        2,
        3,
        2,
        3,
        1,
        1,
        1,
        4,
        1,
        1,
        3 * rng,
        2 * rng,
        3 * rng,
    ]) {
        0 => A::Tok(gen_char(g)),
        1 => A::Any,
        2 => A::OneOf(g.pick(&SETS)),
        3 => A::NoneOf(g.pick(&SETS)),
        4 => A::Sat(gen_pred(g)),
        5 => A::SatMap(gen_pred(g)),
        6 => A::Lit(gen_lit(g)),
        7 => A::LitCmp(gen_lit(g)),
        8 => A::Toks(gen_lit(g)),
        9 => A::TokCmp(gen_lit(g)),
        10 => A::Cls(*g.pick(&CLASSES)),
        11 => A::Crlf,
        12 => A::Newline,
        13 => A::Rng(RLeaf::Range(gen_lit(g))),
        14 => A::Rng(RLeaf::Take(g.range(1, 3))),
        _ => A::Rng(RLeaf::TakeWhile1(gen_pred(g))),
    }
}

fn gen_null_leaf(g: &mut Gen, o: &Opts) -> A {
    let rng = if o.range { 1 } else { 0 };
    let eof = if o.eof { 1 } else { 0 };
    match g.weighted(&[2, 1, eof, 1, 2, 2 * rng, rng, 1]) {
        0 => A::Value(g.below(3) as i64),
        1 => A::Produce(g.below(3) as i64),
        2 => A::Eof,
        3 => A::Unexp(g.pick(&LABELS)),
        4 => A::Spaces,
        5 => A::Rng(RLeaf::TakeWhile(gen_pred(g))),
        6 => A::Rng(RLeaf::TakeUntil(gen_lit(g))),
        _ => {
            if o.range {
                A::Rng(RLeaf::Take(0))
            } else {
                A::Value(7)
            }
        }
    }
}

/// A grammar that cannot succeed without consuming
pub fn gen_consuming(g: &mut Gen, o: &Opts, d: usize) -> A {
    let a = gen_ast(g, o, d);
    if a.nullable() {
        let t = gen_token_leaf(g, o);
        if g.bool() {
            A::Seq(vec![t, a])
        } else {
            A::Seq(vec![a, t])
        }
    } else {
        a
    }
}

fn bx(a: A) -> Box<A> {
    Box::new(a)
}

pub fn gen_ast(g: &mut Gen, o: &Opts, d: usize) -> A {
    if d == 0 {
        return if g.chance(1, 6) { gen_null_leaf(g, o) } else { gen_token_leaf(g, o) };
    }
    let reps = if o.reps { 6 } else { 0 };
    let look = if o.look { 3 } else { 0 };
    let wraps = if o.wraps { 3 } else { 0 };
    let rng = if o.range { 1 } else { 0 };
    match g.weighted(&[4, 1, 7, 5, look, 3, reps, wraps, rng]) {
        0 => gen_token_leaf(g, o),
        1 => gen_null_leaf(g, o),
        2 => gen_seq(g, o, d - 1),
        3 => gen_alt(g, o, d - 1),
        4 => gen_look(g, o, d - 1),
        5 => gen_trans(g, o, d - 1),
        6 => gen_rep(g, o, d - 1),
        7 => {
            let w = gen_wrap(g, o);
            A::W(w, bx(gen_ast(g, o, d - 1)))
        }
        _ => {
            let a = bx(gen_ast(g, o, d - 1));
            if g.bool() {
                A::RRecognize(a)
            } else {
                A::RRecognizeVal(a)
            }
        }
    }
}

pub fn gen_wrap(g: &mut Gen, o: &Opts) -> Wrap {
    // user code, which cannot be resumed
    let nopartial = if o.partial { 0 } else { 1 };
    match g.weighted(&[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, nopartial, 1, 1, 1, 1, 1, 1, 1, nopartial]) {
        0 => Wrap::Lazy,
        1 => Wrap::Factory,
        2 => Wrap::Opaque,
        3 => Wrap::NoPartial,
        4 => Wrap::EitherL,
        5 => Wrap::EitherR,
        6 => Wrap::AnySend,
        7 => Wrap::AnySendSync,
        8 => Wrap::Boxed,
        9 => Wrap::ByRef,
        10 => Wrap::ParserMacro,
        11 => Wrap::ParserMacroState,
        12 => Wrap::FnParser,
        13 => Wrap::Dispatch,
        14 => Wrap::Spanned,
        15 => Wrap::Silent,
        16 => Wrap::Expected(g.pick(&LABELS)),
        17 => Wrap::Message(g.pick(&LABELS)),
        18 => Wrap::MapInput,
        19 => Wrap::Ignore,
        _ => Wrap::FromIter,
    }
}

fn gen_list(g: &mut Gen, o: &Opts, lo: usize, hi: usize, d: usize) -> Vec<A> {
    let n = g.small(lo, hi);
    (0..n).map(|_| gen_ast(g, o, d)).collect()
}

pub fn gen_seq(g: &mut Gen, o: &Opts, d: usize) -> A {
    match g.weighted(&[8, 2, 2, 2, 2, 2, 2, 1, 2, 1]) {
        0 => A::Seq(gen_list(g, o, 1, 5, d)),
        1 => A::With(bx(gen_ast(g, o, d)), bx(gen_ast(g, o, d))),
        2 => A::Skip(bx(gen_ast(g, o, d)), bx(gen_ast(g, o, d))),
        3 => A::Between(bx(gen_ast(g, o, d)), bx(gen_ast(g, o, d)), bx(gen_ast(g, o, d))),
        4 => A::Then(bx(gen_ast(g, o, d)), gen_list(g, o, 1, 3, d)),
        5 => A::ThenPartial(bx(gen_ast(g, o, d)), gen_list(g, o, 1, 3, d)),
        6 => A::ThenRef(bx(gen_ast(g, o, d)), gen_list(g, o, 1, 3, d)),
        7 => A::StructP(bx(gen_ast(g, o, d)), bx(gen_ast(g, o, d)), bx(gen_ast(g, o, d))),
        8 => A::Iterate(gen_list(g, o, 0, 4, d)),
        _ => A::Seq(gen_list(g, o, 6, 12, 0)),
    }
}

pub fn gen_alt(g: &mut Gen, o: &Opts, d: usize) -> A {
    match g.weighted(&[5, 4, 3, 2, 5]) {
        0 => A::Choice(gen_list(g, o, 1, 5, d)),
        1 => A::ChoiceVec(gen_list(g, o, 0, 5, d)),
        2 => A::Or(bx(gen_ast(g, o, d)), bx(gen_ast(g, o, d))),
        3 => A::OrMacro(gen_list(g, o, 1, 4, d)),
        _ => A::Opt(bx(gen_ast(g, o, d))),
    }
}

pub fn gen_look(g: &mut Gen, o: &Opts, d: usize) -> A {
    let a = bx(gen_ast(g, o, d));
    match g.weighted(&[5, 2, 2]) {
        0 => A::Attempt(a),
        1 => A::LookAhead(a),
        _ => A::NotFollowed(a),
    }
}

fn gen_trans(g: &mut Gen, o: &Opts, d: usize) -> A {
    let a = bx(gen_ast(g, o, d));
    match g.weighted(&[3, 2, 2, 2]) {
        0 => A::Map(a),
        1 => A::AndThen(a),
        2 => A::FlatMap(a),
        _ => A::Recognize(a),
    }
}

pub fn gen_rep(g: &mut Gen, o: &Opts, d: usize) -> A {
    let k = g.weighted(&[5, 4, 2, 2, 2, 1, 3, 2, 3, 3, 3, 3, 3, 2, 3, 2, 3, 2, 2, 2]);
    if k == 4 || k == 5 || k == 6 || k == 7 || k == 19 {
        // bounded: the element may be empty
        let a = bx(gen_ast(g, o, d));
        let lo = g.small(0, 3);
        return match k {
            4 => A::Count(lo, a),
            5 => A::SkipCount(lo, a),
            6 | 7 => {
                let hi = lo + g.small(0, 3);
                if k == 6 {
                    A::CountMM(lo, hi, a)
                } else {
                    A::SkipCountMM(lo, hi, a)
                }
            }
            _ => A::IterateShared(lo, a),
        };
    }
    if k == 14 {
        return A::TakeUntil(bx(gen_ast(g, o, d)));
    }
    if k == 15 {
        return A::SkipUntil(bx(gen_ast(g, o, d)));
    }
    if (8..=13).contains(&k) {
        // either of the two must consume
        let e = d.min(1);
        let (a, b) = match g.weighted(&[3, 1, 1]) {
            0 => (gen_consuming(g, o, d), gen_ast(g, o, e)),
            1 => (gen_ast(g, o, d), gen_consuming(g, o, e)),
            _ => {
                let a = gen_ast(g, o, d);
                let a = if g.bool() { A::Opt(bx(a)) } else { A::Choice(vec![a, gen_null_leaf(g, o)]) };
                (a, gen_consuming(g, o, e))
            }
        };
        let (a, b) = (bx(a), bx(b));
        return match k {
            8 => A::SepBy(a, b),
            9 => A::SepBy1(a, b),
            10 => A::SepEndBy(a, b),
            11 => A::SepEndBy1(a, b),
            12 => A::Chainl1(a, b),
            _ => A::Chainr1(a, b),
        };
    }
    let a = bx(gen_consuming(g, o, d));
    match k {
        0 => A::Many(a),
        1 => A::Many1(a),
        2 => A::SkipMany(a),
        3 => A::SkipMany1(a),
        16 => A::RepeatUntil(a, bx(gen_ast(g, o, d.min(1)))),
        17 => A::RepeatSkipUntil(a, bx(gen_ast(g, o, d.min(1)))),
        _ => {
            let c = gen_char(g);
            A::Escaped(a, c, bx(gen_consuming(g, o, d.min(1))))
        }
    }
}

/// Appends to `out` a string the grammar is likely to accept
pub fn sample(a: &A, g: &mut Gen, out: &mut String) {
    use A::*;
    if out.len() > 60 {
        return;
    }
    match a {
        Any => out.push(gen_char(g)),
        Tok(c) => out.push(*c),
        OneOf(s) => {
            let cs: Vec<char> = s.chars().collect();
            out.push(*g.pick(&cs))
        }
        NoneOf(s) => {
            let cs: Vec<char> = ALPHA.iter().copied().filter(|c| !s.contains(*c)).collect();
            out.push(*g.pick(&cs))
        }
        Sat(p) | SatMap(p) | Rng(RLeaf::TakeWhile1(p)) | Rng(RLeaf::TakeWhile(p)) => {
            let cs: Vec<char> = ALPHA.iter().copied().filter(|c| p.test(*c)).collect();
            if !cs.is_empty() {
                let n = match a {
                    Rng(RLeaf::TakeWhile(_)) => g.small(0, 3),
                    Rng(_) => g.small(1, 3),
                    _ => 1,
                };
                for _ in 0..n {
                    out.push(*g.pick(&cs));
                }
            }
        }
        Cls(p) => {
            let cs: Vec<char> = ALPHA.iter().copied().filter(|c| p.test(*c)).collect();
            if cs.is_empty() {
                out.push('\t')
            } else {
                out.push(*g.pick(&cs))
            }
        }
        Lit(s) | Toks(s) | TokCmp(s) | Rng(RLeaf::Range(s)) => out.push_str(s),
        LitCmp(s) => {
            if g.bool() {
                out.push_str(&s.to_uppercase())
            } else {
                out.push_str(s)
            }
        }
        Script(v, _) => {
            for _ in 0..v.iter().map(|x| x.0).sum() {
                out.push(gen_char(g))
            }
        }
        Crlf => out.push_str("\r\n"),
        Newline => out.push_str(if g.bool() { "\r\n" } else { "\n" }),
        Spaces => {
            for _ in 0..g.small(0, 2) {
                out.push(' ')
            }
        }
        Eof | Value(_) | Produce(_) | Unexp(_) => {}
        Rng(RLeaf::Take(n)) => {
            for _ in 0..*n {
                out.push(gen_char(g))
            }
        }
        Rng(RLeaf::TakeUntil(s)) => {
            for _ in 0..g.small(0, 3) {
                out.push(gen_char(g))
            }
            out.push_str(s)
        }
        Seq(v) | Iterate(v) => {
            for a in v {
                sample(a, g, out)
            }
        }
        With(a, b) | Skip(a, b) => {
            sample(a, g, out);
            sample(b, g, out)
        }
        Between(a, b, c) => {
            sample(a, g, out);
            sample(c, g, out);
            sample(b, g, out)
        }
        StructP(a, b, c) => {
            sample(a, g, out);
            sample(b, g, out);
            sample(c, g, out)
        }
        Then(a, v) | ThenPartial(a, v) | ThenRef(a, v) => {
            sample(a, g, out);
            let i = g.below(v.len() as u32) as usize;
            sample(&v[i], g, out)
        }
        Choice(v) | ChoiceVec(v) | OrMacro(v) => {
            if !v.is_empty() {
                let i = g.below(v.len() as u32) as usize;
                sample(&v[i], g, out)
            }
        }
        Or(a, b) => {
            if g.bool() {
                sample(b, g, out)
            } else {
                sample(a, g, out)
            }
        }
        Opt(a) => {
            if g.bool() {
                sample(a, g, out)
            }
        }
        Attempt(a) | Map(a) | AndThen(a) | FlatMap(a) | Recognize(a) | RRecognize(a) | RRecognizeVal(a) => {
            sample(a, g, out)
        }
        LookAhead(a) | NotFollowed(a) => {
            if g.chance(1, 4) {
                sample(a, g, out)
            }
        }
        Many(a) | SkipMany(a) => {
            for _ in 0..g.small(0, 4) {
                sample(a, g, out)
            }
        }
        Many1(a) | SkipMany1(a) => {
            for _ in 0..g.small(1, 4) {
                sample(a, g, out)
            }
        }
        Count(n, a) | SkipCount(n, a) | IterateShared(n, a) => {
            for _ in 0..*n {
                sample(a, g, out)
            }
        }
        CountMM(lo, hi, a) | SkipCountMM(lo, hi, a) => {
            for _ in 0..g.range(*lo, *hi) {
                sample(a, g, out)
            }
        }
        SepBy(a, b) | SepBy1(a, b) | Chainl1(a, b) | Chainr1(a, b) => {
            sample(a, g, out);
            for _ in 0..g.small(0, 3) {
                sample(b, g, out);
                sample(a, g, out);
            }
        }
        SepEndBy(a, b) | SepEndBy1(a, b) => {
            for _ in 0..g.small(1, 3) {
                sample(a, g, out);
                sample(b, g, out);
            }
            if g.bool() {
                sample(a, g, out)
            }
        }
        TakeUntil(a) | SkipUntil(a) => {
            for _ in 0..g.small(0, 3) {
                out.push(gen_char(g))
            }
            sample(a, g, out)
        }
        RepeatUntil(a, b) | RepeatSkipUntil(a, b) => {
            for _ in 0..g.small(0, 3) {
                sample(a, g, out)
            }
            sample(b, g, out)
        }
        Escaped(a, c, b) => {
            for _ in 0..g.small(0, 3) {
                if g.bool() {
                    out.push(*c);
                    sample(b, g, out)
                } else {
                    sample(a, g, out)
                }
            }
        }
        W(_, a) => sample(a, g, out),
    }
}

/// An input for the grammar: a likely sentence, usually damaged or extended, sometimes random
pub fn gen_input(a: &A, g: &mut Gen) -> String {
    let mut s = String::new();
    if g.chance(1, 8) {
        for _ in 0..g.small(0, 12) {
            s.push(gen_char(g))
        }
        return s;
    }
    sample(a, g, &mut s);
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..g.weighted(&[5, 3, 2]) {
        let n = cs.len();
        match g.below(4) {
            0 => {
                if n > 0 {
                    let i = g.below(n as u32) as usize;
                    cs[i] = gen_char(g);
                }
            }
            1 => {
                if n > 0 {
                    let i = g.below(n as u32) as usize;
                    cs.remove(i);
                }
            }
            2 => {
                let i = g.below(n as u32 + 1) as usize;
                cs.insert(i, gen_char(g));
            }
            _ => {
                if n > 0 {
                    let i = g.below(n as u32 + 1) as usize;
                    cs.truncate(i);
                }
            }
        }
    }
    if g.chance(1, 2) {
        for _ in 0..g.small(0, 3) {
            cs.push(gen_char(g))
        }
    }
    cs.into_iter().collect()
}
