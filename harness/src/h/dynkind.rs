//! One stream type over every stream kind: the operations are passed on to a stream chosen at run
//! time, so that parsers have to be compiled only once.
#![allow(dead_code)]
use crate::h::build::*;
use combine::error::{StreamError, StringStreamError, Tracked};
use combine::stream::buffered;
use combine::stream::position::{self, DefaultPositioned, IndexPositioner, SourcePosition};
use combine::stream::span::Span;
use combine::stream::{
    easy, read, span, state, CompleteStream, IteratorStream, MaybePartialStream, PartialStream, PointerOffset, Positioned,
    RangeStreamOnce, ResetStream, SliceStream, Stream, StreamErrorFor, StreamOnce,
};
use combine::ParseResult;
use std::any::Any;
use std::rc::Rc;

type E = StringStreamError;

/// Positions of any kind
pub trait ToPos {
    fn to_pos(&self) -> (usize, usize);
}
impl ToPos for usize {
    fn to_pos(&self) -> (usize, usize) {
        (*self, 0)
    }
}
impl ToPos for () {
    fn to_pos(&self) -> (usize, usize) {
        (0, 0)
    }
}
impl ToPos for SourcePosition {
    fn to_pos(&self) -> (usize, usize) {
        (self.line as usize, self.column as usize)
    }
}
impl<T: ?Sized> ToPos for PointerOffset<T> {
    fn to_pos(&self) -> (usize, usize) {
        (self.0, 0)
    }
}
impl<P: ToPos> ToPos for Span<P> {
    fn to_pos(&self) -> (usize, usize) {
        self.start.to_pos()
    }
}

/// A text and the same tokens in other shapes. All slices live as long as the case.
pub struct Source {
    pub text: &'static str,
    pub bounds: Vec<usize>,
    pub chars: &'static [char],
    /// one byte per character: itself if it is ASCII, otherwise 128 + its index in `table`
    pub bytes: &'static [u8],
    pub table: Rc<Vec<char>>,
    pub seed: usize,
}
pub struct Owned {
    pub s: String,
    pub chars: Vec<char>,
    pub bytes: Vec<u8>,
    pub table: Rc<Vec<char>>,
}
impl Owned {
    pub fn new(s: &str) -> Owned {
        let chars: Vec<char> = s.chars().collect();
        let mut table = vec![];
        let bytes = chars
            .iter()
            .map(|c| {
                if c.is_ascii() {
                    return *c as u8;
                }
                let i = table.iter().position(|d| d == c).unwrap_or_else(|| {
                    table.push(*c);
                    table.len() - 1
                });
                assert!(i < 128);
                128 + i as u8
            })
            .collect();
        Owned { s: s.to_string(), chars, bytes, table: Rc::new(table) }
    }
    /// # Safety
    /// The owner must outlive everything made from the source
    pub unsafe fn source(&self, seed: usize) -> Source {
        let text = lend_str(&self.s);
        Source {
            text,
            bounds: text.char_indices().map(|x| x.0).chain(Some(text.len())).collect(),
            chars: lend_slice(&self.chars),
            bytes: lend_slice(&self.bytes),
            table: self.table.clone(),
            seed,
        }
    }
}

/// A reader that returns what it has in small pieces of varying size
pub struct Chunky {
    data: &'static [u8],
    turn: usize,
}
impl std::io::Read for Chunky {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.turn = (self.turn * 5 + 3) % 4096;
        if self.turn / 8 % 7 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = (self.turn / 4 % 3 + 1).min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// Ranges, their size in the stream's own unit and where they are
pub trait Piece {
    const BYTES: bool;
    fn n(&self) -> usize;
    fn at(&self) -> usize;
}
impl Piece for &'static str {
    const BYTES: bool = true;
    fn n(&self) -> usize {
        self.len()
    }
    fn at(&self) -> usize {
        self.as_ptr() as usize
    }
}
impl<T> Piece for &'static [T] {
    const BYTES: bool = false;
    fn n(&self) -> usize {
        self.len()
    }
    fn at(&self) -> usize {
        self.as_ptr() as usize
    }
}

type Res<T> = Result<T, E>;
pub trait Ops {
    fn uncons(&mut self) -> Res<char>;
    fn partial(&self) -> bool;
    fn checkpoint(&self) -> Rc<dyn Any>;
    fn reset(&mut self, c: &dyn Any) -> Res<()>;
    fn position(&self) -> (usize, usize);
    fn uncons_range(&mut self, size: usize) -> Res<&'static str>;
    fn uncons_while(&mut self, f: &mut dyn FnMut(char) -> bool) -> Res<&'static str>;
    fn uncons_while1(&mut self, f: &mut dyn FnMut(char) -> bool) -> ParseResult<&'static str, E>;
    fn distance(&self, c: &dyn Any) -> usize;
    fn range(&self) -> &'static str;
}

fn fail<T, R, X: StreamError<T, R>>(e: X) -> E {
    if e.is_unexpected_end_of_input() {
        E::Eoi
    } else {
        // so that a failure to stop at a character boundary stays one
        e.into_other::<E2>().0
    }
}
/// Keeps the cheap error apart from what it is converted to
pub struct E2(E);
impl<T, R> StreamError<T, R> for E2 {
    fn unexpected_token(_: T) -> Self {
        E2(E::UnexpectedParse)
    }
    fn unexpected_range(_: R) -> Self {
        E2(E::UnexpectedParse)
    }
    fn unexpected_format<X: std::fmt::Display>(_: X) -> Self {
        E2(E::UnexpectedParse)
    }
    fn expected_token(_: T) -> Self {
        E2(E::UnexpectedParse)
    }
    fn expected_range(_: R) -> Self {
        E2(E::UnexpectedParse)
    }
    fn expected_format<X: std::fmt::Display>(_: X) -> Self {
        E2(E::UnexpectedParse)
    }
    fn message_token(_: T) -> Self {
        E2(E::UnexpectedParse)
    }
    fn message_range(_: R) -> Self {
        E2(E::UnexpectedParse)
    }
    fn message_format<X: std::fmt::Display>(_: X) -> Self {
        E2(E::UnexpectedParse)
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.0 == E::Eoi
    }
    fn into_other<X: StreamError<T, R>>(self) -> X {
        X::unexpected_static_message("")
    }
}

/// A stream of tokens
pub struct Tokens<S: StreamOnce>(S, Box<dyn Fn(S::Token) -> char>);
impl<S> Ops for Tokens<S>
where
    S: Stream + 'static,
    S::Position: ToPos,
{
    fn uncons(&mut self) -> Res<char> {
        match self.0.uncons() {
            Ok(t) => Ok(self.1(t)),
            Err(e) => Err(fail(e)),
        }
    }
    fn partial(&self) -> bool {
        self.0.is_partial()
    }
    fn checkpoint(&self) -> Rc<dyn Any> {
        Rc::new(self.0.checkpoint())
    }
    fn reset(&mut self, c: &dyn Any) -> Res<()> {
        let c = c.downcast_ref::<S::Checkpoint>().unwrap();
        self.0.reset(c.clone()).map_err(|_| E::UnexpectedParse)
    }
    fn position(&self) -> (usize, usize) {
        self.0.position().to_pos()
    }
    fn uncons_range(&mut self, _: usize) -> Res<&'static str> {
        unreachable!()
    }
    fn uncons_while(&mut self, _: &mut dyn FnMut(char) -> bool) -> Res<&'static str> {
        unreachable!()
    }
    fn uncons_while1(&mut self, _: &mut dyn FnMut(char) -> bool) -> ParseResult<&'static str, E> {
        unreachable!()
    }
    fn distance(&self, _: &dyn Any) -> usize {
        unreachable!()
    }
    fn range(&self) -> &'static str {
        unreachable!()
    }
}

/// A stream of tokens and ranges, all sizes translated to bytes of the text
pub struct Ranges<S: StreamOnce> {
    s: S,
    map: Box<dyn Fn(S::Token) -> char>,
    src: Rc<Source>,
    base: usize,
    unit: usize,
}
impl<S> Ranges<S>
where
    S: RangeStreamOnce + Stream + 'static,
    S::Range: Piece,
    S::Position: ToPos,
{
    fn new(s: S, map: Box<dyn Fn(S::Token) -> char>, src: Rc<Source>, unit: usize) -> Self {
        let r = s.range();
        assert!(r.n() == if S::Range::BYTES { src.text.len() } else { src.chars.len() });
        Ranges { base: r.at(), s, map, src, unit }
    }
    /// bytes consumed
    fn offset(&self) -> usize {
        let n = self.s.range().n();
        if S::Range::BYTES {
            self.src.text.len() - n
        } else {
            self.src.bounds[self.src.chars.len() - n]
        }
    }
    /// The text at a range, which must be what was consumed from `from` on
    fn text(&self, r: S::Range, from: usize) -> &'static str {
        let first = (r.at() - self.base) / self.unit;
        let (lo, hi) = if S::Range::BYTES {
            (first, first + r.n())
        } else {
            (self.src.bounds[first], self.src.bounds[first + r.n()])
        };
        if lo != from || hi != self.offset() {
            panic!("the range returned covers bytes {}..{} but {}..{} were consumed", lo, hi, from, self.offset());
        }
        &self.src.text[lo..hi]
    }
}
impl<S> Ops for Ranges<S>
where
    S: RangeStreamOnce + Stream + 'static,
    S::Range: Piece,
    S::Position: ToPos,
{
    fn uncons(&mut self) -> Res<char> {
        match self.s.uncons() {
            Ok(t) => Ok((self.map)(t)),
            Err(e) => Err(fail(e)),
        }
    }
    fn partial(&self) -> bool {
        self.s.is_partial()
    }
    fn checkpoint(&self) -> Rc<dyn Any> {
        Rc::new((self.offset(), self.s.checkpoint()))
    }
    fn reset(&mut self, c: &dyn Any) -> Res<()> {
        let c = c.downcast_ref::<(usize, S::Checkpoint)>().unwrap();
        self.s.reset(c.1.clone()).map_err(|_| E::UnexpectedParse)
    }
    fn position(&self) -> (usize, usize) {
        self.s.position().to_pos()
    }
    fn uncons_range(&mut self, size: usize) -> Res<&'static str> {
        let from = self.offset();
        let n = if S::Range::BYTES {
            size
        } else if from + size > self.src.text.len() {
            self.s.range().n() + (from + size - self.src.text.len())
        } else {
            match self.src.text.get(from..from + size) {
                Some(t) => t.chars().count(),
                None => return Err(E::CharacterBoundary),
            }
        };
        match self.s.uncons_range(n) {
            Ok(r) => Ok(self.text(r, from)),
            Err(e) => Err(fail(e)),
        }
    }
    fn uncons_while(&mut self, f: &mut dyn FnMut(char) -> bool) -> Res<&'static str> {
        let from = self.offset();
        let map = &self.map;
        match self.s.uncons_while(|t| f(map(t))) {
            Ok(r) => Ok(self.text(r, from)),
            Err(e) => Err(fail(e)),
        }
    }
    fn uncons_while1(&mut self, f: &mut dyn FnMut(char) -> bool) -> ParseResult<&'static str, E> {
        use ParseResult::*;
        let from = self.offset();
        let map = &self.map;
        match self.s.uncons_while1(|t| f(map(t))) {
            CommitOk(r) => CommitOk(self.text(r, from)),
            PeekOk(r) => PeekOk(self.text(r, from)),
            CommitErr(e) => CommitErr(fail(e)),
            PeekErr(e) => PeekErr(Tracked::from(fail(e.error))),
        }
    }
    fn distance(&self, c: &dyn Any) -> usize {
        let c = c.downcast_ref::<(usize, S::Checkpoint)>().unwrap();
        let d = self.s.distance(&c.1);
        if S::Range::BYTES {
            d
        } else {
            let i = self.src.bounds.iter().position(|b| *b == c.0).unwrap();
            self.src.bounds[i + d] - c.0
        }
    }
    fn range(&self) -> &'static str {
        let from = self.offset();
        let r = self.s.range();
        let first = (r.at() - self.base) / self.unit;
        let lo = if S::Range::BYTES { first } else { self.src.bounds[first] };
        if lo != from {
            panic!("range() starts at byte {} but {} bytes were consumed", lo, from);
        }
        &self.src.text[from..]
    }
}

pub struct Dyn(pub Box<dyn Ops>);
impl StreamOnce for Dyn {
    type Token = char;
    type Range = &'static str;
    type Position = (usize, usize);
    type Error = E;
    fn uncons(&mut self) -> Result<char, StreamErrorFor<Self>> {
        self.0.uncons()
    }
    fn is_partial(&self) -> bool {
        self.0.partial()
    }
}
impl Positioned for Dyn {
    fn position(&self) -> (usize, usize) {
        self.0.position()
    }
}
impl ResetStream for Dyn {
    type Checkpoint = Rc<dyn Any>;
    fn checkpoint(&self) -> Self::Checkpoint {
        self.0.checkpoint()
    }
    fn reset(&mut self, c: Self::Checkpoint) -> Result<(), E> {
        self.0.reset(&*c)
    }
}
impl RangeStreamOnce for Dyn {
    fn uncons_range(&mut self, size: usize) -> Result<&'static str, StreamErrorFor<Self>> {
        self.0.uncons_range(size)
    }
    fn uncons_while<F>(&mut self, mut f: F) -> Result<&'static str, StreamErrorFor<Self>>
    where
        F: FnMut(char) -> bool,
    {
        self.0.uncons_while(&mut f)
    }
    fn uncons_while1<F>(&mut self, mut f: F) -> ParseResult<&'static str, StreamErrorFor<Self>>
    where
        F: FnMut(char) -> bool,
    {
        self.0.uncons_while1(&mut f)
    }
    fn distance(&self, end: &Self::Checkpoint) -> usize {
        self.0.distance(&**end)
    }
    fn range(&self) -> &'static str {
        self.0.range()
    }
}
str_src!(Dyn, (0, 0));

/// Makes a stream (with more input to come if asked for, which only the partial kinds can have)
pub type Maker = fn(&Rc<Source>, bool) -> Dyn;
pub struct KindInfo {
    pub name: &'static str,
    pub ranges: bool,
    pub make: Maker,
}

type SStr = &'static str;
type SChars = &'static [char];
type SBytes = &'static [u8];
type SpanErr<T, R, P> = easy::Errors<T, R, Span<P>>;

fn same() -> Box<dyn Fn(char) -> char> {
    Box::new(|c| c)
}
fn by_ref() -> Box<dyn Fn(&'static char) -> char> {
    Box::new(|c| *c)
}
fn to_char(b: u8, table: &[char]) -> char {
    if b < 128 {
        b as char
    } else {
        table[b as usize - 128]
    }
}
fn by_table(s: &Rc<Source>) -> Box<dyn Fn(u8) -> char> {
    let t = s.table.clone();
    Box::new(move |b| to_char(b, &t))
}
fn by_table_ref(s: &Rc<Source>) -> Box<dyn Fn(&'static u8) -> char> {
    let t = s.table.clone();
    Box::new(move |b| to_char(*b, &t))
}
fn iter(s: &Rc<Source>) -> IteratorStream<std::str::Chars<'static>> {
    IteratorStream::new(s.text.chars())
}
fn pos_def<I>(i: I) -> position::Stream<I, I::Positioner>
where
    I: StreamOnce + DefaultPositioned,
    I::Positioner: position::Positioner<I::Token>,
{
    position::Stream::new(i)
}
fn pos_src<I>(i: I) -> position::Stream<I, SourcePosition>
where
    I: StreamOnce,
    SourcePosition: position::Positioner<I::Token>,
{
    position::Stream::with_positioner(i, SourcePosition::new())
}
fn spanned<S, P: From<S>>(s: S) -> P {
    P::from(s)
}
fn buf<I: StreamOnce + Positioned>(i: I, s: &Rc<Source>) -> buffered::Stream<I> {
    buffered::Stream::new(i, s.chars.len() + s.seed % 2)
}
fn lend_mut(s: SStr) -> &'static mut SStr {
    Box::leak(Box::new(s))
}
fn st<S>(s: S) -> state::Stream<S, Vec<u8>> {
    state::Stream { stream: s, state: vec![1] }
}
fn rd(s: &Rc<Source>) -> read::Stream<Chunky> {
    read::Stream::new(Chunky { data: s.bytes, turn: s.seed })
}

macro_rules! kinds {
    ($table:ident; $( $name:expr, $mode:ident, |$s:ident $(, $p:ident)?| $e:expr, $map:expr $(, $unit:expr)?; )+) => {
        pub static $table: &[KindInfo] = &[ $( KindInfo { name: $name, ranges: kinds!(@r $mode), make: {
            #[allow(unused_variables)]
            fn make($s: &Rc<Source>, partial: bool) -> Dyn { $( let $p = partial; )? kinds!(@m $mode, $s, $e, $map $(, $unit)?) }
            make
        } } ),+ ];
    };
    (@r rng) => { true };
    (@r tok) => { false };
    (@m rng, $s:ident, $e:expr, $map:expr, $unit:expr) => { Dyn(Box::new(Ranges::new($e, $map, $s.clone(), $unit))) };
    (@m tok, $s:ident, $e:expr, $map:expr) => { Dyn(Box::new(Tokens($e, $map))) };
}
kinds! { KINDS;
    "str", rng, |s| s.text, same(), 1;
    "slice of char", rng, |s| s.chars, same(), 4;
    "slice of u8", rng, |s| s.bytes, by_table(s), 1;
    "SliceStream of char", rng, |s| SliceStream(s.chars), by_ref(), 4;
    "SliceStream of u8", rng, |s| SliceStream(s.bytes), by_table_ref(s), 1;
    "position(str)", rng, |s| pos_def(s.text), same(), 1;
    "position(str) by index", rng, |s| position::Stream::with_positioner(s.text, IndexPositioner::new()), same(), 1;
    "position(slice)", rng, |s| pos_def(s.chars), same(), 4;
    "position(SliceStream)", rng, |s| pos_def(SliceStream(s.chars)), by_ref(), 4;
    "position(bytes)", rng, |s| pos_def(s.bytes), by_table(s), 1;
    "easy(str)", rng, |s| easy::Stream(s.text), same(), 1;
    "easy(slice)", rng, |s| easy::Stream(s.chars), same(), 4;
    "easy(position(str))", rng, |s| easy::Stream(pos_def(s.text)), same(), 1;
    "position(complete(str)) by line", rng, |s| pos_src(CompleteStream(s.text)), same(), 1;
    "complete(str)", rng, |s| CompleteStream(s.text), same(), 1;
    "complete partial(str)", rng, |s| MaybePartialStream(s.text, false), same(), 1;
    "complete partial(easy(position(slice)))", rng, |s| MaybePartialStream(easy::Stream(pos_def(s.chars)), false), same(), 4;
    "position(bytes) by line", tok, |s| pos_src(s.bytes), by_table(s);
    "easy(position(bytes)) by line", tok, |s| easy::Stream(pos_src(s.bytes)), by_table(s);
    "complete(partial(str))", rng, |s| CompleteStream(PartialStream(s.text)), same(), 1;
    "complete(easy(partial(position(slice))))", rng, |s| CompleteStream(easy::Stream(PartialStream(pos_def(s.chars)))), same(), 4;
    "complete partial(partial(str))", rng, |s| MaybePartialStream(PartialStream(s.text), false), same(), 1;
    "span(complete(state(partial(bytes))))", rng, |s| spanned::<_, span::Stream<CompleteStream<state::Stream<PartialStream<SBytes>, Vec<u8>>>, SpanErr<u8, SBytes, PointerOffset<[u8]>>>>(CompleteStream(st(PartialStream(s.bytes)))), by_table(s), 1;
    "state(str)", rng, |s| st(s.text), same(), 1;
    "state(position(bytes))", rng, |s| st(pos_def(s.bytes)), by_table(s), 1;
    "span(position(str))", rng, |s| spanned::<_, span::Stream<position::Stream<SStr, SourcePosition>, SpanErr<char, SStr, SourcePosition>>>(pos_def(s.text)), same(), 1;
    "span(slice)", rng, |s| spanned::<_, span::Stream<SChars, SpanErr<char, SChars, PointerOffset<[char]>>>>(s.chars), same(), 4;
    "state(span(easy(position(bytes))))", rng, |s| st(spanned::<_, span::Stream<easy::Stream<position::Stream<SBytes, IndexPositioner>>, SpanErr<u8, SBytes, usize>>>(easy::Stream(pos_def(s.bytes)))), by_table(s), 1;
    "borrowed str", rng, |s| lend_mut(s.text), same(), 1;
    "position(iterator)", tok, |s| pos_def(IteratorStream::new(s.chars.iter().cloned())), same();
    "position(iterator) by line", tok, |s| pos_src(iter(s)), same();
    "buffered(position(iterator))", tok, |s| buf(pos_src(iter(s)), s), same();
    "buffered(easy(position(iterator)))", tok, |s| buf(easy::Stream(pos_def(iter(s))), s), same();
    "easy(buffered(position(iterator)))", tok, |s| easy::Stream(buf(pos_def(iter(s)), s)), same();
    "buffered(position(reader))", tok, |s| buf(pos_def(rd(s)), s), by_table(s);
    "state(buffered(position(reader)))", tok, |s| st(buf(pos_def(rd(s)), s)), by_table(s);
    "buffered(str)", tok, |s| buf(s.text, s), same();
    "complete partial(buffered(position(slice)))", tok, |s| MaybePartialStream(buf(pos_def(s.chars), s), false), same();
    "buffered(position(reader)) by line", tok, |s| buf(pos_src(rd(s)), s), by_table(s);
    "complete(buffered(partial(position(iterator))))", tok, |s| CompleteStream(buf(PartialStream(pos_src(iter(s))), s)), same();
    "span(buffered(position(iterator)))", tok, |s| spanned::<_, span::Stream<buffered::Stream<position::Stream<IteratorStream<std::str::Chars<'static>>, SourcePosition>>, SpanErr<char, char, SourcePosition>>>(buf(pos_src(iter(s)), s)), same();
}

// The partial wrapper under, between and over the other ones
kinds! { PARTIAL;
    "partial(str)", rng, |s, p| MaybePartialStream(s.text, p), same(), 1;
    "span(partial(str))", rng, |s, p| spanned::<_, span::Stream<MaybePartialStream<SStr>, SpanErr<char, SStr, PointerOffset<str>>>>(MaybePartialStream(s.text, p)), same(), 1;
    "state(partial(slice))", rng, |s, p| st(MaybePartialStream(s.chars, p)), same(), 4;
    "position(partial(str))", rng, |s, p| pos_src(MaybePartialStream(s.text, p)), same(), 1;
    "position(partial(bytes))", rng, |s, p| position::Stream::with_positioner(MaybePartialStream(s.bytes, p), IndexPositioner::new()), by_table(s), 1;
    "position(partial(bytes)) by line", tok, |s, p| pos_src(MaybePartialStream(s.bytes, p)), by_table(s);
    "easy(partial(bytes))", rng, |s, p| easy::Stream(MaybePartialStream(s.bytes, p)), by_table(s), 1;
    "partial(complete(str))", rng, |s, p| MaybePartialStream(CompleteStream(s.text), p), same(), 1;
    "partial(partial(slice))", rng, |s, p| MaybePartialStream(PartialStream(s.chars), p), same(), 4;
    "partial(SliceStream)", rng, |s, p| MaybePartialStream(SliceStream(s.chars), p), by_ref(), 4;
    "span(easy(position(partial(bytes))))", tok, |s, p| spanned::<_, span::Stream<easy::Stream<position::Stream<MaybePartialStream<SBytes>, SourcePosition>>, SpanErr<u8, SBytes, SourcePosition>>>(easy::Stream(pos_src(MaybePartialStream(s.bytes, p)))), by_table(s);
    "partial(state(span(str)))", rng, |s, p| MaybePartialStream(st(spanned::<_, span::Stream<SStr, SpanErr<char, SStr, PointerOffset<str>>>>(s.text)), p), same(), 1;
    "borrowed partial(str)", rng, |s, p| Box::leak(Box::new(MaybePartialStream(s.text, p))), same(), 1;
    "buffered(partial(position(iterator)))", tok, |s, p| buf(MaybePartialStream(pos_src(iter(s)), p), s), same();
    "easy(buffered(partial(position(reader))))", tok, |s, p| easy::Stream(buf(MaybePartialStream(pos_def(rd(s)), p), s)), by_table(s);
    "span(buffered(position(partial(iterator))))", tok, |s, p| spanned::<_, span::Stream<buffered::Stream<position::Stream<MaybePartialStream<IteratorStream<std::str::Chars<'static>>>, SourcePosition>>, SpanErr<char, char, SourcePosition>>>(buf(pos_src(MaybePartialStream(iter(s), p)), s)), same();
}
