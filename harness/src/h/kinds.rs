//! The stream kinds with characters as tokens.
use crate::h::build::*;
use combine::stream::position::{self, IndexPositioner, SourcePosition};
use combine::stream::{buffered, easy, span, state, IteratorStream, MaybePartialStream, PointerOffset, Positioned};
use combine::{RangeStreamOnce, Stream};

pub type Str = &'static str;
pub type Slice = &'static [char];
pub type PosStr = position::Stream<&'static str, SourcePosition>;
pub type EasyPos = easy::Stream<PosStr>;
pub type PosSlice = easy::Stream<position::Stream<&'static [char], IndexPositioner>>;
pub type SpanState = state::Stream<span::Stream<PosStr, easy::Errors<char, &'static str, span::Span<SourcePosition>>>, u32>;
pub type Iter = IteratorStream<std::str::Chars<'static>>;
pub type BufIter = buffered::Stream<easy::Stream<position::Stream<Iter, SourcePosition>>>;
pub type PartialSpan = span::Stream<easy::Stream<MaybePartialStream<&'static str>>, easy::Errors<char, &'static str, span::Span<PointerOffset<str>>>>;

str_src!(Str, PointerOffset::new(0));
tok_src!(Slice, PointerOffset::new(0));
str_src!(PosStr, SourcePosition::new());
str_src!(EasyPos, SourcePosition::new());
tok_src!(PosSlice, 0);
str_src!(SpanState, span::Span::from(SourcePosition::new()));
tok_src!(BufIter, SourcePosition::new());
str_src!(PartialSpan, span::Span::from(PointerOffset::new(0)));

pub trait Kind: Src + Positioned {
    const NAME: &'static str;
    /// The stream over a text which has also been split into characters
    fn make(s: &str, chars: &[char]) -> Self;
    /// Where the rest of the input is in memory, if the stream can say so
    fn mark(&self) -> usize {
        0
    }
}
impl Kind for Str {
    const NAME: &'static str = "str";
    fn make(s: &str, _: &[char]) -> Self {
        unsafe { lend_str(s) }
    }
    fn mark(&self) -> usize {
        self.range().as_ptr() as usize
    }
}
impl Kind for Slice {
    const NAME: &'static str = "slice";
    fn make(_: &str, c: &[char]) -> Self {
        unsafe { lend_slice(c) }
    }
    fn mark(&self) -> usize {
        self.range().as_ptr() as usize
    }
}
impl Kind for PosStr {
    const NAME: &'static str = "position(str)";
    fn make(s: &str, _: &[char]) -> Self {
        position::Stream::new(unsafe { lend_str(s) })
    }
    fn mark(&self) -> usize {
        self.range().as_ptr() as usize
    }
}
impl Kind for EasyPos {
    const NAME: &'static str = "easy(position(str))";
    fn make(s: &str, c: &[char]) -> Self {
        easy::Stream(PosStr::make(s, c))
    }
    fn mark(&self) -> usize {
        self.range().as_ptr() as usize
    }
}
impl Kind for PosSlice {
    const NAME: &'static str = "easy(position(slice))";
    fn make(_: &str, c: &[char]) -> Self {
        easy::Stream(position::Stream::new(unsafe { lend_slice(c) }))
    }
    fn mark(&self) -> usize {
        self.range().as_ptr() as usize
    }
}
impl Kind for SpanState {
    const NAME: &'static str = "state(span(position(str)))";
    fn make(s: &str, c: &[char]) -> Self {
        state::Stream { stream: PosStr::make(s, c).into(), state: 7 }
    }
    fn mark(&self) -> usize {
        self.range().as_ptr() as usize
    }
}
impl Kind for BufIter {
    const NAME: &'static str = "buffered(easy(position(iterator)))";
    fn make(s: &str, c: &[char]) -> Self {
        let it = IteratorStream::new(unsafe { lend_str(s) }.chars());
        buffered::Stream::new(easy::Stream(position::Stream::with_positioner(it, SourcePosition::new())), c.len() + 1)
    }
}
impl Kind for PartialSpan {
    const NAME: &'static str = "span(easy(complete partial(str)))";
    fn make(s: &str, _: &[char]) -> Self {
        easy::Stream(MaybePartialStream(unsafe { lend_str(s) }, false)).into()
    }
    fn mark(&self) -> usize {
        self.range().as_ptr() as usize
    }
}

/// What is left of a stream: every token with the position in front of it, and the end
#[derive(PartialEq, Debug, Clone)]
pub struct Rest<P> {
    pub mark: usize,
    pub tokens: Vec<(P, char)>,
    pub end: P,
}
pub fn rest<I>(input: &mut I) -> Rest<I::Position>
where
    I: Kind + Stream<Token = char>,
{
    let mark = input.mark();
    let mut tokens = vec![];
    loop {
        let p = input.position();
        match input.uncons() {
            Ok(c) => tokens.push((p, c)),
            Err(_) => return Rest { mark, tokens, end: p },
        }
    }
}
