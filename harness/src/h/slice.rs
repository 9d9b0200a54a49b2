//! The slice model of a range stream, and tokens and ranges of any kind.
#![allow(dead_code)]
use crate::h::gen::*;
use crate::h::runner::*;

/// A token as a number
pub trait Tok {
    fn num(&self) -> u32;
}
impl Tok for char {
    fn num(&self) -> u32 {
        *self as u32
    }
}
impl Tok for u8 {
    fn num(&self) -> u32 {
        *self as u32
    }
}
impl Tok for u64 {
    fn num(&self) -> u32 {
        *self as u32
    }
}
impl Tok for () {
    fn num(&self) -> u32 {
        0
    }
}
impl Tok for String {
    fn num(&self) -> u32 {
        self.parse().unwrap()
    }
}
impl<T: Tok> Tok for &'_ T {
    fn num(&self) -> u32 {
        (**self).num()
    }
}
/// Where a range lies: address and size in bytes
pub trait Loc {
    fn loc(&self) -> (usize, usize);
    fn nums(&self) -> Vec<u32>;
}
impl Loc for &'static str {
    fn loc(&self) -> (usize, usize) {
        (self.as_ptr() as usize, self.len())
    }
    fn nums(&self) -> Vec<u32> {
        self.chars().map(|c| c as u32).collect()
    }
}
impl<T: Tok> Loc for &'static [T] {
    fn loc(&self) -> (usize, usize) {
        (self.as_ptr() as usize, std::mem::size_of_val(*self))
    }
    fn nums(&self) -> Vec<u32> {
        self.iter().map(|c| c.num()).collect()
    }
}

pub struct Model {
    pub toks: Vec<u32>,
    /// units before every token, and in total
    pub units: Vec<usize>,
    /// bytes before every token, and in total
    pub bytes: Vec<usize>,
    pub addr: usize,
    pub partial: bool,
}

#[derive(Debug, Clone, Copy)]
pub enum Test {
    /// accepts this many tokens
    First(usize),
    /// accepts tokens by value
    Mod(u32, u32),
    All,
}
impl Test {
    pub fn run(&self, i: usize, t: u32) -> bool {
        match *self {
            Test::First(n) => i < n,
            Test::Mod(m, k) => t % m != k,
            Test::All => true,
        }
    }
}

pub enum Size {
    Fits(usize),
    Short,
    Within,
}
impl Model {
    pub fn size(&self, at: usize, n: usize) -> Size {
        let to = self.units[at] + n;
        if to > *self.units.last().unwrap() {
            return Size::Short;
        }
        match self.units.iter().rposition(|u| *u == to) {
            // tokens of no width don't occur: the position is unique
            Some(i) => Size::Fits(i),
            None => Size::Within,
        }
    }
    pub fn span(&self, at: usize, t: Test) -> (usize, Vec<u32>) {
        let mut seen = vec![];
        let mut i = at;
        while i < self.toks.len() {
            seen.push(self.toks[i]);
            if !t.run(i - at, self.toks[i]) {
                break;
            }
            i += 1;
        }
        (i, seen)
    }
    pub fn range<R: Loc>(&self, r: &R, from: usize, to: usize) -> Res {
        let (a, n) = r.loc();
        if n != self.bytes[to] - self.bytes[from] || (n > 0 && a != self.addr + self.bytes[from]) {
            return Err(format!(
                "the range is bytes {}..+{} instead of {}..{}",
                a as i64 - self.addr as i64, n, self.bytes[from], self.bytes[to]
            ));
        }
        if r.nums() != self.toks[from..to] {
            return Err(format!("the range is {:?} instead of {:?}", r.nums(), &self.toks[from..to]));
        }
        Ok(())
    }
}

pub fn gen_test(g: &mut Gen, n: usize) -> Test {
    match g.below(4) {
        0 => Test::First(g.below(n as u32 + 2) as usize),
        1 => Test::First(g.below(3) as usize),
        2 => Test::Mod(2 + g.below(5), g.below(3)),
        _ => Test::All,
    }
}

pub const CHARS: [char; 10] = ['a', 'b', '1', '\n', '\t', 'é', '漢', '\u{1F980}', '\u{7ff}', '\u{ffff}'];

pub struct Data {
    pub text: String,
    pub chars: Vec<char>,
    pub bytes: Vec<u8>,
    pub wide: Vec<u64>,
    pub unit: Vec<()>,
    pub strings: Vec<String>,
}

// Safety of all: the data outlives the streams
pub fn text(d: &Data) -> &'static str {
    unsafe { crate::h::build::lend_str(&d.text) }
}
pub fn sl<T>(d: &[T]) -> &'static [T] {
    unsafe { crate::h::build::lend_slice(d) }
}
pub fn gen_data(g: &mut Gen, n: usize, alphabet: &[char]) -> Data {
    let chars: Vec<char> = (0..n).map(|_| *g.pick(alphabet)).collect();
    let bytes: Vec<u8> = chars.iter().map(|c| if (*c as u32) < 128 { *c as u8 } else { 200 + (*c as u32 % 50) as u8 }).collect();
    Data {
        text: chars.iter().collect(),
        wide: bytes.iter().map(|b| *b as u64).collect(),
        unit: chars.iter().map(|_| ()).collect(),
        strings: bytes.iter().map(|b| b.to_string()).collect(),
        chars,
        bytes,
    }
}


impl Model {
    pub fn text(d: &Data, partial: bool) -> Model {
        let bounds: Vec<usize> = d.text.char_indices().map(|x| x.0).chain(Some(d.text.len())).collect();
        Model {
            toks: d.chars.iter().map(|c| *c as u32).collect(),
            units: bounds.clone(),
            bytes: bounds,
            addr: d.text.as_ptr() as usize,
            partial,
        }
    }
    pub fn slice<T: Tok>(d: &[T], partial: bool) -> Model {
        Model {
            toks: d.iter().map(|c| c.num()).collect(),
            units: (0..=d.len()).collect(),
            bytes: (0..=d.len()).map(|i| i * std::mem::size_of::<T>()).collect(),
            addr: d.as_ptr() as usize,
            partial,
        }
    }
}
