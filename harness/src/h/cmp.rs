//! Comparison with the reference interpreter.
use crate::h::ast::*;
use crate::h::build::*;
use crate::h::gen::*;
use crate::h::model::*;
use crate::h::runner::*;
use combine::stream::{easy, PointerOffset};
use combine::Parser;
use combine::ParseResult::*;

pub type Plain = &'static str;
pub type Easy = easy::Stream<&'static str>;
str_src!(Plain, PointerOffset::new(0));
str_src!(Easy, PointerOffset::new(0));

/// Runs `a` on `s` with cheap and with rich errors and compares with the reference interpreter
pub fn compare(a: &A, s: &str, g: &mut Gen) -> Res {
    let cs: Vec<char> = s.chars().collect();
    let mut m = M::new(&cs);
    let want = m.run(a);
    let want_rest: String = match want {
        R::Ok(..) => cs[m.pos..].iter().collect(),
        R::Err(_) => String::new(),
    };
    let (sa, ss) = unsafe { (lend(a), lend_str(s)) };
    // plain string, cheap errors
    let mut input: Plain = ss;
    let mut p = build::<Plain>(sa);
    let r = p.parse_stream(&mut input);
    g.checks += 1;
    let show = |r: &R, rest: &str| format!("{:?} rest {:?}", r, rest);
    let got = match &r {
        CommitOk(v) => R::Ok(v.clone(), true),
        PeekOk(v) => R::Ok(v.clone(), false),
        CommitErr(_) => R::Err(true),
        PeekErr(_) => R::Err(false),
    };
    if got != want {
        return Err(format!("on {:?}: got {} but the grammar means {}", s, show(&got, input), show(&want, &want_rest)));
    }
    match got {
        R::Ok(..) => {
            if input != want_rest {
                return Err(format!("on {:?}: {:?}, left {:?} instead of {:?}", s, got, input, want_rest));
            }
        }
        R::Err(false) => {
            if input != s {
                return Err(format!("on {:?}: failed without committing but left {:?}", s, input));
            }
        }
        _ => {}
    }
    // rich errors
    let mut input: Easy = easy::Stream(ss);
    let mut p = build::<Easy>(sa);
    let r = p.parse_stream(&mut input);
    g.checks += 1;
    let got2 = match &r {
        CommitOk(v) => R::Ok(v.clone(), true),
        PeekOk(v) => R::Ok(v.clone(), false),
        CommitErr(_) => R::Err(true),
        PeekErr(_) => R::Err(false),
    };
    if got2 != want {
        return Err(format!("easy stream on {:?}: got {:?} but the grammar means {:?}", s, got2, want));
    }
    if let R::Ok(..) = got2 {
        if input.0 != want_rest {
            return Err(format!("easy stream on {:?}: left {:?} instead of {:?}", s, input.0, want_rest));
        }
    }
    // non-trivial: something beyond one token was decided
    match &want {
        R::Ok(v, true) if m.pos >= 2 => {
            g.label("accepted");
            if v.size() > 2 {
                g.nontrivial(hash_str(&format!("{:?}|{}", a, s)))
            }
        }
        R::Ok(..) => g.label("accepted_short"),
        R::Err(true) => {
            g.label("committed_failure");
            g.nontrivial(hash_str(&format!("{:?}|{}", a, s)))
        }
        R::Err(false) => {
            g.label("peek_failure");
            if m.far > 1 {
                g.nontrivial(hash_str(&format!("{:?}|{}", a, s)))
            }
        }
    }
    if m.backtracked {
        g.label("backtracked");
    }
    Ok(())
}

