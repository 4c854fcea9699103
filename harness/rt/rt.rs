//! Run time of the replay harness: reads scenarios generated from the TLA+
//! specification, drives mock objects through them and compares every outcome
//! with the one that the specification computed.
#![allow(dead_code, unused_variables, unused_mut, unused_imports, clippy::all)]
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::{self, Debug, Display, Write as _};
use std::io::{BufRead, Write as _};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

pub use mockall::{Predicate, Sequence};
use mockall::predicate;
#[path = "conc.rs"]
pub mod conc;
pub use conc::{act, point};

// ---------------------------------------------------------------------------
// Values: every concrete type used in a mocked signature encodes integers.

pub const BAD: i64 = 999_999_999;

pub trait Tok: 'static + Sized {
    fn enc(v: i64) -> Self;
    fn dec(&self) -> i64;
    /// How mockall must print it
    fn show(&self) -> String;
}
macro_rules! tok_int { ($($t:ty),*) => { $(impl Tok for $t {
    fn enc(v: i64) -> Self { v as $t }
    fn dec(&self) -> i64 { *self as i64 }
    fn show(&self) -> String { format!("{:?}", self) }
})* } }
tok_int!(u8, i8, u16, i16, u32, i32, u64, i64, usize, u128);
impl Tok for bool {
    fn enc(v: i64) -> Self { v != 0 }
    fn dec(&self) -> i64 { *self as i64 }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl Tok for char {
    fn enc(v: i64) -> Self { char::from_u32(v as u32 + 0x100).unwrap() }
    fn dec(&self) -> i64 { *self as i64 - 0x100 }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl Tok for f64 {
    fn enc(v: i64) -> Self { v as f64 }
    fn dec(&self) -> i64 { *self as i64 }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl Tok for () {
    fn enc(_: i64) -> Self { }
    fn dec(&self) -> i64 { 0 }
    fn show(&self) -> String { format!("{:?}", self) }
}
pub fn dec_str(s: &str) -> i64 {
    if s.is_empty() { return 0 }    // the default
    s.strip_prefix('s').and_then(|x| x.parse().ok()).unwrap_or(BAD)
}
impl Tok for String {
    fn enc(v: i64) -> Self { format!("s{v}") }
    fn dec(&self) -> i64 { dec_str(self) }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl Tok for &'static str {
    fn enc(v: i64) -> Self { Box::leak(format!("s{v}").into_boxed_str()) }
    fn dec(&self) -> i64 { dec_str(self) }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl Tok for std::path::PathBuf {
    fn enc(v: i64) -> Self { format!("s{v}").into() }
    fn dec(&self) -> i64 { dec_str(self.to_str().unwrap()) }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl Tok for std::ffi::OsString {
    fn enc(v: i64) -> Self { format!("s{v}").into() }
    fn dec(&self) -> i64 { dec_str(self.to_str().unwrap()) }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl Tok for std::ffi::CString {
    fn enc(v: i64) -> Self { std::ffi::CString::new(format!("s{v}")).unwrap() }
    fn dec(&self) -> i64 { dec_str(self.to_str().unwrap()) }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl<T: Tok + Debug> Tok for Option<T> {
    fn enc(v: i64) -> Self { Some(T::enc(v)) }
    fn dec(&self) -> i64 { self.as_ref().map(T::dec).unwrap_or(0) }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl<T: Tok + Debug, E: Debug + 'static> Tok for Result<T, E> {
    fn enc(v: i64) -> Self { Ok(T::enc(v)) }
    fn dec(&self) -> i64 { self.as_ref().map(T::dec).unwrap_or(BAD) }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl<T: Tok + Debug> Tok for Box<T> {
    fn enc(v: i64) -> Self { Box::new(T::enc(v)) }
    fn dec(&self) -> i64 { (**self).dec() }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl<T: Tok + Debug> Tok for std::rc::Rc<T> {
    fn enc(v: i64) -> Self { std::rc::Rc::new(T::enc(v)) }
    fn dec(&self) -> i64 { (**self).dec() }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl<T: Tok + Debug> Tok for std::sync::Arc<T> {
    fn enc(v: i64) -> Self { std::sync::Arc::new(T::enc(v)) }
    fn dec(&self) -> i64 { (**self).dec() }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl<T: Tok + Debug> Tok for Vec<T> {
    fn enc(v: i64) -> Self { vec![T::enc(v), T::enc(7)] }
    fn dec(&self) -> i64 { dec_slice(self) }
    fn show(&self) -> String { format!("{:?}", self) }
}
pub fn dec_slice<T: Tok>(s: &[T]) -> i64 {
    if s.is_empty() { 0 } else if s.len() == 2 && s[1].dec() == 7 { s[0].dec() } else { BAD }
}
impl<A: Tok + Debug, B: Tok + Debug> Tok for (A, B) {
    fn enc(v: i64) -> Self { (A::enc(v), B::enc(v + 1)) }
    fn dec(&self) -> i64 {
        let v = self.0.dec();
        if self.1.dec() == v + 1 { v } else { BAD }
    }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl<T: Tok + Debug> Tok for [T; 2] {
    fn enc(v: i64) -> Self { [T::enc(v), T::enc(v + 1)] }
    fn dec(&self) -> i64 {
        let v = self[0].dec();
        if self[1].dec() == v + 1 { v } else { BAD }
    }
    fn show(&self) -> String { format!("{:?}", self) }
}
impl Tok for std::time::Duration {
    fn enc(v: i64) -> Self { std::time::Duration::from_millis(v as u64) }
    fn dec(&self) -> i64 { self.as_millis() as i64 }
    fn show(&self) -> String { format!("{:?}", self) }
}
/// No Debug, no PartialEq, no Clone
pub struct Opaque(pub i64);
impl Tok for Opaque {
    fn enc(v: i64) -> Self { Opaque(v) }
    fn dec(&self) -> i64 { self.0 }
    fn show(&self) -> String { "?".into() }
}
/// Clone and PartialEq, but no Debug and no Default
#[derive(Clone, PartialEq)]
pub struct NoDbg(pub i64);
impl Tok for NoDbg {
    fn enc(v: i64) -> Self { NoDbg(v) }
    fn dec(&self) -> i64 { self.0 }
    fn show(&self) -> String { "?".into() }
}
/// Debug and Clone, but no Default
#[derive(Clone, PartialEq, Debug)]
pub struct NoDefault(pub i64);
impl Tok for NoDefault {
    fn enc(v: i64) -> Self { NoDefault(v) }
    fn dec(&self) -> i64 { self.0 }
    fn show(&self) -> String { format!("{:?}", self) }
}
/// Default is recognisable, and not zero
#[derive(Clone, PartialEq, Debug)]
pub struct Def(pub i64);
impl Default for Def { fn default() -> Self { Def(DEFVAL) } }
pub const DEFVAL: i64 = 424242;
impl Tok for Def {
    fn enc(v: i64) -> Self { Def(v) }
    fn dec(&self) -> i64 { if self.0 == DEFVAL { 0 } else if self.0 == 0 { BAD } else { self.0 } }
    fn show(&self) -> String { format!("{:?}", self) }
}
/// Not Send
#[derive(Clone, PartialEq, Debug)]
pub struct NotSend(pub i64, std::marker::PhantomData<*const ()>);
impl Tok for NotSend {
    fn enc(v: i64) -> Self { NotSend(v, std::marker::PhantomData) }
    fn dec(&self) -> i64 { self.0 }
    fn show(&self) -> String { format!("{:?}", self) }
}
thread_local! { pub static DEBUG_PANICS: Cell<bool> = const { Cell::new(false) }; }
/// What it costs to return a copy of it: a panic
pub struct PanClone;
impl Clone for PanClone { fn clone(&self) -> Self { user_panic() } }
macro_rules! pan_into { ($($t:ty)*) => { $(impl From<PanClone> for $t { fn from(_: PanClone) -> Self { <$t as Tok>::enc(0) } })* } }
pan_into!(u32 u64 i64 String Touchy);
/// Its Debug panics on request
#[derive(Clone, PartialEq)]
pub struct Touchy(pub i64);
impl Debug for Touchy {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if DEBUG_PANICS.with(|d| d.get()) { panic_any(UserPanic) }
        write!(f, "Touchy({})", self.0)
    }
}
impl Tok for Touchy {
    fn enc(v: i64) -> Self { Touchy(v) }
    fn dec(&self) -> i64 { self.0 }
    fn show(&self) -> String { format!("Touchy({})", self.0) }
}
// Arguments of concretized methods: they note which object was looked at
pub trait Look { fn look(&self) -> i64; fn poke(&mut self); }
pub trait Looker: Look { fn mk(v: i64) -> Self; }
thread_local! {
    static LOOKED: RefCell<Vec<usize>> = RefCell::new(vec![]);
    static POKED: Cell<i64> = Cell::new(0);
    static CALLED: Cell<i64> = Cell::new(0);
    static PICK: Cell<usize> = Cell::new(0);
}
fn looked<T>(t: &T) { LOOKED.with(|l| l.borrow_mut().push(t as *const T as usize)) }
macro_rules! looker { ($($t:ty),*) => { $(impl Look for $t {
    fn look(&self) -> i64 { looked(self); Tok::dec(self) }
    fn poke(&mut self) { POKED.with(|p| p.set(p.get() + 1)); *self = Tok::enc(Tok::dec(self) + 500) }
}
impl Looker for $t { fn mk(v: i64) -> Self { Tok::enc(v) } })* } }
looker!(u32, String, Opaque);
/// Not 'static
pub struct Lend<'a> { pub c: &'a Cell<i64> }
impl<'a> Look for Lend<'a> {
    fn look(&self) -> i64 { looked(self); self.c.get() }
    fn poke(&mut self) { POKED.with(|p| p.set(p.get() + 1)); self.c.set(self.c.get() + 500) }
}
pub fn look_clear() { LOOKED.with(|l| l.borrow_mut().clear()); POKED.with(|p| p.set(0)); CALLED.with(|p| p.set(0)) }
pub fn addr<T>(t: &T) -> usize { t as *const T as usize }
/// What the mock looked at must be the caller's objects, and these must hold
/// what was done to them.  mine: (address, value now, value then, was it
/// passed mutably?); address 0 stands for an object that was moved into the
/// call, 1 for a closure that the action calls twice.
pub fn look_check(mine: impl FnOnce() -> Vec<(usize, i64, i64, i64)>) {
    let pokes = POKED.with(|p| p.get());
    let seen: Vec<usize> = LOOKED.with(|l| l.borrow().clone());
    let called = CALLED.with(|c| c.get());
    let mine = mine();
    let moved = mine.iter().any(|m| m.0 == 0);
    let muts: i64 = mine.iter().map(|m| m.3).sum();
    for a in &seen {
        if !moved && !mine.iter().any(|m| m.0 == *a) { panic!("the argument seen by the mock is not the caller's") }
    }
    for m in &mine {
        if m.0 == 1 && called % 2 != 0 { panic!("the closure was called {called} times") }
        if m.0 > 1 {
            if !seen.is_empty() && !seen.contains(&m.0) { panic!("the mock did not see the caller's argument") }
            let expect = m.2 + if m.3 == 1 { 500 * pokes / muts } else { 0 };
            if m.1 != expect { panic!("the caller's argument holds {} after {pokes} changes of {}", m.1, m.2) }
        }
    }
}
pub fn look_slice(v: &[i64]) -> i64 { if v.len() == 2 && v[1] == 7 { v[0] } else { BAD } }
/// Takes turns
pub fn pick(n: usize) -> usize { PICK.with(|p| { let k = p.get(); p.set(k + 1); k % n }) }
pub fn pick_reset(n: usize) { PICK.with(|p| p.set(n)) }
pub fn fn_called() { CALLED.with(|p| p.set(p.get() + 1)) }

pub trait Num: Send + Sync { fn num(&self) -> i64; fn put(&mut self, v: i64); }
impl Num for u32 {
    fn num(&self) -> i64 { *self as i64 }
    fn put(&mut self, v: i64) { *self = v as u32 }
}
impl Num for String {
    fn num(&self) -> i64 { dec_str(self) }
    fn put(&mut self, v: i64) { *self = format!("s{v}") }
}
impl Tok for Box<dyn Num> {
    fn enc(v: i64) -> Self { Box::new(v as u32) }
    fn dec(&self) -> i64 { (**self).num() }
    fn show(&self) -> String { "?".into() }
}

// Arguments of generated shapes: decoding through references, whatever the lifetime
pub trait De { fn de(&self) -> i64; }
macro_rules! de_tok { ($($t:ty),*) => { $(impl De for $t { fn de(&self) -> i64 { Tok::dec(self) } })* } }
de_tok!(u8, i8, u16, i16, u32, i32, u64, i64, usize, char, String, Opaque, NotSend, Cnt, std::path::PathBuf, std::ffi::OsString, std::ffi::CString);
impl De for str { fn de(&self) -> i64 { dec_str(self) } }
impl De for std::path::Path { fn de(&self) -> i64 { dec_str(self.to_str().unwrap()) } }
impl De for std::ffi::OsStr { fn de(&self) -> i64 { dec_str(self.to_str().unwrap()) } }
impl De for std::ffi::CStr { fn de(&self) -> i64 { dec_str(self.to_str().unwrap()) } }
impl De for dyn Num + Send + '_ { fn de(&self) -> i64 { self.num() } }
impl De for dyn Num + '_ { fn de(&self) -> i64 { self.num() } }
impl<T: De + ?Sized> De for &T { fn de(&self) -> i64 { (**self).de() } }
impl<T: De + ?Sized> De for &mut T { fn de(&self) -> i64 { (**self).de() } }
impl<T: De + ?Sized> De for Box<T> { fn de(&self) -> i64 { (**self).de() } }
impl<T: De + ?Sized> De for std::rc::Rc<T> { fn de(&self) -> i64 { (**self).de() } }
impl<T: De + ?Sized> De for std::sync::Arc<T> { fn de(&self) -> i64 { (**self).de() } }
impl<T: De> De for Option<T> { fn de(&self) -> i64 { self.as_ref().map_or(BAD, |x| x.de()) } }
impl<T: De> De for Result<T, String> { fn de(&self) -> i64 { self.as_ref().map_or(BAD, |x| x.de()) } }
impl<T: De> De for [T] { fn de(&self) -> i64 { if self.len() == 2 && self[1].de() == 7 { self[0].de() } else { BAD } } }
impl<T: De> De for Vec<T> { fn de(&self) -> i64 { self[..].de() } }
impl<T: De> De for [T; 2] { fn de(&self) -> i64 { self[..].de() } }
impl<T: De> De for (T, u8) { fn de(&self) -> i64 { if self.1 == 7 { self.0.de() } else { BAD } } }
impl De for fn(u32) -> u32 { fn de(&self) -> i64 { self(5) as i64 - 5 } }
impl<'a> De for dyn Fn(u32) -> u32 + 'a { fn de(&self) -> i64 { self(5) as i64 - 5 } }
#[derive(Clone)]
pub struct Hold<'a>(pub &'a u32);
impl De for Hold<'_> { fn de(&self) -> i64 { *self.0 as i64 } }
macro_rules! fnps { ($($n:literal)*) => { pub static FNP: &[fn(u32) -> u32] = &[$(|x| x + $n),*]; } }
fnps!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39);
thread_local! { pub static CNT_LIVE: Cell<i64> = const { Cell::new(0) }; static LAST: Cell<i64> = const { Cell::new(BAD) }; static SAW: RefCell<Vec<(usize, usize)>> = const { RefCell::new(vec![]) }; }
/// Every one made must be dropped, once
pub struct Cnt(pub i64);
impl Tok for Cnt {
    fn enc(v: i64) -> Self { CNT_LIVE.with(|c| c.set(c.get() + 1)); Cnt(v) }
    fn dec(&self) -> i64 { self.0 }
    fn show(&self) -> String { "?".into() }
}
impl Drop for Cnt { fn drop(&mut self) { CNT_LIVE.with(|c| c.set(c.get() - 1)); } }
#[derive(Clone)] pub struct Lend2<'a, 'b>(pub &'a u32, pub &'b u32);
impl De for Lend2<'_, '_> { fn de(&self) -> i64 { if *self.1 == 3 { *self.0 as i64 } else { BAD } } }
pub trait Stream { type Item; fn poll_next(self: std::pin::Pin<&mut Self>) -> Option<Self::Item>; }
pub struct OneStream(pub u32);
impl Stream for OneStream { type Item = u32; fn poll_next(self: std::pin::Pin<&mut Self>) -> Option<u32> { Some(self.0) } }
impl<S: Stream + ?Sized> Stream for std::pin::Pin<Box<S>> { type Item = S::Item; fn poll_next(self: std::pin::Pin<&mut Self>) -> Option<S::Item> { self.get_mut().as_mut().poll_next() } }
pub fn first_of<S: Stream>(s: S) -> S::Item { let mut s = std::pin::pin!(s); s.as_mut().poll_next().unwrap() }
impl<N: Num + ?Sized> Num for Box<N> { fn num(&self) -> i64 { (**self).num() } fn put(&mut self, v: i64) { (**self).put(v) } }
pub trait Src<X> { fn src(&self) -> X; }
pub struct SrcOf<F>(pub F);
impl<X, F: Fn() -> X> Src<X> for SrcOf<F> { fn src(&self) -> X { (self.0)() } }
/// For functions that return nothing: what the closure would have returned
pub fn set_last(v: i64) { LAST.with(|l| l.set(v)) }
pub fn take_last() -> i64 { LAST.with(|l| l.replace(BAD)) }
pub fn saw_clear() { SAW.with(|s| s.borrow_mut().clear()); POKED.with(|p| p.set(0)) }
/// A matcher or action got a reference as argument j
pub fn saw<T: ?Sized>(j: usize, x: &T) { SAW.with(|s| s.borrow_mut().push((j, x as *const T as *const () as usize))) }
pub fn saw_check<T: ?Sized>(j: usize, x: &T) {
    let a = x as *const T as *const () as usize;
    SAW.with(|s| for (i, b) in s.borrow().iter() { if *i == j && *b != a { panic!("argument {j} is not the caller's reference") } })
}
pub fn poked() { POKED.with(|p| p.set(p.get() + 1)) }
pub fn poke_check(now: i64, was: i64) {
    let want = was + 500 * POKED.with(|p| p.get());
    if now != want { panic!("the caller's argument holds {now} instead of {want}") }
}
#[macro_export]
macro_rules! tok_struct { ($v:vis $n:ident) => {
    #[derive(Debug)] $v struct $n(pub i64);
    impl $crate::rt::Tok for $n { fn enc(v: i64) -> Self { $n(v) } fn dec(&self) -> i64 { self.0 } fn show(&self) -> String { format!("{:?}", self) } }
    impl $crate::rt::De for $n { fn de(&self) -> i64 { self.0 } }
} }

/// A predicate given by a bit mask over encoded values
pub struct MaskP<P: ?Sized + 'static> { pub mask: i64, pub off: i64, pub f: fn(&P) -> i64 }
impl<P: ?Sized> Display for MaskP<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "mask{}@{}", self.mask, self.off)
    }
}
impl<P: ?Sized> predicates_core::reflection::PredicateReflection for MaskP<P> {}
impl<P: ?Sized> Predicate<P> for MaskP<P> {
    fn eval(&self, x: &P) -> bool { point(b'M'); bit(self.mask, (self.f)(x) - self.off) }
}

pub fn bit(mask: i64, i: i64) -> bool { (0..62).contains(&i) && (mask >> i) & 1 == 1 }

/// Digits of the abstract argument: argument j of n carries 10*j + digit
pub fn digit(a: i64, j: usize, n: usize) -> i64 {
    10 * j as i64 + if j + 1 == n { a >> j } else { (a >> j) & 1 }
}
/// Recombine what arrived
pub fn comb(ds: &[i64]) -> i64 {
    let mut x = 0;
    for (j, d) in ds.iter().enumerate() {
        let v = d - 10 * j as i64;
        if v < 0 || v > 9 || (j + 1 < ds.len() && v > 1) { return 700 + d.rem_euclid(100); }
        x += v << j;
    }
    x
}

// ---------------------------------------------------------------------------
/// How often did closures of expectations run?
pub static RAN: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
pub fn ran() { RAN.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
pub struct UserPanic;
pub struct Unsupported;
pub fn user_panic() -> ! { panic_any(UserPanic) }
pub fn unsupported() -> ! { panic_any(Unsupported) }

#[derive(Clone, Debug, PartialEq)]
pub struct Step { pub k: K, pub a: i64, pub b: i64 }

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[allow(non_camel_case_types)]
pub enum K {
    // matchers
    any, eq, ne, lt, ge, r#in, pfn, alw, nev, not, and, or, r#fn, st, pan, panw, with,
    // times
    n, r, ri, rf, rt, rti, full, once, never,
    // sequence
    s,
    // actions
    none, auto, aconst, aconst_st, afn, afn_st, aonce, aonce_st, avar, apanic, apanic1, aconstp,
}
fn kind_of(c: &str, k: &str) -> K {
    use K::*;
    match (c, k) {
        ("m", "any") => any, ("m", "eq") => eq, ("m", "ne") => ne, ("m", "lt") => lt,
        ("m", "ge") => ge, ("m", "in") => r#in, ("m", "pfn") => pfn, ("m", "alw") => alw,
        ("m", "nev") => nev, ("m", "not") => not, ("m", "and") => and, ("m", "or") => or,
        ("m", "fn") => r#fn, ("m", "st") => st, ("m", "pan") => pan, ("m", "panw") => panw, ("m", "with") => with,
        ("t", "n") => n, ("t", "r") => r, ("t", "ri") => ri, ("t", "rf") => rf, ("t", "rt") => rt,
        ("t", "rti") => rti, ("t", "full") => full, ("t", "once") => once, ("t", "never") => never,
        ("s", _) => s,
        ("r", "auto") => auto, ("r", "const") => aconst, ("r", "const_st") => aconst_st,
        ("r", "fn") => afn, ("r", "fn_st") => afn_st, ("r", "once") => aonce,
        ("r", "once_st") => aonce_st, ("r", "var") => avar, ("r", "panic") => apanic,
        ("r", "panic1") => apanic1, ("r", "constp") => aconstp,
        _ => panic!("bad step {c} {k}"),
    }
}

pub struct Env { pub seqs: Vec<Sequence>, pub id: i64 }

/// Ways to pass a call to a thread although the mock may not be Send
pub struct Shove<T>(pub T);
unsafe impl<T> Send for Shove<T> {}
unsafe impl<T> Sync for Shove<T> {}
impl<T> Shove<T> { pub fn get(self) -> T { self.0 } }

/// Description of one method of a target, for diagnostics
pub struct Meta {
    pub name: &'static str,
    /// val, ref or mut
    pub kind: &'static str,
    /// argument count
    pub nargs: usize,
    /// name shown in "Expectation(..)" failures
    pub fname: &'static str,
    /// name shown in failures without expectation
    pub cname: &'static str,
    /// what the arguments for abstract value a look like
    pub args: fn(i64) -> Vec<String>,
    /// how a matcher is displayed (with-style only)
    pub pred: fn(&Step) -> Option<String>,
    pub tags: &'static str,
}

/// One type of mock object
pub trait ObjType: Sync {
    fn name(&self) -> &'static str;
    fn metas(&self) -> &'static [Meta];
    fn make(&self, how: usize) -> Box<dyn Obj>;
    /// what is declared together has the same number, -1: none
    fn module(&self) -> i64 { -1 }
}
pub trait Obj {
    fn expect(&mut self, m: usize, cfg: &[Step], env: &mut Env);
    fn call(&mut self, m: usize, a: i64, w: i64) -> i64;
    /// A call that consumes the object
    fn call_own(self: Box<Self>, m: usize, a: i64) -> i64 { unsupported() }
    fn call_shared(&self, m: usize, a: i64) -> i64 { unsupported() }
    fn checkpoint(&mut self);
    fn as_any(&mut self) -> &mut dyn Any { unimplemented!() }
    /// print it with {:?}
    fn debug(&self) { unsupported() }
}
/// A static function (possibly generic: several instantiations)
pub trait FnType: Sync {
    fn name(&self) -> &'static str;
    fn metas(&self) -> &'static [Meta];
    fn ctx(&self) -> Box<dyn Ctx>;
    fn call(&self, m: usize, a: i64, w: i64) -> i64;
    fn mod_checkpoint(&self) { unsupported() }
    /// functions of the same module have the same number, -1: none
    fn module(&self) -> i64 { -1 }
}
pub trait Ctx {
    fn expect(&self, m: usize, cfg: &[Step], env: &mut Env);
    fn checkpoint(&self);
}

/// A context with what to do with it: None means checkpoint
pub struct CtxF<F>(pub F);
impl<F: Fn(Option<(usize, &[Step], &mut Env)>)> Ctx for CtxF<F> {
    fn expect(&self, m: usize, cfg: &[Step], env: &mut Env) { (self.0)(Some((m, cfg, env))) }
    fn checkpoint(&self) { (self.0)(None) }
}

// ---------------------------------------------------------------------------
// Scenarios

#[derive(Clone, Debug)]
pub struct AltI { pub k: String, pub s: usize, pub n: i64, pub lim: i64, pub m: Step }
#[derive(Clone, Debug)]
pub struct Out { pub k: String, pub v: i64, pub alts: Vec<AltI>, pub runs: i64 }
#[derive(Clone, Debug)]
pub struct OpL { pub op: String, pub s: String, pub a: i64, pub w: i64, pub cfg: Vec<Step>, pub x: Out }

#[derive(Default, Debug)]
pub struct Universe {
    pub objs: Vec<String>,
    pub fns: Vec<String>,
    /// (slot, owner, is static, role, wanted kind, wanted number of arguments or 0)
    pub slots: Vec<(String, String, bool, usize, String, usize)>,
    pub roles: usize,
    pub nseq: usize,
    pub strict: bool,
    /// check how often closures run?
    pub runs: bool,
    /// tag that a method must have ("" for none)
    pub tag: String,
}

/// Numbers that are too large for TLC (see C06hAlphabet)
fn big(v: i64) -> i64 {
    match v {
        400_000..500_000 => v - 450_000 + (1 << 32),
        500_000..600_000 => i64::MAX.wrapping_add(v - 550_000),
        700_000..=700_010 => (usize::MAX - (700_010 - v) as usize) as i64,
        _ => v
    }
}
fn parse_step(t: &str) -> Step {
    let p: Vec<&str> = t.split(':').collect();
    let (a, b) = (p[2].parse().unwrap(), p[3].parse().unwrap());
    if p[0] == "t" { return Step { k: kind_of(p[0], p[1]), a: big(a), b: big(b) } }
    Step { k: kind_of(p[0], p[1]), a, b }
}
fn parse_out(t: &str, u: &Universe) -> Out {
    let mut it = t.splitn(3, ' ');
    let k = it.next().unwrap();
    let (k, runs) = match k.strip_suffix('!') { Some(k) => (k.to_string(), 1), None => (k.to_string(), 0) };
    let v = it.next().unwrap_or("0").parse().unwrap();
    let alts = it.next().unwrap_or("").split('|').filter(|x| !x.is_empty()).map(|x| {
        let p: Vec<&str> = x.split(':').collect();
        AltI { k: p[0].into(), s: u.slots.iter().position(|s| s.0 == p[1]).unwrap(),
            n: p[2].parse().unwrap(), lim: big(p[3].parse().unwrap()),
            m: Step { k: kind_of("m", p[4]), a: p[5].parse().unwrap(), b: p[6].parse().unwrap() } }
    }).collect();
    Out { k, v, alts, runs }
}
pub fn parse_scenario(line: &str, u: &Universe) -> Vec<OpL> {
    line.split(';').map(|o| {
        let (l, r) = o.split_once('=').unwrap();
        let p: Vec<&str> = l.split(' ').collect();
        OpL { op: p[0].into(), s: p[1].into(), a: p[2].parse().unwrap(), w: p[3].parse().unwrap(),
            cfg: p[4].split(',').filter(|x| !x.is_empty() && !x.starts_with("m:any")).map(parse_step).collect(),
            x: parse_out(r, u) }
    }).collect()
}

// ---------------------------------------------------------------------------
// Outcomes

#[derive(Clone, Debug, PartialEq)]
pub enum Got { Ok, Ret(i64), Panic { kind: String, n: i64, lim: i64, msg: String }, Unsupported }

fn num_after(msg: &str, pat: &str) -> Option<i64> {
    let i = msg.rfind(pat)? + pat.len();
    let t: String = msg[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
    t.parse().ok()
}
pub fn classify(p: Box<dyn Any + Send>) -> Got {
    if p.is::<UserPanic>() {
        return Got::Panic { kind: "user".into(), n: 0, lim: 0, msg: "user panic".into() };
    }
    if p.is::<Unsupported>() { return Got::Unsupported; }
    let msg = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() };
    let has = |s: &str| msg.contains(s);
    let (mut n, mut lim) = (-1, -1);
    let kind = if has("No matching expectation found") { "nomatch" }
        else if has("should not have been called") { "never" }
        else if has("which is more than the expected") {
            n = num_after(&msg, "called ").unwrap_or(-1);
            lim = num_after(&msg, "more than the expected ").unwrap_or(-1);
            "over"
        } else if has("which is fewer than expected") {
            n = num_after(&msg, "called ").unwrap_or(-1);
            lim = num_after(&msg, "fewer than expected ").unwrap_or(-1);
            "few"
        } else if has("which is more than expected") {
            n = num_after(&msg, "called ").unwrap_or(-1);
            lim = num_after(&msg, "more than expected ").unwrap_or(-1);
            "many"
        } else if has("called twice, but it returns by move") { "expired" }
        else if has("Returning default values requires") || has("Can only return default values") { "nodef" }
        else if has("Backwards range") { "backwards" }
        else if has("exact call count") { "inexact" }
        else if has("Method sequence violation") { "seq" }
        else if has("PoisonError") { "poison" }
        else if has("fragile container") { "frag" }
        else { "other" };
    Got::Panic { kind: kind.into(), n, lim, msg }
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Got> {
    catch_unwind(AssertUnwindSafe(f)).map_err(classify)
}

/// Does msg contain w, not as a part of a longer name or number?
fn contains_word(msg: &str, w: &str) -> bool {
    let is = |c: Option<char>| c.map_or(false, |c| c.is_alphanumeric() || c == '_');
    msg.match_indices(w).any(|(i, _)| {
        !(is(w.chars().next()) && is(msg[..i].chars().next_back()))
            && !(is(w.chars().next_back()) && is(msg[i + w.len()..].chars().next()))
    })
}
/// What a strict comparison wants to see in a message
fn wanted(meta: &Meta, alt: &AltI) -> Vec<String> {
    let matcher = |m: &Step| -> Option<String> {
        match m.k {
            K::any => Some("<anything>".into()),
            K::r#fn | K::pan => Some("<function>".into()),
            K::st => Some("<single threaded function>".into()),
            _ => (meta.pred)(m),
        }
    };
    // the function's name, and the matcher if its text is known
    let exp = || {
        let mut v = vec![meta.fname.to_string()];
        v.extend(matcher(&alt.m));
        v
    };
    let nums = || { let mut v = exp(); v.push(alt.n.to_string()); v.push(alt.lim.to_string()); v };
    let call = || vec![format!("{}({})", meta.cname, (meta.args)(alt.n).join(", "))];
    match alt.k.as_str() {
        "nomatch" | "seq" => call(),
        "never" | "expired" | "nodef" => exp(),
        "over" | "few" | "many" => nums(),
        _ => vec![],
    }
}

pub fn agrees(x: &Out, g: &Got, strict: bool, meta: &dyn Fn(usize) -> Option<&'static Meta>) -> bool {
    match (x.k.as_str(), g) {
        ("*", _) => true,
        ("ok", Got::Ok) => true,
        ("ret", Got::Ret(v)) => *v == x.v,
        ("panic", Got::Panic { .. }) => true,
        ("fail", Got::Panic { kind, n, lim, msg }) => x.alts.iter().any(|a| {
            // an unknown wording counts as the failure that is due
            if a.k != *kind && kind != "other" { return false; }
            match a.k.as_str() {
                "over" | "few" | "many" if (*n >= 0 && *n != a.n) || (*lim >= 0 && *lim != a.lim) =>
                    return false,
                _ => (),
            }
            if strict {
                if let Some(m) = meta(a.s) {
                    return wanted(m, a).iter().all(|w| contains_word(msg, w));
                }
            }
            true
        }),
        (k, Got::Panic { kind, .. }) => k == kind
            || kind == "other" && ["backwards", "inexact", "frag"].contains(&k),
        _ => false,
    }
}

// ---------------------------------------------------------------------------
// Driving

pub struct Bound<'a> {
    pub u: &'a Universe,
    pub obj: Option<&'a dyn ObjType>,
    pub fns: Vec<&'a dyn FnType>,       // per u.fns
    /// method index per slot
    pub meth: Vec<usize>,
    pub how: usize,
}
impl<'a> Bound<'a> {
    pub fn label(&self) -> String {
        let mut s = String::new();
        if let Some(o) = self.obj { write!(s, "{}", o.name()).unwrap(); }
        for f in &self.fns { write!(s, " {}", f.name()).unwrap(); }
        write!(s, " {:?} {}", self.meth, self.how).unwrap();
        s
    }
    fn meta(&self, slot: usize) -> Option<&'static Meta> {
        let (_, own, st, ..) = &self.u.slots[slot];
        if *st {
            let f = self.u.fns.iter().position(|x| x == own)?;
            self.fns[f].metas().get(self.meth[slot])
        } else {
            self.obj?.metas().get(self.meth[slot])
        }
    }
}

pub struct Mismatch { pub at: usize, pub want: String, pub got: String }

thread_local! { static WORKER: RefCell<Option<(std::sync::mpsc::Sender<Box<dyn FnOnce() + Send>>, std::sync::mpsc::Receiver<()>)>> = const { RefCell::new(None) }; }

/// Do it n times; what it returned, or a wrong value if that differs
fn same(n: i64, mut f: impl FnMut() -> i64) -> i64 {
    let x = f();
    for _ in 1..n { let y = f(); if y != x { return 10_000_000 + y } }
    x
}

/// Run f on another thread and wait for it
pub fn elsewhere<R>(f: impl FnOnce() -> R) -> Result<R, Got> {
    let cell = Shove(std::sync::Mutex::new(None::<Result<R, Got>>));
    let cref = Shove(&cell);
    let job = Shove(f);
    let run: Box<dyn FnOnce()> = Box::new(move || {
        let job = job; let cref = cref;
        let r = guarded(job.get());
        *cref.get().0.lock().unwrap() = Some(r);
    });
    let run: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(run) };
    let run: Box<dyn FnOnce() + Send + 'static> = { let s = Shove(run); Box::new(move || { let s = s; (s.get())() }) };
    WORKER.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            let (tx, rx) = std::sync::mpsc::channel::<Box<dyn FnOnce() + Send>>();
            let (dtx, drx) = std::sync::mpsc::channel();
            std::thread::spawn(move || for job in rx { job(); dtx.send(()).unwrap(); });
            *w = Some((tx, drx));
        }
        let (tx, rx) = w.as_ref().unwrap();
        tx.send(run).unwrap();
        rx.recv().unwrap();
    });
    let r = cell.0.lock().unwrap().take().unwrap();
    r
}

pub enum Verdict { Pass, Skip, Fail(Mismatch) }

/// Replay one scenario on one binding
pub fn run(sc: &[OpL], b: &Bound) -> Verdict {
    let u = b.u;
    // where a binding offers alternatives, which one comes first varies with the
    // scenario and with the binding
    let h = sc.iter().fold(b.how, |h, o| h.wrapping_mul(31).wrapping_add(o.a as usize).wrapping_add(
        o.cfg.iter().fold(o.op.len(), |h, s| h.wrapping_mul(7).wrapping_add(s.k as usize).wrapping_add(s.a.wrapping_add(s.b) as usize))));
    pick_reset((h ^ (h >> 17)) % 0xFFFF_FFFF);
    let mut objs: Vec<Option<Box<dyn Obj>>> = (0..u.objs.len()).map(|_| Some(b.obj.unwrap().make(b.how))).collect();
    let mut ctxs: Vec<(usize, Box<dyn Ctx>)> = Vec::new();
    let mut env = Env { seqs: (0..u.nseq).map(|_| Sequence::new()).collect(), id: 0 };
    let mut verdict = Verdict::Pass;
    let strict = u.strict;
    let unit = |r: Result<(), Got>| match r { Ok(()) => Got::Ok, Err(g) => g };
    let ret = |r: Result<i64, Got>| match r { Ok(v) => Got::Ret(v), Err(g) => g };
    for (i, o) in sc.iter().enumerate() {
        let slot = || u.slots.iter().position(|s| s.0 == o.s).unwrap();
        let oi = || u.objs.iter().position(|s| *s == o.s).unwrap();
        let fi = || u.fns.iter().position(|s| *s == o.s).unwrap();
        RAN.store(0, std::sync::atomic::Ordering::SeqCst);
        let got = match o.op.as_str() {
            "exp" => {
                env.id += 1;
                let s = slot();
                let m = b.meth[s];
                if u.slots[s].2 {
                    let f = u.fns.iter().position(|x| *x == u.slots[s].1).unwrap();
                    let c = &mut ctxs.iter_mut().rfind(|c| c.0 == f).unwrap().1;
                    unit(guarded(|| c.expect(m, &o.cfg, &mut env)))
                } else {
                    let ob = u.objs.iter().position(|x| *x == u.slots[s].1).unwrap();
                    let ob = objs[ob].as_mut().unwrap();
                    unit(guarded(|| ob.expect(m, &o.cfg, &mut env)))
                }
            }
            "call" | "callt" | "calld" | "callm" => {
                let s = slot();
                let m = b.meth[s];
                // callm: so many calls, of which each returns the same
                let (times, w) = if o.op == "callm" { (o.w, -1) } else { (1, o.w) };
                let dbg = o.op == "calld";
                let th = o.op == "callt";
                DEBUG_PANICS.with(|d| d.set(dbg));
                let r = if u.slots[s].2 {
                    let f = u.fns.iter().position(|x| *x == u.slots[s].1).unwrap();
                    let f = b.fns[f];
                    if th { elsewhere(|| f.call(m, o.a, w)).and_then(|x| Ok(x)) }
                    else { guarded(|| same(times, || f.call(m, o.a, w))) }
                } else {
                    let ob = u.objs.iter().position(|x| *x == u.slots[s].1).unwrap();
                    let ob = objs[ob].as_mut().unwrap();
                    if th { elsewhere(|| ob.call(m, o.a, w)) }
                    else { guarded(|| same(times, || ob.call(m, o.a, w))) }
                };
                DEBUG_PANICS.with(|d| d.set(false));
                ret(r)
            }
            "callc" => {
                let s = slot();
                let m = b.meth[s];
                let k = u.objs.iter().position(|x| *x == u.slots[s].1).unwrap();
                let ob = objs[k].take().unwrap();
                ret(guarded(move || ob.call_own(m, o.a)))
            }
            // created by new() or default() in turn
            "new" => { let k = oi(); objs[k] = Some(b.obj.unwrap().make((b.how + o.a as usize) % 2)); Got::Ok }
            "dbg" => { let ob = objs[oi()].as_ref().unwrap(); unit(guarded(|| ob.debug())) }
            "chk" => { let ob = objs[oi()].as_mut().unwrap(); unit(guarded(|| ob.checkpoint())) }
            "drop" => { let ob = objs[oi()].take(); unit(guarded(|| drop(ob))) }
            "dropu" => {
                let ob = objs[oi()].take();
                unit(guarded(move || { let _ob = ob; user_panic(); }))
            }
            "ctx" => { let f = fi(); ctxs.push((f, b.fns[f].ctx())); Got::Ok }
            "cchk" => {
                let f = fi();
                let c = &mut ctxs.iter_mut().rfind(|c| c.0 == f).unwrap().1;
                unit(guarded(|| c.checkpoint()))
            }
            "cdrop" => {
                let f = fi();
                let k = ctxs.iter().rposition(|c| c.0 == f).unwrap();
                let c = ctxs.remove(k);
                unit(guarded(move || drop(c)))
            }
            "cdropu" => {
                let f = fi();
                let k = ctxs.iter().rposition(|c| c.0 == f).unwrap();
                let c = ctxs.remove(k);
                unit(guarded(move || { let _c = c; user_panic(); }))
            }
            "tpanic" => {
                let mut cs = std::mem::take(&mut ctxs);
                // locals drop in reverse order of creation
                cs.reverse();
                unit(guarded(move || { let _cs = cs; user_panic(); }))
            }
            "mchk" => { let f = b.fns[0]; unit(guarded(|| f.mod_checkpoint())) }
            "seq" => { env.seqs[o.a as usize - 1] = Sequence::new(); Got::Ok }
            x => panic!("bad op {x}"),
        };
        if CNT_LIVE.with(|c| c.get()) != 0 {
            let n = CNT_LIVE.with(|c| c.replace(0));
            verdict = Verdict::Fail(Mismatch { at: i, want: "every argument to be dropped once".into(), got: format!("{n} left") });
            break;
        }
        if got == Got::Unsupported { verdict = Verdict::Skip; break; }
        // the argument may not have been printed
        if o.op == "calld" && !matches!(&got, Got::Panic { kind, .. } if kind == "user") { break; }
        if u.runs && o.x.k != "*" && o.x.k != "panic" {
            let n = RAN.load(std::sync::atomic::Ordering::SeqCst);
            // only methods that return values are given closures where any method will do
            let any = u.slots.iter().position(|s| s.0 == o.s && s.4 == "any").and_then(|s| b.meta(s));
            let want = if any.is_some_and(|m| m.kind != "val") { 0 } else { o.x.runs * if o.op == "callm" { o.w } else { 1 } };
            if n != want {
                verdict = Verdict::Fail(Mismatch { at: i, want: format!("the closure to run {want} times"), got: format!("{n} times; {got:?}") });
                break;
            }
        }
        if !agrees(&o.x, &got, strict, &|s| b.meta(s)) {
            verdict = Verdict::Fail(Mismatch { at: i, want: format!("{:?}", o.x), got: format!("{:?}", got) });
            break;
        }
    }
    // clean up whatever is left, silently
    if !ctxs.is_empty() {
        let _ = guarded(move || { let _cs = ctxs; user_panic(); });
    }
    for ob in objs { let _ = guarded(move || { let _ob = ob; user_panic(); }); }
    verdict
}

/// All ways to bind the universe's roles to methods of the targets
pub fn bindings<'a>(u: &'a Universe, objs: &[&'a dyn ObjType], fns: &[&'a dyn FnType]) -> Vec<Bound<'a>> {
    // functions: an injective choice of FnTypes (same module when there is a module)
    fn choose_fns<'a>(n: usize, same: bool, fns: &[&'a dyn FnType], acc: &mut Vec<&'a dyn FnType>, out: &mut Vec<Vec<&'a dyn FnType>>) {
        if acc.len() == n { out.push(acc.clone()); return; }
        for f in fns {
            if acc.iter().any(|g| g.name() == f.name() || same && g.module() != f.module()) { continue; }
            acc.push(*f);
            choose_fns(n, same, fns, acc, out);
            acc.pop();
        }
    }
    let mut fchoices = Vec::new();
    choose_fns(u.fns.len(), u.tag == "item", fns, &mut Vec::new(), &mut fchoices);
    let ochoices: Vec<Option<&dyn ObjType>> = if u.objs.is_empty() { vec![None] }
        else { objs.iter().map(|o| Some(*o)).collect() };
    let mut res = Vec::new();
    for fc in &fchoices { for oc in &ochoices {
        // module checkpoints only make sense within one module
        if u.tag == "mod" && !(fc.iter().all(|f| f.module() >= 0 && f.module() == fc[0].module())) { continue; }
        if (u.tag == "item" || u.tag == "mix") && !fc.is_empty() && oc.is_some_and(|o| o.module() != fc[0].module()) { continue; }
        // roles -> method index; roles of slots with the same owner kind differ
        let mut role_of: Vec<Option<(bool, usize)>> = vec![None; u.roles]; // (static, fn index)
        let mut kinds: Vec<String> = vec!["any".into(); u.roles];
        let mut nargs = vec![0; u.roles];
        for (_, own, st, r, k, n) in &u.slots {
            nargs[*r] = *n;
            let f = if *st { u.fns.iter().position(|x| x == own).unwrap() } else { 0 };
            role_of[*r] = Some((*st, f));
            kinds[*r] = k.clone();
        }
        let count = |r: usize| match role_of[r].unwrap() {
            (true, f) => fc[f].metas().len(),
            (false, _) => oc.unwrap().metas().len(),
        };
        let ok = |r: usize, m: usize| {
            let meta = match role_of[r].unwrap() {
                (true, f) => &fc[f].metas()[m],
                (false, _) => &oc.unwrap().metas()[m],
            };
            (kinds[r] == "any" || kinds[r] == meta.kind)
                && (if nargs[r] == 0 { meta.nargs > 0 || !u.tag.is_empty() } else { meta.nargs == nargs[r] })
                && (u.tag.is_empty() && !meta.tags.split(' ').any(|t| t == "special")
                    || !u.tag.is_empty() && meta.tags.split(' ').any(|t| t == u.tag))
        };
        let mut stack: Vec<Vec<usize>> = vec![vec![]];
        while let Some(cur) = stack.pop() {
            let r = cur.len();
            if r == u.roles {
                let meth = u.slots.iter().map(|s| cur[s.3]).collect();
                res.push(Bound { u, obj: *oc, fns: fc.clone(), meth, how: res.len() % 2 });
                continue;
            }
            for m in (0..count(r)).rev() {
                // injective among roles of the same owner
                if (0..r).any(|q| role_of[q] == role_of[r] && cur[q] == m) { continue; }
                if ok(r, m) { let mut c = cur.clone(); c.push(m); stack.push(c); }
            }
        }
    } }
    res
}

fn parse_universe(line: &str) -> Universe {
    // "U nseq=1 strict=0 tag= objs=o1,o2 fns=F slots=m/o1/i/0/any,..."
    let mut u = Universe::default();
    for t in line.split(' ').skip(1) {
        let (k, v) = t.split_once('=').unwrap();
        match k {
            "nseq" => u.nseq = v.parse().unwrap(),
            "strict" => u.strict = v == "1",
            "runs" => u.runs = v == "1",
            "tag" => u.tag = v.into(),
            "objs" => u.objs = v.split(',').filter(|x| !x.is_empty()).map(|x| x.into()).collect(),
            "fns" => u.fns = v.split(',').filter(|x| !x.is_empty()).map(|x| x.into()).collect(),
            "slots" => for s in v.split(',') {
                let p: Vec<&str> = s.split('/').collect();
                u.slots.push((p[0].into(), p[1].into(), p[2] == "s", p[3].parse().unwrap(), p[4].into(), p[5].parse().unwrap()));
            },
            _ => panic!("bad universe"),
        }
    }
    u.roles = u.slots.iter().map(|s| s.3 + 1).max().unwrap_or(0);
    u
}

/// Usage: replay SCENARIOS SHARD NSHARDS PROGRESSFILE [only-binding-label]
/// Prints one JSON-ish line per mismatch and a summary line.
pub fn main_with(objs: &[&dyn ObjType], fns: &[&dyn FnType]) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "labels" {
        let u = parse_universe(&args[2]);
        for b in bindings(&u, objs, fns) { println!("{}", b.label()); }
        return;
    }
    if args[1] == "conc" { return conc::main_conc(objs, fns, &args[2..]); }
    let file = std::fs::read_to_string(&args[1]).unwrap();
    let shard: usize = args[2].parse().unwrap();
    let nshards: usize = args[3].parse().unwrap();
    let prog = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&args[4]).unwrap();
    use std::os::unix::fs::FileExt;
    let only: Option<&String> = args.get(5).filter(|x| !x.is_empty());
    // stop after this many mismatches
    let maxfail: usize = args.get(6).and_then(|x| x.parse().ok()).unwrap_or(5);
    // replay each scenario on about this many bindings, in turn (0: on all)
    let nb: usize = args.get(7).and_then(|x| x.parse().ok()).unwrap_or(0);
    let start: usize = args.get(8).and_then(|x| x.parse().ok()).unwrap_or(0);
    let mut lines = file.lines();
    let u = parse_universe(lines.next().unwrap());
    let bs = bindings(&u, objs, fns);
    let scs: Vec<(usize, &str)> = lines.enumerate().collect();
    let (mut runs, mut skips, mut fails, mut ops) = (0u64, 0u64, 0usize, 0u64);
    let mut used: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut job = 0usize;
    let labels: Vec<String> = bs.iter().map(|b| b.label()).collect();
    'outer: for (i, line) in scs {
        if i % nshards != shard { continue; }
        let sc = parse_scenario(line, &u);
        for (bi, b) in bs.iter().enumerate() {
            if nb > 0 && bs.len() > nb && (bi + (i / nshards)) % bs.len().div_ceil(nb) != 0 { continue; }
            job += 1;
            if job <= start { continue; }
            if let Some(o) = only { if *o != labels[bi] { continue; } }
            let mark = format!("{job} {i} {bi}            ");
            prog.write_at(mark.as_bytes(), 0).unwrap();
            match run(&sc, b) {
                Verdict::Pass => { runs += 1; ops += sc.len() as u64; used.entry(labels[bi].clone()).or_default().0 += 1; }
                Verdict::Skip => { skips += 1; used.entry(labels[bi].clone()).or_default().1 += 1; }
                Verdict::Fail(m) => {
                    runs += 1;
                    fails += 1;
                    println!("MISMATCH\t{i}\t{}\t{}\t{}\t{}", labels[bi], m.at, m.want, m.got.replace(['\n', '\t'], " "));
                    if fails >= maxfail { break 'outer; }
                }
            }
        }
    }
    prog.write_at(b"done                     ", 0).unwrap();
    for (k, (p, s)) in used { println!("BINDING\t{k}\t{p}\t{s}"); }
    println!("SUMMARY\t{runs}\t{skips}\t{fails}\t{ops}");
}
/// Name of binding number n, for crash reports
pub fn label_of(objs: &[&dyn ObjType], fns: &[&dyn FnType], header: &str, n: usize) -> String {
    let u = parse_universe(header);
    let bs = bindings(&u, objs, fns);
    bs[n].label()
}
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::*;
    fn raw() -> RawWaker {
        fn no(_: *const ()) {}
        fn cl(_: *const ()) -> RawWaker { raw() }
        static VT: RawWakerVTable = RawWakerVTable::new(cl, no, no, no);
        RawWaker::new(std::ptr::null(), &VT)
    }
    let w = unsafe { Waker::from_raw(raw()) };
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    loop { if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; } }
}
