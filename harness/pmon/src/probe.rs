//! A transparent element type that counts how often it is attempted and at what stack depth.
use crate::gram::{g, Cx, Gram};
use crate::model::{G, K, V};
use parsel::syn::parse::ParseStream;
use parsel::{Parse, ToTokens, TokenStream};
use std::cell::{Cell, RefCell};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Probe<T, const N: usize>(pub T);

#[derive(Clone, Copy, Debug)]
pub struct Hits { pub attempts: u64, pub ok: u64, pub lo: usize, pub hi: usize }
impl Default for Hits { fn default() -> Self { Hits { attempts: 0, ok: 0, lo: usize::MAX, hi: 0 } } }

thread_local! {
    static HITS: RefCell<Vec<Hits>> = const { RefCell::new(vec![]) };
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    /// (probe, tokens left at the attempt) in order, when recording
    static LOG: RefCell<Option<Vec<(usize, usize, bool)>>> = const { RefCell::new(None) };
}

pub const OVERRUN: &str = "PMON-OVERRUN: item parser was called more often than any linear parse can need";

pub fn reset(budget: u64) { HITS.with(|h| h.borrow_mut().clear()); LEFT.with(|l| l.set(budget)); LOG.with(|l| *l.borrow_mut() = None) }
pub fn unlimited() { LEFT.with(|l| l.set(u64::MAX)) }
pub fn record() { LOG.with(|l| *l.borrow_mut() = Some(vec![])) }
pub fn log() -> Vec<(usize, usize, bool)> { LOG.with(|l| l.borrow_mut().take()).unwrap_or_default() }
pub fn hits(n: usize) -> Hits { HITS.with(|h| h.borrow().get(n).copied().unwrap_or_default()) }

#[inline(never)]
fn hit(n: usize) {
    let x = 0u8;
    let at = std::hint::black_box(&x) as *const u8 as usize;
    HITS.with(|h| {
        let mut h = h.borrow_mut();
        if h.len() <= n { h.resize(n + 1, Hits::default()) }
        let e = &mut h[n];
        e.attempts += 1;
        e.lo = e.lo.min(at);
        e.hi = e.hi.max(at);
    });
    LEFT.with(|l| { if l.get() == 0 { l.set(u64::MAX); panic!("{}", OVERRUN) } l.set(l.get() - 1) });
}

fn left(input: ParseStream<'_>) -> usize {
    // number of tokens left at this level
    input.fork().parse::<TokenStream>().map_or(0, |t| t.into_iter().count())
}

impl<T: Parse, const N: usize> Parse for Probe<T, N> {
    fn parse(input: ParseStream<'_>) -> parsel::Result<Self> {
        hit(N);
        let pos = if LOG.with(|l| l.borrow().is_some()) { Some(left(input)) } else { None };
        let r = T::parse(input);
        if r.is_ok() { HITS.with(|h| h.borrow_mut()[N].ok += 1) }
        if let Some(p) = pos { LOG.with(|l| if let Some(v) = l.borrow_mut().as_mut() { v.push((N, p, r.is_ok())) }) }
        r.map(Probe)
    }
}

impl<T: ToTokens, const N: usize> ToTokens for Probe<T, N> {
    fn to_tokens(&self, ts: &mut TokenStream) { self.0.to_tokens(ts) }
}

impl<T: Gram, const N: usize> Gram for Probe<T, N> {
    fn def() -> G { G::Probe(std::any::type_name::<Self>(), g::<T>()) }
    fn dump_kind(&self, _: &mut Cx<'_>) -> K { unreachable!() }
    fn dump(&self, cx: &mut Cx<'_>) -> V { self.0.dump(cx) }
    fn build(v: &V) -> Self { Probe(T::build(v)) }
}

/// A transparent element type of which the errors say odd things, as those of a user's own parser may.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Vex<T>(pub T);

const ODD: &[&str] = &[
    "", " ", "\n", "hint:\n\n", "\n\nleading", "trailing \t", "one\ntwo\nthree", "win\r\ndows\r\n", "{}", "{0} {cause} {{", "%s \\n", "`a`::b::0",
    "it was caused by:\nsomething", ", caused by:", "caused by:\n", "error parsing", "Error", "\u{feff}ű\u{2028}\u{0}\u{1b}[0m", "expected `;`", "expected `;`\n",
];

pub fn odd(e: parsel::Error) -> parsel::Error {
    let old = e.to_string();
    let h = old.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3)) >> 20;
    let k = h as usize % (ODD.len() + 3);
    let msg = match ODD.get(k) { Some(m) => m.to_string(), None if k == ODD.len() => if h & 0x200_0000 != 0 { "long ".repeat(2000) } else { "é\u{1f600}".repeat(1 << (4 + (h >> 26) % 8)) }, None if k == ODD.len() + 1 => format!("{}\n", old), None => format!("{} ", old) };
    let mut new = parsel::Error::new(e.span(), msg);
    // an error may hold several; the first one is what it says
    if h & 0x100_0000 != 0 { new.combine(parsel::Error::new(parsel::Span::call_site(), "and another thing")) }
    new
}

impl<T: Parse> Parse for Vex<T> {
    fn parse(input: ParseStream<'_>) -> parsel::Result<Self> { T::parse(input).map(Vex).map_err(odd) }
}

impl<T: ToTokens> ToTokens for Vex<T> {
    fn to_tokens(&self, ts: &mut TokenStream) { self.0.to_tokens(ts) }
}

impl<T: Gram> Gram for Vex<T> {
    fn def() -> G { G::Probe(std::any::type_name::<Self>(), g::<T>()) }
    fn dump_kind(&self, _: &mut Cx<'_>) -> K { unreachable!() }
    fn dump(&self, cx: &mut Cx<'_>) -> V { self.0.dump(cx) }
    fn build(v: &V) -> Self { Vex(T::build(v)) }
}

/// A part of which the grammar is chosen at run time.
#[derive(Clone, Debug)]
pub struct Slot<const I: usize>(pub TokenStream);
pub type Reader = fn(ParseStream<'_>) -> parsel::Result<TokenStream>;
thread_local! { static SLOTS: RefCell<Vec<Reader>> = const { RefCell::new(vec![]) } }

pub fn read<T: Parse + ToTokens>(input: ParseStream<'_>) -> parsel::Result<TokenStream> { input.parse::<T>().map(|x| x.into_token_stream()) }
pub fn fill(slots: Vec<Reader>) { SLOTS.with(|s| *s.borrow_mut() = slots) }

impl<const I: usize> Parse for Slot<I> {
    fn parse(input: ParseStream<'_>) -> parsel::Result<Self> { let f = SLOTS.with(|s| s.borrow()[I]); f(input).map(Slot) }
}
impl<const I: usize> ToTokens for Slot<I> {
    fn to_tokens(&self, ts: &mut TokenStream) { ts.extend(self.0.clone()) }
}
