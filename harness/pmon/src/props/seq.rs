//! C21: operation histories on the sequence nodes against plain lists.
use crate::report::{guard, Rec, Res, Run};
use crate::rng::Rng;
use parsel::ast::{Any, Punctuated, Separated};
use parsel::proc_macro2::{Literal, Punct, Spacing, TokenTree};
use parsel::quote::TokenStreamExt;
use parsel::syn::parse::ParseStream;
use parsel::syn::punctuated::{Pair, Punctuated as Raw};
use parsel::{Error, Parse, ToTokens, TokenStream};
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::ops::DerefMut;

thread_local! { static ALIVE: Cell<i64> = const { Cell::new(0) }; }

/// An item that knows how many of its kind are alive.
#[derive(PartialEq, Eq, Hash, Debug)]
struct It(u32);
impl It { fn new(n: u32) -> It { ALIVE.with(|a| a.set(a.get() + 1)); It(n) } }
impl Clone for It { fn clone(&self) -> It { It::new(self.0) } }
impl Drop for It { fn drop(&mut self) { ALIVE.with(|a| a.set(a.get() - 1)) } }
impl Parse for It {
    fn parse(i: ParseStream<'_>) -> parsel::Result<Self> { Ok(It::new(i.parse::<parsel::syn::LitInt>()?.base10_parse()?)) }
}
impl ToTokens for It { fn to_tokens(&self, t: &mut TokenStream) { t.append(Literal::u32_unsuffixed(self.0)) } }

const SEPS: [char; 6] = ['|', ',', ';', '+', '@', '~'];

/// A separator; several differ.
#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, Debug)]
struct Sep(u32);
impl Parse for Sep {
    fn parse(i: ParseStream<'_>) -> parsel::Result<Self> {
        i.step(|c| match c.punct() { Some((p, c)) => match SEPS.iter().position(|s| *s == p.as_char()) { Some(k) => Ok((Sep(k as u32), c)), None => Err(Error::new(p.span(), "no separator")) }, None => Err(Error::new(c.span(), "no separator")) })
    }
}
impl ToTokens for Sep { fn to_tokens(&self, t: &mut TokenStream) { t.append(TokenTree::Punct(Punct::new(SEPS[self.0 as usize], Spacing::Alone))) } }

/// The list that a sequence should be.
#[derive(Clone, Debug, PartialEq, Default)]
struct M { it: Vec<u32>, sep: Vec<u32> }

impl M {
    fn pairs(&self) -> Vec<(u32, Option<u32>)> { self.it.iter().enumerate().map(|(i, x)| (*x, self.sep.get(i).copied())).collect() }
    fn text(&self) -> String { self.pairs().iter().map(|(a, b)| format!("{} {}", a, b.map_or(String::new(), |b| SEPS[b as usize].to_string() + " "))).collect() }
    fn trailing(&self) -> bool { !self.it.is_empty() && self.it.len() == self.sep.len() }
    fn push(&mut self, n: u32) { if !self.it.is_empty() && !self.trailing() { self.sep.push(0) } self.it.push(n) }
}

/// An iterator that says more or less about how many items are left; what it says is true.
struct Hinted<I> { i: I, below: usize, above: Option<usize> }
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.i.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { let (a, b) = self.i.size_hint(); (a.saturating_sub(self.below), self.above.and_then(|x| b?.checked_add(x))) }
}
fn hinted<I: Iterator>(i: I, r: &mut Rng) -> Hinted<I> {
    Hinted { i, below: *r.pick(&[0, 1, 2, 7, usize::MAX]), above: *r.pick(&[None, None, Some(0), Some(0), Some(1), Some(5), Some(usize::MAX / 2)]) }
}

fn ne<A: PartialEq<B> + std::fmt::Debug, B: std::fmt::Debug>(what: &str, got: A, want: B) -> Res { if got == want { Ok(()) } else { Err(format!("{} is {:?} instead of {:?}", what, got, want)) } }

/// An iterator consumed from both ends, with its reported lengths.
fn drain<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(what: &str, mut i: I, val: impl Fn(T) -> u32, want: &[u32], r: &mut Rng) -> Res {
    let (mut lo, mut hi) = (0, want.len());
    loop {
        if i.len() != hi - lo || i.size_hint() != (hi - lo, Some(hi - lo)) { return Err(format!("{}: length {} and hint {:?} with {} left", what, i.len(), i.size_hint(), hi - lo)) }
        if r.chance(2, 3) {
            let w = if lo < hi { lo += 1; Some(want[lo - 1]) } else { None };
            ne(&format!("{}: next", what), i.next().map(&val), w)?;
            if w.is_none() { return Ok(()) }
        } else {
            let w = if lo < hi { hi -= 1; Some(want[hi]) } else { None };
            ne(&format!("{}: next_back", what), i.next_back().map(&val), w)?;
            if w.is_none() { return Ok(()) }
        }
    }
}

fn pv(p: Pair<It, Sep>) -> (u32, Option<u32>) { let (a, b) = p.into_tuple(); (a.0, b.map(|b| b.0)) }
fn pr(p: Pair<&It, &Sep>) -> (u32, Option<u32>) { let (a, b) = p.into_tuple(); (a.0, b.map(|b| b.0)) }
fn raw(p: &Raw<It, Sep>) -> M { let v: Vec<_> = p.pairs().map(pr).collect(); M { it: v.iter().map(|x| x.0).collect(), sep: v.iter().filter_map(|x| x.1).collect() } }
fn hash<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn mk(m: &M) -> Raw<It, Sep> {
    let mut p = Raw::new();
    for (a, b) in m.pairs() { p.push_value(It::new(a)); if let Some(b) = b { p.push_punct(Sep(b)) } }
    p
}

fn fresh(r: &mut Rng, next: &mut u32) -> u32 { *next += 1; if r.chance(1, 10) { *next - 1 } else { *next } }
/// how many to add
fn some(r: &mut Rng, size: usize) -> usize { if size > 0 && r.chance(1, 2) { r.range(0, size) } else { r.range(0, 5) } }
fn sep(r: &mut Rng) -> u32 { r.below(SEPS.len()) as u32 }
fn start(r: &mut Rng, next: &mut u32, nonempty: bool, trailing: bool, size: usize) -> M {
    let n = if size > 0 { size } else { r.len(4, 40).max(usize::from(nonempty)) };
    let it = (0..n).map(|_| fresh(r, next)).collect();
    let t = trailing && n > 0 && r.chance(1, 3);
    M { it, sep: (0..(if n == 0 { 0 } else { n - 1 + usize::from(t) })).map(|_| sep(r)).collect() }
}

fn check_tokens<T: ToTokens + std::fmt::Display>(x: &T, m: &M) -> Res {
    let want = crate::tok::show(&crate::tok::lex_str(&m.text()).unwrap(), false, false);
    ne("printed form", crate::tok::show(&crate::tok::lex(x.to_token_stream()), false, false), want.clone())?;
    ne("displayed form", crate::tok::show(&crate::tok::lex_str(&x.to_string()).ok_or("the displayed form does not lex")?, false, false), want)
}

// ------------------------------------------------------------------ Separated

fn see_sep(s: &mut Separated<It, Sep>, m: &M, r: &mut Rng) -> Res {
    let n = m.it.len();
    ne("len", s.len().get(), n)?;
    ne("first", s.first().0, m.it[0])?;
    ne("last", s.last().0, m.it[n - 1])?;
    drain("iter", s.iter(), |x| x.0, &m.it, r)?;
    drain("iteration by reference", (&*s).into_iter(), |x| x.0, &m.it, r)?;
    ne("pairs", s.pairs().map(pr).collect::<Vec<_>>(), m.pairs())?;
    ne("pairs from the back", s.pairs().rev().map(pr).collect::<Vec<_>>(), m.pairs().into_iter().rev().collect::<Vec<_>>())?;
    for i in 0..n { ne(&format!("[{}]", i), s[i].0, m.it[i])?; }
    ne("dereferenced", raw(&**s), m.clone())?;
    ne("as_ref", raw(AsRef::<Raw<It, Sep>>::as_ref(s)), m.clone())?;
    ne("borrowed", raw(Borrow::<Raw<It, Sep>>::borrow(s)), m.clone())?;
    if s.trailing_punct() || s.is_empty() || s.empty_or_trailing() { return Err("the sequence is empty or ends in a separator".into()) }
    ne("first_mut", s.first_mut().0, m.it[0])?;
    ne("last_mut", s.last_mut().0, m.it[n - 1])?;
    drain("iter_mut", s.iter_mut(), |x| x.0, &m.it, r)?;
    drain("iteration by mutable reference", (&mut *s).into_iter(), |x| x.0, &m.it, r)?;
    ne("pairs_mut", s.pairs_mut().map(|p| { let (a, b) = p.into_tuple(); (a.0, b.map(|b| b.0)) }).collect::<Vec<_>>(), m.pairs())?;
    check_tokens(s, m)?;
    let c = s.clone();
    if c != *s || hash(&c) != hash(s) { return Err("a copy differs or hashes differently".into()) }
    match r.below(8) {
        0 => ne("into_pairs", c.into_pairs().map(pv).collect::<Vec<_>>(), m.pairs()),
        1 => {
            let (f, rest) = c.into_first_rest();
            ne("first of first/rest", f.0, m.it[0])?;
            ne("rest of first/rest", rest.iter().map(|(p, t)| (p.0, t.0)).collect::<Vec<_>>(), m.sep.iter().zip(&m.it[1..]).map(|(p, t)| (*p, *t)).collect::<Vec<_>>())
        }
        2 => {
            let (l, rest) = c.into_last_rest();
            ne("last of last/rest", l.0, m.it[n - 1])?;
            ne("rest of last/rest", rest.iter().map(|(t, p)| (t.0, p.0)).collect::<Vec<_>>(), m.it.iter().zip(&m.sep).map(|(t, p)| (*t, *p)).collect::<Vec<_>>())
        }
        3 => ne("into_inner", raw(&c.into_inner()), m.clone()),
        4 => ne("converted into the raw list", raw(&Raw::from(c)), m.clone()),
        5 => drain("iteration by value", c.into_iter(), |x| x.0, &m.it, r),
        6 => {
            if guard(|| s[n].0).is_ok() { return Err(format!("index {} of {} items works", n, n)) }
            Ok(())
        }
        _ => {
            // a sequence that differs in one place is different
            let mut d = m.clone();
            if !d.sep.is_empty() && r.chance(1, 2) { let i = r.below(d.sep.len()); d.sep[i] = (d.sep[i] + 1) % SEPS.len() as u32 } else { let i = r.below(n); d.it[i] ^= 0x4000_0000 }
            let o = Separated::try_from(mk(&d)).map_err(|e| format!("{:?} cannot be converted: {}", d, e))?;
            if o == *s { return Err(format!("{:?} and {:?} are equal", d, m)) }
            Ok(())
        }
    }
}

fn c21_separated(r: &mut Rng, rec: &mut Rec, size: usize) -> Res {
    let mut next = 0;
    let mut m = start(r, &mut next, true, false, size);
    let mut log = vec![];
    let mut s: Separated<It, Sep> = if r.chance(1, 2) {
        log.push(format!("parse {:?}", m.text()));
        parsel::parse_str(&m.text()).map_err(|e| format!("{:?} is rejected: {}", m.text(), e))?
    } else {
        log.push(format!("from {:?}", m));
        Separated::try_from(mk(&m)).map_err(|e| format!("{:?} cannot be converted: {}", m, e))?
    };
    let wrap = |e: String, log: &[String]| format!("separated sequence after {}: {}", log.join("; "), e);
    see_sep(&mut s, &m, r).map_err(|e| wrap(e, &log))?;
    let steps = if size > 0 { r.range(1, 4) } else { r.len(6, 40) };
    for _ in 0..steps {
        let n = m.it.len();
        match r.below(17) {
            15 if r.chance(1, 2) => {
                // the source of the items fails on the way
                let v: Vec<(u32, u32)> = (0..some(r, size)).map(|_| (sep(r), fresh(r, &mut next))).collect();
                let pairs = r.chance(1, 2);
                log.push(format!("extend({:?}) with {}, of an iterator that then panics", v, if pairs { "pairs" } else { "values" }));
                let mut all = v.iter();
                let mut one = || { let (p, x) = all.next().unwrap_or_else(|| panic!("on purpose")); (Sep(*p), It::new(*x)) };
                let _ = guard(|| if pairs { s.extend(std::iter::repeat_with(&mut one)) } else { s.extend(std::iter::repeat_with(|| one().1)) });
                if s.is_empty() || s.trailing_punct() { return Err(wrap("it is empty or ends in a separator".into(), &log)) }
                let k = s.len().get().saturating_sub(n).min(v.len());
                for (p, x) in &v[..k] { m.sep.push(if pairs { *p } else { 0 }); m.it.push(*x) }
                rec.count("sources that fail");
            }
            0 | 1 => { let (p, x) = (sep(r), fresh(r, &mut next)); log.push(format!("push({}, {})", p, x)); s.push(Sep(p), It::new(x)); m.sep.push(p); m.it.push(x) }
            2 => { let x = fresh(r, &mut next); log.push(format!("push_value({})", x)); s.push_value(It::new(x)); m.push(x) }
            3 | 4 => {
                let (i, x) = (r.range(0, n), fresh(r, &mut next));
                log.push(format!("insert({}, {})", i, x));
                s.insert(i, It::new(x));
                if i == n { m.push(x) } else { m.it.insert(i, x); m.sep.insert(i, 0) }
            }
            5 => {
                let v: Vec<u32> = (0..some(r, size)).map(|_| fresh(r, &mut next)).collect();
                log.push(format!("extend({:?})", v));
                // with and without knowing how many
                if r.chance(1, 2) { s.extend(v.iter().map(|x| It::new(*x))) } else { s.extend(hinted(v.iter().map(|x| It::new(*x)), r)) }
                for x in v { m.push(x) }
            }
            6 | 7 => {
                let v: Vec<(u32, u32)> = (0..some(r, size)).map(|_| (sep(r), fresh(r, &mut next))).collect();
                log.push(format!("extend({:?})", v));
                if r.chance(1, 2) { s.extend(v.iter().map(|(p, x)| (Sep(*p), It::new(*x)))) } else { s.extend(hinted(v.iter().map(|(p, x)| (Sep(*p), It::new(*x))), r)) }
                for (p, x) in v { m.sep.push(p); m.it.push(x) }
            }
            8 => { let x = fresh(r, &mut next); log.push(format!("*first_mut = {}", x)); *s.first_mut() = It::new(x); m.it[0] = x }
            9 => { let x = fresh(r, &mut next); log.push(format!("*last_mut = {}", x)); *s.last_mut() = It::new(x); m.it[n - 1] = x }
            10 => { let (i, x) = (r.below(n), fresh(r, &mut next)); log.push(format!("[{}] = {}", i, x)); s[i] = It::new(x); m.it[i] = x }
            11 => { log.push("iter_mut + 1000000".into()); for (i, x) in s.iter_mut().enumerate() { x.0 += 1_000_000 + i as u32 } for (i, x) in m.it.iter_mut().enumerate() { *x += 1_000_000 + i as u32 } }
            12 => {
                log.push("pairs_mut".into());
                for p in s.pairs_mut() { let (x, p) = p.into_tuple(); x.0 += 3; if let Some(p) = p { p.0 = (p.0 + 1) % SEPS.len() as u32 } }
                for x in &mut m.it { *x += 3 }
                for p in &mut m.sep { *p = (*p + 1) % SEPS.len() as u32 }
            }
            13 => { log.push("&mut iteration".into()); for x in &mut s { x.0 += 7 } for x in &mut m.it { *x += 7 } }
            14 => {
                // through the raw list, edited, and back
                let mut rawl = s.into_inner();
                let mut edits = vec![];
                for _ in 0..r.range(0, 4) {
                    match r.below(4) {
                        0 => { edits.push("pop"); if let Some(p) = rawl.pop() { drop(p) } if m.trailing() { m.sep.pop(); } m.it.pop(); if m.sep.len() > m.it.len() { m.sep.pop(); } }
                        1 => if !rawl.empty_or_trailing() { edits.push("push_punct"); rawl.push_punct(Sep(3)); m.sep.push(3) },
                        2 => { edits.push("pop_punct"); rawl.pop_punct(); if m.trailing() { m.sep.pop(); } }
                        _ => { edits.push("push"); let x = fresh(r, &mut next); rawl.push(It::new(x)); m.push(x) }
                    }
                }
                log.push(format!("raw: {}", edits.join(", ")));
                ne("the raw list itself", raw(&rawl), m.clone()).map_err(|e| format!("harness: {}", e))?;
                let ok = !m.it.is_empty() && !m.trailing();
                match Separated::try_from(rawl) {
                    Ok(x) if ok => s = x,
                    Ok(_) => return Err(wrap(format!("the list {:?} was converted", m), &log)),
                    Err(e) if ok => return Err(wrap(format!("the list {:?} was not converted: {}", m, e), &log)),
                    Err(_) => { rec.count("unusable lists refused"); rec.case(&log.join("; "), true); return Ok(()) }
                }
            }
            _ => {
                let (i, x) = (n + 1 + r.below(3), fresh(r, &mut next));
                log.push(format!("insert({}, {}) out of range", i, x));
                if guard(|| s.insert(i, It::new(x))).is_ok() { return Err(wrap("it was accepted".into(), &log)) }
            }
        }
        rec.what = log.join("; ");
        see_sep(&mut s, &m, r).map_err(|e| wrap(e, &log))?;
        rec.count("operations on separated sequences");
    }
    rec.max("max_length", m.it.len() as u64);
    ne("number of items alive", ALIVE.with(|a| a.get()), m.it.len() as i64).map_err(|e| wrap(e, &log))?;
    drop(s);
    ne("number of items alive at the end", ALIVE.with(|a| a.get()), 0).map_err(|e| wrap(e, &log))?;
    rec.case(&log.join("; "), log.len() > 1);
    Ok(())
}

// ------------------------------------------------------------------ Punctuated

fn see_punct(s: &mut Punctuated<It, Sep>, m: &M, r: &mut Rng) -> Res {
    let n = m.it.len();
    ne("len", s.len(), n)?;
    ne("is_empty", s.is_empty(), n == 0)?;
    drain("iter", s.iter(), |x| x.0, &m.it, r)?;
    drain("iteration by reference", (&*s).into_iter(), |x| x.0, &m.it, r)?;
    ne("pairs", s.pairs().map(pr).collect::<Vec<_>>(), m.pairs())?;
    for i in 0..n { ne(&format!("[{}]", i), s[i].0, m.it[i])?; }
    ne("dereferenced", raw(&**s), m.clone())?;
    ne("as_ref", raw(AsRef::<Raw<It, Sep>>::as_ref(s)), m.clone())?;
    ne("as_mut", raw(AsMut::<Raw<It, Sep>>::as_mut(s)), m.clone())?;
    ne("borrowed", raw(Borrow::<Raw<It, Sep>>::borrow(s)), m.clone())?;
    ne("borrowed mutably", raw(BorrowMut::<Raw<It, Sep>>::borrow_mut(s)), m.clone())?;
    ne("first", s.first().map(|x| x.0), m.it.first().copied())?;
    ne("last", s.last().map(|x| x.0), m.it.last().copied())?;
    ne("trailing_punct", s.trailing_punct(), m.trailing())?;
    drain("iter_mut", s.iter_mut(), |x| x.0, &m.it, r)?;
    drain("iteration by mutable reference", (&mut *s).into_iter(), |x| x.0, &m.it, r)?;
    ne("pairs_mut", s.pairs_mut().map(|p| { let (a, b) = p.into_tuple(); (a.0, b.map(|b| b.0)) }).collect::<Vec<_>>(), m.pairs())?;
    check_tokens(s, m)?;
    let c = s.clone();
    if c != *s || hash(&c) != hash(s) { return Err("a copy differs or hashes differently".into()) }
    match r.below(7) {
        0 => ne("into_pairs", c.into_pairs().map(pv).collect::<Vec<_>>(), m.pairs()),
        1 => ne("into_inner", raw(&c.into_inner()), m.clone()),
        2 => ne("converted into the raw list", raw(&Raw::from(c)), m.clone()),
        3 => drain("iteration by value", c.into_iter(), |x| x.0, &m.it, r),
        4 => if guard(|| s[n].0).is_ok() { Err(format!("index {} of {} items works", n, n)) } else { Ok(()) },
        5 if n > 0 => {
            let mut d = m.clone();
            match r.below(3) {
                0 if !d.sep.is_empty() => { let i = r.below(d.sep.len()); d.sep[i] = (d.sep[i] + 1) % SEPS.len() as u32 }
                1 => if d.trailing() { d.sep.pop(); } else { d.sep.push(2) },
                _ => { let i = r.below(n); d.it[i] ^= 0x4000_0000 }
            }
            if Punctuated::from(mk(&d)) == *s { return Err(format!("{:?} and {:?} are equal", d, m)) }
            Ok(())
        }
        _ => {
            // whether it can be a separated sequence
            let ok = n > 0 && !m.trailing();
            match Separated::try_from(c.into_inner()) {
                Ok(x) if ok => ne("separated sequence", raw(&x), m.clone()),
                Ok(_) => Err(format!("{:?} was converted into a separated sequence", m)),
                Err(e) if ok => Err(format!("{:?} cannot be converted into a separated sequence: {}", m, e)),
                Err(_) => Ok(()),
            }
        }
    }
}

fn c21_punctuated(r: &mut Rng, rec: &mut Rec, size: usize) -> Res {
    let mut next = 0;
    let mut m = start(r, &mut next, false, true, size);
    let mut log = vec![];
    let mut s: Punctuated<It, Sep> = match r.below(5) {
        0 => { m = M::default(); log.push("new".into()); if r.chance(1, 2) { Punctuated::new() } else { Punctuated::default() } }
        1 => { log.push(format!("parse {:?}", m.text())); parsel::parse_str(&m.text()).map_err(|e| format!("{:?} is rejected: {}", m.text(), e))? }
        2 => { log.push(format!("from {:?}", m)); mk(&m).into() }
        3 => { m.sep = vec![0; m.it.len().saturating_sub(1)]; log.push(format!("collect {:?}", m.it)); hinted(m.it.iter().map(|x| It::new(*x)), r).collect() }
        _ => { log.push(format!("collect pairs {:?}", m)); hinted(m.pairs().into_iter().map(|(a, b)| Pair::new(It::new(a), b.map(Sep))), r).collect() }
    };
    let wrap = |e: String, log: &[String]| format!("punctuated sequence after {}: {}", log.join("; "), e);
    see_punct(&mut s, &m, r).map_err(|e| wrap(e, &log))?;
    let steps = if size > 0 { r.range(1, 4) } else { r.len(6, 40) };
    for _ in 0..steps {
        let n = m.it.len();
        match r.below(15) {
            0 | 1 => { let x = fresh(r, &mut next); log.push(format!("push({})", x)); s.push(It::new(x)); m.push(x) }
            2 => { let (i, x) = (r.range(0, n), fresh(r, &mut next)); log.push(format!("insert({}, {})", i, x)); s.insert(i, It::new(x)); if i == n { m.push(x) } else { m.it.insert(i, x); m.sep.insert(i, 0) } }
            3 => {
                log.push("pop".into());
                let want = m.pairs().pop();
                let got = s.pop().map(pv);
                if m.trailing() { m.sep.pop(); }
                m.it.pop();
                ne("pop", got, want).map_err(|e| wrap(e, &log))?;
            }
            4 => { log.push("pop_punct".into()); let want = if m.trailing() { m.sep.pop() } else { None }; ne("pop_punct", s.pop_punct().map(|p| p.0), want).map_err(|e| wrap(e, &log))? }
            5 => if n > 0 && !m.trailing() { let p = sep(r); log.push(format!("push_punct({})", p)); s.push_punct(Sep(p)); m.sep.push(p) },
            6 => if n == 0 || m.trailing() { let x = fresh(r, &mut next); log.push(format!("push_value({})", x)); s.push_value(It::new(x)); m.it.push(x) },
            7 | 8 => {
                let v: Vec<u32> = (0..some(r, size)).map(|_| fresh(r, &mut next)).collect();
                log.push(format!("extend({:?})", v));
                // with and without knowing how many
                if r.chance(1, 2) { s.extend(v.iter().map(|x| It::new(*x))) } else { s.extend(hinted(v.iter().map(|x| It::new(*x)), r)) }
                for x in v { m.push(x) }
            }
            9 | 10 => {
                let k = some(r, size);
                let end = r.chance(1, 2);
                let v: Vec<(u32, Option<u32>)> = (0..k).map(|i| (fresh(r, &mut next), if end && i + 1 == k { None } else { Some(sep(r)) })).collect();
                log.push(format!("extend pairs({:?})", v));
                // the raw list first separates itself from what is added
                let lone = n > 0 && !m.trailing();
                s.extend(hinted(v.iter().map(|(a, b)| Pair::new(It::new(*a), b.map(Sep))), r));
                if lone && (!v.is_empty() || s.trailing_punct()) { m.sep.push(0) }
                for (a, b) in v { m.it.push(a); m.sep.extend(b) }
            }
            11 => if n > 0 { let (i, x) = (r.below(n), fresh(r, &mut next)); log.push(format!("[{}] = {}", i, x)); s[i] = It::new(x); m.it[i] = x },
            12 => {
                log.push("pairs_mut and iter_mut".into());
                for p in s.pairs_mut() { let (x, p) = p.into_tuple(); x.0 += 3; if let Some(p) = p { p.0 = (p.0 + 1) % SEPS.len() as u32 } }
                for x in s.iter_mut() { x.0 += 100 }
                for x in &mut s { x.0 += 1000 }
                for x in &mut m.it { *x += 1103 }
                for p in &mut m.sep { *p = (*p + 1) % SEPS.len() as u32 }
            }
            13 => { log.push("clear".into()); if r.chance(1, 2) { s.deref_mut().clear() } else { AsMut::<Raw<It, Sep>>::as_mut(&mut s).clear() } m = M::default() }
            _ => { log.push("there and back".into()); s = Punctuated::from(Raw::from(s)) }
        }
        rec.what = log.join("; ");
        see_punct(&mut s, &m, r).map_err(|e| wrap(e, &log))?;
        rec.count("operations on punctuated sequences");
    }
    rec.max("max_length", m.it.len() as u64);
    ne("number of items alive", ALIVE.with(|a| a.get()), m.it.len() as i64).map_err(|e| wrap(e, &log))?;
    drop(s);
    ne("number of items alive at the end", ALIVE.with(|a| a.get()), 0).map_err(|e| wrap(e, &log))?;
    rec.case(&log.join("; "), log.len() > 1);
    Ok(())
}

// ------------------------------------------------------------------ Any

fn nums<'a>(i: impl IntoIterator<Item = &'a It>) -> Vec<u32> { i.into_iter().map(|x| x.0).collect() }

fn see_any(s: &mut Any<It>, m: &[u32], r: &mut Rng) -> Res {
    let n = m.len();
    ne("len", s.len(), n)?;
    ne("is_empty", s.is_empty(), n == 0)?;
    drain("iter", s.iter(), |x| x.0, m, r)?;
    drain("iteration by reference", (&*s).into_iter(), |x| x.0, m, r)?;
    drain("iter_mut", s.iter_mut(), |x| x.0, m, r)?;
    drain("iteration by mutable reference", (&mut *s).into_iter(), |x| x.0, m, r)?;
    for i in 0..n + 2 {
        ne(&format!("get({})", i), s.get(i).map(|x| x.0), m.get(i).copied())?;
        ne(&format!("get_mut({})", i), s.get_mut(i).map(|x| x.0), m.get(i).copied())?;
        if i < n { ne(&format!("[{}]", i), s[i].0, m[i])?; }
    }
    let (a, b) = (r.range(0, n + 1), r.range(0, n + 1));
    ne(&format!("get({}..{})", a, b), s.get(a..b).map(nums), m.get(a..b).map(|x| x.to_vec()))?;
    ne(&format!("get_mut({}..)", a), s.get_mut(a..).map(|x| nums(&*x)), m.get(a..).map(|x| x.to_vec()))?;
    if a <= b && b <= n { ne(&format!("[{}..{}]", a, b), nums(&s[a..b]), m[a..b].to_vec())?; ne("mutable slice", nums(&*(&mut s[a..b])), m[a..b].to_vec())?; ne("[..]", nums(&s[..]), m.to_vec())? }
    ne("dereferenced", nums(&***s), m.to_vec())?;
    ne("as_ref slice", nums(AsRef::<[It]>::as_ref(s)), m.to_vec())?;
    ne("as_ref vector", nums(AsRef::<Vec<It>>::as_ref(s)), m.to_vec())?;
    ne("as_mut slice", nums(&*AsMut::<[It]>::as_mut(s)), m.to_vec())?;
    ne("as_mut vector", nums(&*AsMut::<Vec<It>>::as_mut(s)), m.to_vec())?;
    ne("borrowed slice", nums(Borrow::<[It]>::borrow(s)), m.to_vec())?;
    ne("borrowed vector", nums(Borrow::<Vec<It>>::borrow(s)), m.to_vec())?;
    ne("borrowed mutable slice", nums(&*BorrowMut::<[It]>::borrow_mut(s)), m.to_vec())?;
    ne("borrowed mutable vector", nums(&*BorrowMut::<Vec<It>>::borrow_mut(s)), m.to_vec())?;
    check_tokens(s, &M { it: m.to_vec(), sep: vec![] })?;
    let c = s.clone();
    if c != *s || hash(&c) != hash(s) { return Err("a copy differs or hashes differently".into()) }
    match r.below(5) {
        0 => ne("into_inner", nums(&c.into_inner()), m.to_vec()),
        1 => ne("converted into a vector", nums(&Vec::from(c)), m.to_vec()),
        2 => drain("iteration by value", c.into_iter(), |x| x.0, m, r),
        3 => if guard(|| s[n].0).is_ok() { Err(format!("index {} of {} items works", n, n)) } else { Ok(()) },
        _ => {
            let mut d = m.to_vec();
            if d.is_empty() || r.chance(1, 2) { d.push(5) } else { let i = r.below(n); d[i] ^= 0x4000_0000 }
            if d.iter().map(|x| It::new(*x)).collect::<Any<_>>() == *s { return Err(format!("{:?} and {:?} are equal", d, m)) }
            Ok(())
        }
    }
}

fn c21_any(r: &mut Rng, rec: &mut Rec, size: usize) -> Res {
    let mut next = 0;
    let mut m = start(r, &mut next, false, false, size).it;
    let mut log = vec![];
    let its = |m: &[u32]| m.iter().map(|x| It::new(*x)).collect::<Vec<_>>();
    let mut s: Any<It> = match r.below(4) {
        0 => { m = vec![]; log.push("new".into()); if r.chance(1, 2) { Any::new() } else { Any::default() } }
        1 => { let t = m.iter().map(|x| format!("{} ", x)).collect::<String>(); log.push(format!("parse {:?}", t)); parsel::parse_str(&t).map_err(|e| format!("{:?} is rejected: {}", t, e))? }
        2 => { log.push(format!("from {:?}", m)); its(&m).into() }
        _ => { log.push(format!("collect {:?}", m)); hinted(its(&m).into_iter(), r).collect() }
    };
    let wrap = |e: String, log: &[String]| format!("repetition after {}: {}", log.join("; "), e);
    see_any(&mut s, &m, r).map_err(|e| wrap(e, &log))?;
    let steps = if size > 0 { r.range(1, 4) } else { r.len(6, 40) };
    for _ in 0..steps {
        let n = m.len();
        match r.below(12) {
            0 | 1 => { let x = fresh(r, &mut next); log.push(format!("push({})", x)); s.push(It::new(x)); m.push(x) }
            2 => { let (i, x) = (r.range(0, n), fresh(r, &mut next)); log.push(format!("insert({}, {})", i, x)); s.insert(i, It::new(x)); m.insert(i, x) }
            3 => { log.push("pop".into()); ne("pop", s.pop().map(|x| x.0), m.pop()).map_err(|e| wrap(e, &log))? }
            4 => if n > 0 { let i = r.below(n); log.push(format!("remove({})", i)); ne("remove", s.remove(i).0, m.remove(i)).map_err(|e| wrap(e, &log))? },
            5 | 6 => { let v: Vec<u32> = (0..some(r, size)).map(|_| fresh(r, &mut next)).collect(); log.push(format!("extend({:?})", v)); if r.chance(1, 2) { s.extend(its(&v)) } else { s.extend(hinted(its(&v).into_iter(), r)) } m.extend(v) }
            7 => if n > 0 { let (i, x) = (r.below(n), fresh(r, &mut next)); log.push(format!("[{}] = {}", i, x)); s[i] = It::new(x); m[i] = x },
            8 => if n > 0 { let (i, x) = (r.below(n), fresh(r, &mut next)); log.push(format!("*get_mut({}) = {}", i, x)); *s.get_mut(i).ok_or("get_mut gives nothing")? = It::new(x); m[i] = x },
            9 => {
                log.push("iter_mut".into());
                for x in s.iter_mut() { x.0 += 1 }
                for x in &mut s { x.0 += 10 }
                for x in &mut s[..n / 2] { x.0 += 100 }
                for x in &mut m { *x += 11 }
                for x in &mut m[..n / 2] { *x += 100 }
            }
            10 => { log.push("reverse".into()); AsMut::<[It]>::as_mut(&mut s).reverse(); m.reverse() }
            _ => { log.push("there and back".into()); s = Any::from(Vec::from(s)) }
        }
        rec.what = log.join("; ");
        see_any(&mut s, &m, r).map_err(|e| wrap(e, &log))?;
        rec.count("operations on repetitions");
    }
    rec.max("max_length", m.len() as u64);
    ne("number of items alive", ALIVE.with(|a| a.get()), m.len() as i64).map_err(|e| wrap(e, &log))?;
    drop(s);
    ne("number of items alive at the end", ALIVE.with(|a| a.get()), 0).map_err(|e| wrap(e, &log))?;
    rec.case(&log.join("; "), log.len() > 1);
    Ok(())
}

pub fn c21(run: &Run) {
    run.rule("a sequence went through at least one operation, and was compared with a plain list after each");
    let fresh = |f: fn(&mut Rng, &mut Rec, usize) -> Res| move |r: &mut Rng, rec: &mut Rec, _: u64| { ALIVE.with(|a| a.set(0)); f(r, rec, 0) };
    let sizes = run.sizes(&[31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2048, 4096, 4097], &[10_000, 32_768, 65_536, 65_537]);
    run.section("separated sequences", run.n(12_000, 25), fresh(c21_separated));
    run.section("punctuated sequences", run.n(8000, 25), fresh(c21_punctuated));
    run.section("repetitions", run.n(8000, 25), fresh(c21_any));
    run.section("long sequences", sizes.len() as u64 * 3 * run.n(3, 1), |r, rec, idx| {
        ALIVE.with(|a| a.set(0));
        let size = sizes[(idx / 3) as usize % sizes.len()];
        match idx % 3 { 0 => c21_separated(r, rec, size), 1 => c21_punctuated(r, rec, size), _ => c21_any(r, rec, size) }.map_err(|e| e.chars().take(600).collect::<String>() + " ... " + &e.chars().rev().take(200).collect::<Vec<_>>().into_iter().rev().collect::<String>())
    });
    // every small raw list
    let mut small = vec![];
    for n in 0..6u32 { for t in [false, true] { if n > 0 || !t { small.push(M { it: (1..=n).collect(), sep: (0..if n == 0 { 0 } else { n - 1 + u32::from(t) }).map(|i| i % 6).collect() }) } } }
    run.section("converting raw lists", small.len() as u64, |r, rec, idx| {
        ALIVE.with(|a| a.set(0));
        let m = &small[idx as usize];
        let ok = !m.it.is_empty() && !m.trailing();
        let got: Result<Separated<It, Sep>, Error> = Separated::try_from(mk(m));
        if got.is_ok() != ok { return Err(format!("converting {:?} into a separated sequence: {:?}", m, got.map(|x| x.to_string()))) }
        if let Ok(mut s) = got { see_sep(&mut s, m, r)? }
        rec.case(&format!("{:?}", m), true);
        Ok(())
    });
}
