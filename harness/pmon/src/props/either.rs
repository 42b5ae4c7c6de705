//! C23: the either type as a value and as an iterator, against its active side alone.
use crate::report::{Rec, Res, Run};
use crate::rng::Rng;
use parsel::ast::{Either, LitUint, Word};
use parsel::{Error, Span, ToTokens, TokenStream};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet, LinkedList, VecDeque};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::iter::FusedIterator;
use std::ops::{Deref, DerefMut};

fn ne<A: PartialEq<B> + Debug, B: Debug>(what: &str, got: A, want: B) -> Res { if got == want { Ok(()) } else { Err(format!("{} is {:?} instead of {:?}", what, got, want)) } }

/// An iterator that plays back a tape: it may pause (and so is not fused), and knows its length
/// only roughly.
#[derive(Clone, Debug)]
struct Tape<T> { t: VecDeque<Option<T>>, lo: usize, hi: Option<usize> }

impl<T: Clone> Tape<T> {
    fn left(&self) -> usize { self.t.iter().take_while(|x| x.is_some()).count() }
    fn new(r: &mut Rng, mut f: impl FnMut(&mut Rng) -> T) -> Self {
        let far = if r.chance(1, 60) { 1500 } else { 40 };
        let n = r.len(6, far);
        let pauses = r.chance(1, 3);
        Tape { t: (0..n).map(|_| if pauses && r.chance(1, 4) { None } else { Some(f(r)) }).collect(), lo: r.below(3), hi: if r.chance(1, 3) { None } else { Some(r.below(4)) } }
    }
}

impl<T: Clone> Iterator for Tape<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.t.pop_front().flatten() }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.left(); (n.saturating_sub(self.lo), self.hi.map(|h| n + h)) }
}
impl<T: Clone> DoubleEndedIterator for Tape<T> { fn next_back(&mut self) -> Option<T> { self.t.pop_back().flatten() } }

/// A full record of what an iterator does under a random schedule of calls, the same for two
/// iterators when the schedule (the generator's state) is the same.
fn play<I: Iterator + Clone>(i: &mut I, r: &mut Rng, tag: impl Fn(I::Item) -> String) -> Vec<String> {
    let mut log = vec![];
    let steps = r.range(1, 12);
    for _ in 0..steps {
        let n = r.len(4, 400);
        log.push(match r.below(17) {
            12 => format!("fold {:?}", i.clone().fold(vec![], |mut v, x| { v.push(tag(x)); v })),
            13 => { let mut v = vec![]; i.clone().for_each(|x| v.push(tag(x))); format!("for_each {:?}", v) }
            14 => { let mut k = 0; let b = i.try_fold(String::new(), |s, x| { k += 1; if k > n { Err(s) } else { Ok(s + &tag(x)) } }); format!("try_fold {:?}", b) }
            15 => { let mut k = 0; format!("find {:?}", i.find(|_| { k += 1; k > n }).map(&tag)) }
            16 => { let mut k = 0; format!("position {:?}", i.position(|_| { k += 1; k > n })) }
            0..=3 => format!("next {:?}", i.next().map(&tag)),
            4 => format!("nth {} {:?}", n, i.nth(n).map(&tag)),
            5 => format!("hint {:?}", i.size_hint()),
            6 => format!("count {}", i.clone().count()),
            7 => format!("last {:?}", i.clone().last().map(&tag)),
            8 => format!("all {:?}", i.clone().map(&tag).collect::<Vec<_>>()),
            9 => format!("some {:?}", i.by_ref().take(n).map(&tag).collect::<Vec<_>>()),
            10 => format!("every other {:?}", i.clone().step_by(n + 1).map(&tag).collect::<Vec<_>>()),
            _ => format!("skip {:?}", i.clone().skip(n).map(&tag).collect::<Vec<_>>()),
        });
    }
    log
}

fn play_both<I: DoubleEndedIterator + Clone>(i: &mut I, r: &mut Rng, tag: impl Fn(I::Item) -> String) -> Vec<String> {
    let mut log = vec![];
    let steps = r.range(1, 14);
    for _ in 0..steps {
        let n = r.len(4, 400);
        log.push(match r.below(17) {
            12 => format!("rfold {:?}", i.clone().rfold(vec![], |mut v, x| { v.push(tag(x)); v })),
            13 => { let mut v = vec![]; i.clone().rev().for_each(|x| v.push(tag(x))); format!("rev for_each {:?}", v) }
            14 => { let mut k = 0; let b = i.try_rfold(String::new(), |s, x| { k += 1; if k > n { Err(s) } else { Ok(s + &tag(x)) } }); format!("try_rfold {:?}", b) }
            15 => { let mut k = 0; format!("rfind {:?}", i.rfind(|_| { k += 1; k > n }).map(&tag)) }
            16 => { let (a, b): (Vec<_>, Vec<_>) = i.clone().map(&tag).partition(|s| s.len() % 2 == 0); format!("partition {:?} {:?}", a, b) }
            0..=2 => format!("next {:?}", i.next().map(&tag)),
            3..=5 => format!("next_back {:?}", i.next_back().map(&tag)),
            6 => format!("nth {} {:?}", n, i.nth(n).map(&tag)),
            7 => format!("nth_back {} {:?}", n, i.nth_back(n).map(&tag)),
            8 => format!("hint {:?}", i.size_hint()),
            9 => format!("backwards {:?}", i.clone().rev().map(&tag).collect::<Vec<_>>()),
            10 => format!("last {:?}, count {}", i.clone().last().map(&tag), i.clone().count()),
            _ => format!("some from the back {:?}", i.by_ref().rev().take(n).map(&tag).collect::<Vec<_>>()),
        });
    }
    log
}

fn play_exact<I: DoubleEndedIterator + ExactSizeIterator + FusedIterator + Clone>(i: &mut I, r: &mut Rng, tag: impl Fn(I::Item) -> String) -> Vec<String> {
    let mut log = vec![];
    for _ in 0..r.range(1, 14) {
        let n = r.len(4, 400);
        log.push(match r.below(8) {
            6 => format!("nth {} {:?}", n, i.nth(n).map(&tag)),
            7 => format!("nth_back {} {:?}", n, i.nth_back(n).map(&tag)),
            0 | 1 => format!("next {:?}", i.next().map(&tag)),
            2 | 3 => format!("next_back {:?}", i.next_back().map(&tag)),
            4 => format!("rposition {:?}", { let k = r.below(5); let mut n = 0; i.clone().rposition(|_| { n += 1; n > k }) }),
            _ => String::new(),
        });
        log.push(format!("len {} hint {:?}", i.len(), i.size_hint()));
    }
    log
}

/// The calls that consume an iterator, in every form.
fn play_rest<I: Iterator + Clone>(i: &mut I, r: &mut Rng, tag: impl Fn(I::Item) -> String) -> Vec<String> where I::Item: Clone {
    let key = |x: &I::Item| { let s = tag(x.clone()); s.bytes().last().map_or(0, |b| b % 3) };
    let mut log = vec![];
    for _ in 0..r.range(1, 8) {
        let n = r.len(4, 400);
        let some = |k: &mut usize| { *k += 1; *k > n };
        let mut k = 0;
        log.push(match r.below(24) {
            0 => format!("max_by {:?}", i.clone().max_by(|a, b| key(a).cmp(&key(b))).map(&tag)),
            1 => format!("min_by {:?}", i.clone().min_by(|a, b| key(a).cmp(&key(b))).map(&tag)),
            2 => format!("max_by_key {:?}", i.clone().max_by_key(key).map(&tag)),
            3 => format!("min_by_key {:?}", i.clone().min_by_key(key).map(&tag)),
            4 => format!("reduce {:?}", i.clone().reduce(|a, b| if key(&a) < key(&b) { b } else { a }).map(&tag)),
            5 => format!("is_sorted_by_key {:?}", i.clone().is_sorted_by_key(|x| key(&x))),
            6 => format!("all {:?} and then {:?}", i.all(|_| !some(&mut k)), i.next().map(&tag)),
            7 => format!("any {:?} and then {:?}", i.any(|_| some(&mut k)), i.next().map(&tag)),
            8 => format!("find_map {:?} and then {:?}", i.find_map(|x| if some(&mut k) { Some(tag(x)) } else { None }), i.next().map(&tag)),
            9 => { let (a, b): (Vec<_>, Vec<_>) = i.clone().partition(|x| key(x) == 0); format!("partition {:?} {:?}", a.into_iter().map(&tag).collect::<Vec<_>>(), b.into_iter().map(&tag).collect::<Vec<_>>()) }
            10 => { let v = i.try_for_each(|x| if some(&mut k) { Err(tag(x)) } else { Ok(()) }); format!("try_for_each {:?} and then {:?}", v, i.next().map(&tag)) }
            11 => format!("scan {:?}", i.by_ref().scan(0, |t, x| { *t += n; if *t > 2000 { None } else { Some(tag(x) + &t.to_string()) } }).collect::<Vec<_>>()),
            12 => format!("take_while {:?} and then {:?}", i.by_ref().take_while(|_| !some(&mut k)).map(&tag).collect::<Vec<_>>(), i.next().map(&tag)),
            13 => format!("skip_while {:?}", i.clone().skip_while(|_| !some(&mut k)).map(&tag).collect::<Vec<_>>()),
            14 => format!("map_while {:?} and then {:?}", i.by_ref().map_while(|x| if some(&mut k) { None } else { Some(tag(x)) }).collect::<Vec<_>>(), i.next().map(&tag)),
            15 => { let mut p = i.clone().peekable(); let f = p.peek().cloned().map(&tag); format!("peekable {:?} {:?} {:?}", f, p.size_hint(), p.map(&tag).collect::<Vec<_>>()) }
            16 => format!("chain {:?} {:?}", i.clone().chain(i.clone()).size_hint(), i.clone().chain(i.clone().take(n)).map(&tag).collect::<Vec<_>>()),
            17 => format!("zip {:?}", i.clone().zip(i.clone().skip(n)).map(|(a, b)| (tag(a), tag(b))).collect::<Vec<_>>()),
            18 => format!("cycle {:?}", i.clone().cycle().take(n).map(&tag).collect::<Vec<_>>()),
            19 => format!("enumerate {:?}", i.clone().enumerate().filter(|(k, _)| k % 2 == n % 2).map(|(k, x)| (k, tag(x))).last()),
            20 => format!("fuse {:?} {:?}", i.clone().fuse().nth(n).map(&tag), i.clone().fuse().count()),
            21 => { let mut v = vec![]; i.clone().inspect(|x| v.push(tag(x.clone()))).nth(n); format!("inspect {:?}", v) }
            22 => format!("unzip {:?}", { let (a, b): (Vec<String>, Vec<u8>) = i.clone().map(|x| { let k = key(&x); (tag(x), k) }).unzip(); (a, b) }),
            _ => format!("next {:?} of {:?}", i.next().map(&tag), i.size_hint()),
        });
    }
    log
}

/// The calls that compare.
fn play_ord<I: Iterator + Clone>(i: &mut I, r: &mut Rng, tag: impl Fn(I::Item) -> String) -> Vec<String> where I::Item: Ord {
    let mut log = vec![];
    for _ in 0..r.range(1, 5) {
        let n = r.len(3, 300);
        let (a, b) = (i.clone(), i.clone().skip(n));
        log.push(match r.below(8) {
            0 => format!("max {:?}", a.max().map(&tag)),
            1 => format!("min {:?}", a.min().map(&tag)),
            2 => format!("is_sorted {:?}", a.is_sorted()),
            3 => format!("cmp {:?} {:?} {:?}", a.clone().cmp(b.clone()), a.clone().cmp(a.clone()), b.cmp(a)),
            4 => format!("partial_cmp {:?} {:?}", a.clone().partial_cmp(b.clone()), b.partial_cmp(a)),
            5 => format!("eq {:?} {:?} ne {:?} {:?}", a.clone().eq(a.clone()), a.clone().eq(b.clone()), a.clone().ne(a.clone()), a.ne(b)),
            6 => format!("lt {:?} le {:?} gt {:?} ge {:?} {:?}", a.clone().lt(b.clone()), a.clone().le(b.clone()), a.clone().gt(b.clone()), a.clone().ge(b), a.clone().ge(a)),
            _ => format!("next {:?}", i.next().map(&tag)),
        });
    }
    log
}

/// Long iterators, of which only little is taken.
fn play_long<I: Iterator + Clone>(i: &mut I, r: &mut Rng, tag: impl Fn(I::Item) -> String) -> Vec<String> {
    let mut log = vec![];
    for _ in 0..r.range(1, 10) {
        let far = *r.pick(&[10, 400, 70_000]);
        let n = r.len(4, far);
        log.push(match r.below(6) {
            0 | 1 => format!("next {:?}", i.next().map(&tag)),
            2 => format!("nth {} {:?}", n, i.nth(n).map(&tag)),
            3 => format!("some {:?}", i.by_ref().take(n.min(50)).map(&tag).collect::<Vec<_>>()),
            4 => format!("zip {:?}", i.clone().zip(0..n.min(50)).size_hint()),
            _ => String::new(),
        });
        log.push(format!("hint {:?}", i.size_hint()));
    }
    log
}

/// Counts from one number to another, and says no more about its length than is true.
#[derive(Clone, Debug)]
struct Vague { at: u32, end: u32, lo: usize, hi: Option<usize> }

impl Vague {
    fn new(r: &mut Rng) -> Self {
        let far = *r.pick(&[300, 5_000, 70_000]);
        let n = r.below(far);
        let at = r.below(1000) as u32;
        Vague { at, end: at + n as u32, lo: *r.pick(&[0, 0, 1, 100]), hi: if r.chance(1, 2) { None } else { Some(r.len(10, 100_000)) } }
    }
}

impl Iterator for Vague {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { (self.at < self.end).then(|| { self.at += 1; self.at }) }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = (self.end - self.at) as usize; (n.min(self.lo), self.hi.map(|h| n + h)) }
}
impl DoubleEndedIterator for Vague { fn next_back(&mut self) -> Option<u32> { (self.at < self.end).then(|| { self.end -= 1; self.end + 1 }) } }

/// All of thousands of items.
fn play_all<I: DoubleEndedIterator + Clone>(i: &mut I, r: &mut Rng, tag: impl Fn(I::Item) -> String) -> Vec<String> {
    let mut log = vec![];
    for _ in 0..r.range(1, 3) {
        let far = *r.pick(&[10, 5_000, 70_000]);
        let n = r.below(far);
        log.push(match r.below(12) {
            0 | 1 => format!("last {:?}", i.clone().last().map(&tag)),
            2 => format!("count {}", i.clone().count()),
            3 => format!("nth {} {:?}", n, i.nth(n).map(&tag)),
            4 => format!("nth_back {} {:?}", n, i.nth_back(n).map(&tag)),
            5 => format!("skip {} last {:?}", n, i.clone().skip(n).last().map(&tag)),
            6 => format!("take {} last {:?}", n, i.clone().take(n).last().map(&tag)),
            7 => format!("fold {:?}", i.clone().fold((0u64, 0u64), |(k, h), x| (k + 1, h.wrapping_mul(31) ^ tag(x).bytes().fold(7, |a, b| a * 33 + u64::from(b))))),
            8 => format!("rfold {:?}", i.clone().rfold((0u64, 0u64), |(k, h), x| (k + 1, h.wrapping_mul(31) ^ tag(x).bytes().fold(7, |a, b| a * 33 + u64::from(b))))),
            9 => { let v: Vec<_> = i.clone().collect(); format!("collect {} first {:?}", v.len(), v.into_iter().next().map(&tag)) }
            10 => format!("rev last {:?}", i.clone().rev().last().map(&tag)),
            _ => { let mut k = 0; format!("find {:?}", i.find(|_| { k += 1; k > n }).map(&tag)) }
        });
        log.push(format!("hint {:?}", i.size_hint()));
    }
    log
}

fn lt<T: Debug>(x: T) -> String { format!("{:?}", x) }
fn tag<A: Debug, B: Debug>(side: bool) -> impl Fn(Either<A, B>) -> String {
    move |x| match x { Either::Left(x) if side => lt(x), Either::Right(x) if !side => lt(x), Either::Left(x) => format!("LEFT {:?}", x), Either::Right(x) => format!("RIGHT {:?}", x) }
}

fn agree(rec: &mut Rec, what: &str, got: Vec<String>, want: Vec<String>) -> Res {
    rec.add("iterator calls compared", want.len() as u64);
    if got == want { return Ok(()) }
    let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
    Err(format!("{}: call {} answers {:?} but its active side answers {:?}; calls before: {:?}", what, k, got.get(k), want.get(k), &want[..k]))
}

fn word(r: &mut Rng) -> String { (0..r.below(5)).map(|_| *r.pick(&['a', 'b', 'é', '0', ' '])).collect() }

/// The either of two iterators, one of them active, under one schedule of calls.
macro_rules! iter { ($rec:expr, $r:expr, $name:expr, $play:ident, $l:expr, $rt:expr) => { iter!($rec, $r, $name, $play, $l, $rt, usize::MAX) }; ($rec:expr, $r:expr, $name:expr, $play:ident, $l:expr, $rt:expr, $some:expr) => { {
    let r: &mut Rng = $r;
    let (l, rt) = ($l, $rt);
    let mut e = Either::Left(l.clone());
    if false { e = Either::Right(rt.clone()) }
    let mut f = Either::Right(rt.clone());
    if false { f = Either::Left(l.clone()) }
    let s = r.clone();
    $rec.what = format!("{} {:?} / {:?}", $name, l, rt);
    let (mut a, mut b) = (l.clone(), rt.clone());
    let (w1, w2) = ($play(&mut a, &mut s.clone(), lt), $play(&mut b, &mut s.clone(), lt));
    let (g1, g2) = ($play(&mut e, &mut s.clone(), tag(true)), $play(&mut f, &mut s.clone(), tag(false)));
    let key = format!("{} {:?}", $name, w1);
    agree($rec, &format!("{}: left of {:?}", $name, l), g1, w1)?;
    agree($rec, &format!("{}: right of {:?}", $name, rt), g2, w2)?;
    // the side itself was advanced
    ne("what is left", e.left().map(|x| x.map(lt).take($some).collect::<Vec<_>>()), Some(a.map(lt).take($some).collect::<Vec<_>>()))?;
    ne("what is left", f.right().map(|x| x.map(lt).take($some).collect::<Vec<_>>()), Some(b.map(lt).take($some).collect::<Vec<_>>()))?;
    r.u64();
    $rec.case(&key, true);
    Ok(())
} } }

fn iterators(r: &mut Rng, rec: &mut Rec, idx: u64) -> Res {
    let far = if r.chance(1, 60) { 3000 } else { 50 };
    let n = r.len(6, far);
    let v: Vec<u32> = (0..n).map(|_| r.below(100) as u32).collect();
    let n = r.len(6, far);
    let w: Vec<String> = (0..n).map(|_| word(r)).collect();
    match idx % 15 {
        0 | 1 => { let (a, b) = (Tape::new(r, |r| r.below(9)), Tape::new(r, word)); iter!(rec, r, "tapes", play, a, b) }
        2 | 3 => { let (a, b) = (Tape::new(r, |r| r.below(9) as u8), Tape::new(r, |r| r.below(9) as u64)); iter!(rec, r, "tapes from both ends", play_both, a, b) }
        4 => iter!(rec, r, "vec and deque", play_both, v.into_iter(), w.into_iter().collect::<VecDeque<_>>().into_iter()),
        5 => iter!(rec, r, "vec and list", play_exact, v.into_iter(), w.into_iter().collect::<LinkedList<_>>().into_iter()),
        6 => { let (a, b) = (r.below(20) as u32, r.below(50) as u32); let s: String = w.concat(); iter!(rec, r, "range and chars", play_both, a..b, s.chars()) }
        7 => { let (a, b) = (r.below(20) as u8, r.below(50) as u16); let c = r.len(60, 5000) as u16; iter!(rec, r, "ranges", play_exact, a..b as u8 % 40, b..c) }
        8 => iter!(rec, r, "filtered and chained", play_both, v.iter().filter(|x| **x % 3 != 0), w.iter().chain(w.iter())),
        9 => iter!(rec, r, "taken and skipped", play, v.iter().copied().take_while(|x| *x < 90), w.iter().cloned().skip(2).step_by(2)),
        10 => { let b: BTreeSet<u32> = v.iter().copied().collect(); iter!(rec, r, "set and slice", play_both, b.iter(), w.iter()) }
        13 if idx % 4 == 0 => { let (a, b) = (Vague::new(r), Vague::new(r)); let m = r.range(1, 9) as u32; iter!(rec, r, "thousands", play_all, a, b.filter(move |x| x % m != 1), 20) }
        11 => { let e = r.below(64); let (a, b) = (r.u64() >> e, r.below(1 << 40) as i64); iter!(rec, r, "long ranges", play_long, a / 2..a, -b..=b, 20) }
        12 => { let (k, n, m) = (r.below(9) as u8, r.below(1 << 33), r.below(9) as u64); iter!(rec, r, "endless ones", play_long, std::iter::repeat(k).take(n), (m..).step_by(3), 20) }
        13 if idx % 4 == 1 => { let (a, b) = (Tape::new(r, |r| r.below(30)), Tape::new(r, word)); iter!(rec, r, "tapes, consumed", play_rest, a, b) }
        13 if idx % 4 == 2 => iter!(rec, r, "vec and deque, consumed", play_rest, v.into_iter(), w.into_iter().collect::<VecDeque<_>>().into_iter()),
        14 if idx % 4 == 0 => { let (a, b) = (Tape::new(r, |r| r.below(4)), Tape::new(r, word)); iter!(rec, r, "tapes, compared", play_ord, a, b) }
        14 if idx % 4 == 1 => iter!(rec, r, "set and vec, compared", play_ord, v.into_iter().collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().into_iter(), w.into_iter()),
        _ => {
            // an either of an either
            let side = r.chance(1, 2);
            let x: Either<Either<std::vec::IntoIter<u32>, std::ops::Range<u8>>, std::vec::IntoIter<String>> = if side { Either::Left(Either::Left(v.clone().into_iter())) } else { Either::Left(Either::Right(3..r.range(3, 30) as u8)) };
            let s = r.clone();
            let in_tag = |x: Either<Either<u32, u8>, String>| match x { Either::Left(Either::Left(x)) if side => lt(x), Either::Left(Either::Right(x)) if !side => lt(x), o => format!("WRONG {:?}", o) };
            let want = match &x { Either::Left(Either::Left(i)) => play_both(&mut i.clone(), &mut s.clone(), lt), Either::Left(Either::Right(i)) => play_both(&mut i.clone(), &mut s.clone(), lt), _ => unreachable!() };
            let key = format!("nested {:?}", want);
            agree(rec, "nested", play_both(&mut x.clone(), &mut s.clone(), in_tag), want)?;
            rec.case(&key, true);
            Ok(())
        }
    }
}

/// The value an either should be.
#[derive(Clone, Debug, PartialEq)]
enum M { L(u64), R(String) }

fn check(e: &Either<u64, String>, m: &M) -> Res {
    let (l, r) = match m { M::L(x) => (Some(*x), None), M::R(x) => (None, Some(x.clone())) };
    ne("is_left", e.is_left(), l.is_some())?;
    ne("is_right", e.is_right(), r.is_some())?;
    ne("left", e.clone().left(), l)?;
    ne("right", e.clone().right(), r.clone())?;
    ne("as_ref.left", e.as_ref().left().copied(), l)?;
    ne("as_ref.right", e.as_ref().right().cloned(), r.clone())?;
    ne("as_mut.left", e.clone().as_mut().left().map(|x| *x), l)?;
    ne("as_mut.right", e.clone().as_mut().right().map(|x| x.clone()), r)?;
    let (p, a, d, w, s) = match m { M::L(x) => (format!("{}", x), format!("{:#}", x), format!("{:?}", x), format!("{:>9}", x), format!("{:<#7?}", x)), M::R(x) => (format!("{}", x), format!("{:#}", x), format!("{:?}", x), format!("{:>9}", x), format!("{:<#7?}", x)) };
    ne("display", (e.to_string(), format!("{:#}", e), format!("{:?}", e), format!("{:>9}", e), format!("{:<#7?}", e)), (p, a, d, w, s))
}

/// A history of operations on one either value.
fn history(r: &mut Rng, rec: &mut Rec, _: u64) -> Res {
    let mut m = if r.chance(1, 2) { M::L(r.below(1000) as u64) } else { M::R(word(r)) };
    let mut e: Either<u64, String> = match &m { M::L(x) => Either::Left(*x), M::R(x) => Either::Right(x.clone()) };
    let mut log = vec![format!("{:?}", m)];
    for _ in 0..r.range(1, 10) {
        check(&e, &m).map_err(|x| format!("{} after {:?}", x, log))?;
        let k = r.below(100) as u64;
        let op = r.below(9);
        log.push(format!("{}({})", ["flip twice", "flip", "map", "as_mut", "as_ref map", "transpose option", "transpose result", "extend", "swap sides"][op], k));
        rec.what = format!("{:?}", log);
        match op {
            0 => e = e.flip().flip(),
            1 => {
                let f: Either<String, u64> = e.flip();
                ne("flipped", (f.is_left(), f.is_right()), (matches!(m, M::R(_)), matches!(m, M::L(_)))).map_err(|x| format!("{} after {:?}", x, log))?;
                e = f.flip();
            }
            2 => {
                // only the active side's function is called, once, with the value
                let (c, d) = (Cell::new(0), Cell::new(0));
                e = e.map(|x| { c.set(c.get() + 1); x + k }, |s| { d.set(d.get() + 1); s + &k.to_string() });
                ne("calls of map", (c.get(), d.get()), if matches!(m, M::L(_)) { (1, 0) } else { (0, 1) }).map_err(|x| format!("{} after {:?}", x, log))?;
                m = match m { M::L(x) => M::L(x + k), M::R(s) => M::R(s + &k.to_string()) };
            }
            3 => {
                match e.as_mut() { Either::Left(x) => *x ^= k, Either::Right(s) => s.insert(0, 'x') }
                m = match m { M::L(x) => M::L(x ^ k), M::R(s) => M::R(format!("x{}", s)) };
            }
            4 => {
                let n: Either<u64, usize> = e.as_ref().map(|x| *x * 2, |s| s.len());
                let w = match &m { M::L(x) => (Some(x * 2), None), M::R(s) => (None, Some(s.len())) };
                ne("mapped by reference", (n.left(), n.right()), w).map_err(|x| format!("{} after {:?}", x, log))?;
                // of one type on both sides, it is that
                let mut u: Either<u64, u64> = e.as_ref().map(|x| *x, |s| s.len() as u64);
                let inner = match &m { M::L(x) => *x, M::R(s) => s.len() as u64 };
                ne("of one type", (u.into_inner(), *u, *Deref::deref(&u), *AsRef::<u64>::as_ref(&u)), (inner, inner, inner, inner)).map_err(|x| format!("{} after {:?}", x, log))?;
                match k % 3 { 0 => *u += k, 1 => *AsMut::<u64>::as_mut(&mut u) += k, _ => *DerefMut::deref_mut(&mut u) += k }
                ne("of one type, changed", (u.into_inner(), u.is_left()), (inner + k, matches!(m, M::L(_)))).map_err(|x| format!("{} after {:?}", x, log))?;
            }
            5 => {
                let none = k % 2 == 0;
                let o: Either<Option<u64>, Option<String>> = e.clone().map(|x| if none { None } else { Some(x) }, |s| if none { None } else { Some(s) });
                match o.transpose() {
                    None if none => {}
                    Some(x) if !none => e = x,
                    o => return Err(format!("transposed to {:?} after {:?}", o, log)),
                }
            }
            6 => {
                let bad = k % 2 == 0;
                let fail = |n: &str| { let mut e = Error::new(Span::call_site(), format!("{} {}", n, k)); for i in 0..k % 3 { e.combine(Error::new(Span::call_site(), format!("{} more", i))) } e };
                let o: Either<parsel::Result<u64>, parsel::Result<String>> = e.clone().map(|x| if bad { Err(fail("left")) } else { Ok(x) }, |s| if bad { Err(fail("right")) } else { Ok(s) });
                match o.transpose() {
                    Err(x) if bad => ne("transposed error", all(x), all(fail(if matches!(m, M::L(_)) { "left" } else { "right" }))).map_err(|x| format!("{} after {:?}", x, log))?,
                    Ok(x) if !bad => e = x,
                    o => return Err(format!("transposed to {:?} after {:?}", o, log)),
                }
            }
            7 => {
                let add: Vec<char> = (0..r.below(4)).map(|_| *r.pick(&['p', 'q', 'ß'])).collect();
                let mut c: Either<Vec<char>, String> = e.as_ref().map(|x| vec!['l', (b'0' + (*x % 10) as u8) as char], |s| s.clone());
                let was = match &m { M::L(x) => vec!['l', (b'0' + (*x % 10) as u8) as char], M::R(s) => s.chars().collect() };
                c.extend(add.clone());
                let got: (bool, Vec<char>) = match c { Either::Left(v) => (true, v), Either::Right(s) => (false, s.chars().collect()) };
                ne("extended", got, (matches!(m, M::L(_)), was.into_iter().chain(add).collect::<Vec<_>>())).map_err(|x| format!("{} after {:?}", x, log))?;
            }
            _ => {
                m = match m { M::L(x) => M::R(x.to_string()), M::R(s) => M::L(s.len() as u64) };
                e = match e { Either::Left(x) => Either::Right(x.to_string()), Either::Right(s) => Either::Left(s.len() as u64) };
            }
        }
    }
    check(&e, &m).map_err(|x| format!("{} after {:?}", x, log))?;
    rec.case(&format!("{:?}", log), true);
    Ok(())
}

fn all(e: Error) -> Vec<String> { e.into_iter().map(|e| e.to_string()).collect() }

/// Takes as much as it wants, and notes how often it was asked to.
#[derive(Clone, PartialEq, Debug)]
struct Sink { got: Vec<u32>, most: usize, calls: usize }
impl Extend<u32> for Sink { fn extend<I: IntoIterator<Item = u32>>(&mut self, i: I) { self.calls += 1; self.got.extend(i.into_iter().take(self.most)) } }

/// Extended from iterators of any length, endless ones included, that say anything true about it.
fn extended(r: &mut Rng, rec: &mut Rec, _: u64) -> Res {
    let n = *r.pick(&[0, 0, 1, 2, 5, 40, usize::MAX]);
    let lo = *r.pick(&[0, 0, n.min(1), n / 2, n]);
    let hi = match r.below(3) { 0 => None, 1 => Some(n), _ => Some(n.saturating_add(r.below(5))) };
    let (most, side) = (*r.pick(&[0, 1, 3, 100]), r.chance(1, 2));
    struct It(usize, usize, Option<usize>, u32);
    impl Iterator for It {
        type Item = u32;
        fn next(&mut self) -> Option<u32> { if self.0 == 0 { return None } if self.0 != usize::MAX { self.0 -= 1; self.1 = self.1.saturating_sub(1); self.2 = self.2.map(|x| x - 1) } self.3 += 1; Some(self.3) }
        fn size_hint(&self) -> (usize, Option<usize>) { (self.1, self.2) }
    }
    rec.what = format!("{} items said to be {}..={:?}, at most {} taken, left {}", n, lo, hi, most, side);
    let old: Vec<u32> = (100..100 + r.below(3) as u32).collect();
    let s = Sink { got: old.clone(), most, calls: 0 };
    let mut e: Either<Sink, Sink> = if side { Either::Left(s.clone()) } else { Either::Right(s) };
    e.extend(It(n, lo, hi, 0));
    if e.is_left() != side { return Err(format!("the other side: {}", rec.what)) }
    let want: Vec<u32> = old.iter().copied().chain(1..=n.min(most) as u32).collect();
    let s = e.into_inner();
    ne(&format!("extended with {}", rec.what), (s.got, s.calls), (want, 1))?;
    rec.case(&format!("{} {}", rec.what, old.len()), n > 0);
    Ok(())
}

fn hash<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

/// As a value: equality, order and hash; collections; iterating what it holds; as a node.
fn values(r: &mut Rng, rec: &mut Rec, _: u64) -> Res {
    let mk = |r: &mut Rng| { let n = r.below(4) as u32; if r.chance(1, 2) { Either::Left(n) } else { Either::Right(n) } };
    let (a, b, c): (Either<u32, u32>, Either<u32, u32>, Either<u32, u32>) = (mk(r), mk(r), mk(r));
    rec.what = format!("{:?} {:?} {:?}", (a.is_left(), a), (b.is_left(), b), (c.is_left(), c));
    let same = a.is_left() == b.is_left() && *a == *b;
    ne("equality", a == b, same)?;
    ne("order and equality", a.cmp(&b) == std::cmp::Ordering::Equal, same)?;
    ne("partial order", a.partial_cmp(&b), Some(a.cmp(&b)))?;
    ne("order reversed", b.cmp(&a), a.cmp(&b).reverse())?;
    if a.is_left() == b.is_left() { ne("order of the active sides", a.cmp(&b), (*a).cmp(&*b))? }
    if a <= b && b <= c && !(a <= c) { return Err("order is not transitive".into()) }
    if same && hash(&a) != hash(&b) { return Err("equal, but hashed differently".into()) }
    let d = a;
    ne("a copy", d, a)?;
    // what it holds, iterated by value
    let v: Vec<u32> = (0..r.len(5, 30)).map(|_| r.below(50) as u32).collect();
    let side = r.chance(1, 2);
    let x: Either<Vec<u32>, BTreeSet<u32>> = if side { Either::Left(v.clone()) } else { Either::Right(v.iter().copied().collect()) };
    let want: Vec<u32> = if side { v.clone() } else { v.iter().copied().collect::<BTreeSet<_>>().into_iter().collect() };
    let got: Vec<u32> = Iterator::map(x.clone().into_iter(), |i| { if i.is_left() == side { i.into_inner() } else { u32::MAX } }).collect();
    ne("iterated", got, want)?;
    // extended, it keeps its side; any iterable will do
    let more: Vec<u32> = (0..r.len(5, 30)).map(|_| r.below(50) as u32).collect();
    let mut y = x.clone();
    y.extend(more.iter().copied().filter(|x| x % 7 != 0));
    let add = more.iter().copied().filter(|x| x % 7 != 0);
    let want: Either<Vec<u32>, BTreeSet<u32>> = if side { Either::Left(v.iter().copied().chain(add).collect()) } else { Either::Right(v.iter().copied().chain(add).collect()) };
    if y != want { return Err(format!("{:?} (left: {}) extended by {:?} is {:?}", x, side, more, y)) }
    let mut z: Either<HashSet<u32>, VecDeque<u32>> = if side { Either::Left(v.iter().copied().collect()) } else { Either::Right(v.iter().copied().collect()) };
    z.extend(more.clone());
    let want: Either<HashSet<u32>, VecDeque<u32>> = if side { Either::Left(v.iter().chain(&more).copied().collect()) } else { Either::Right(v.iter().chain(&more).copied().collect()) };
    if z != want { return Err(format!("{:?} (left: {}) extended by {:?} is {:?}", v, side, more, z)) }
    // as a node it is its side
    let n: Either<LitUint, Word> = if side { Either::Left(LitUint::new(v.len() as u64, Span::call_site())) } else { Either::Right(parsel::parse_str(r.pick(&["foo", "x1", "type"])).unwrap()) };
    let alone: TokenStream = match &n { Either::Left(x) => x.to_token_stream(), Either::Right(x) => x.to_token_stream() };
    ne("printed", n.to_token_stream().to_string(), alone.to_string())?;
    let back: Either<LitUint, Word> = parsel::parse2(n.to_token_stream()).map_err(|e| e.to_string())?;
    ne("printed and parsed", (back.is_left(), back == n), (side, true))?;
    let from: Either<LitUint, Word> = n.to_string().parse().map_err(|e: Error| e.to_string())?;
    ne("displayed and parsed", (from.is_left(), from == n), (side, true))?;
    ne("alternate display", format!("{:#}", n), match &n { Either::Left(x) => format!("{:#}", x), Either::Right(x) => format!("{:#}", x) })?;
    rec.case(&format!("{} {:?} {:?} {:?}", side, v, more, (a.is_left(), a, b.is_left(), b)), true);
    Ok(())
}

pub fn c23(run: &Run) {
    run.rule("random schedules of iterator calls (from both ends, counting, skipping, lengths) on eithers of lawful iterators, incl. non-fused ones and ones with loose size hints, compared call by call with the active side alone; random histories of operations on either values against a model; a case is a distinct schedule with its answers or history, all are non-trivial");
    run.section("iterators", run.n(60_000, 40), iterators);
    run.section("histories", run.n(60_000, 40), history);
    run.section("values", run.n(40_000, 40), values);
    run.section("extended from any iterator", run.n(60_000, 40), extended);
}
