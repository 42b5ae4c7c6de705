//! Long and deep inputs, shared by the checks: sizes around which counters, buffers and limits are
//! commonly set.
use crate::eng::*;
use crate::gen::{Gen, Layout, GT};
use crate::model::{G, K, V};
use crate::ops::Node;
use crate::report::{Rec, Res, Run};
use crate::rng::Rng;
use crate::tok::D;
use crate::zoo::*;
use parsel::ast::*;

pub struct Scaled { pub ty: Ty, make: fn(&mut Rng, usize) -> Vec<GT>, deep: bool }

impl Scaled {
    pub fn deep(&self) -> bool { self.deep }
    /// a type that does not accept these is reported by the checks of the grammar
    pub fn parse(&self, i: &Input) -> Result<Box<dyn Node>, String> { self.ty.t.parse_str(&i.s).map_err(|e| format!("{} rejects a sentence of {} tokens: {}", self.ty.name(), i.tks.len(), e)) }
}

fn op(s: &str) -> GT { GT::Op(s.into()) }
fn word(r: &mut Rng) -> GT { GT::Word((*r.pick(&["ab", "cd", "x1", "y", "foo_bar"])).into()) }
fn int(r: &mut Rng) -> GT { GT::Lit(r.below(1000).to_string()) }
fn lit(r: &mut Rng) -> GT {
    let mut g = Gen::new(r, 1);
    let k = [G::LitBool, G::LitByte, G::LitUint, G::LitFloat, G::LitChar, G::LitStr, G::LitByteStr];
    let i = g.r.below(7);
    let v = loop { match g.lv(&k[i]) { crate::lits::LV::Float(f) if f64::from_bits(f).is_sign_negative() => continue, v => break v } };
    let mut o = vec![];
    g.unparse(&V::of(K::Lit(v)), &mut o);
    o.remove(0)
}
fn list(n: usize, r: &mut Rng, item: fn(&mut Rng) -> Vec<GT>, sep: &[&str], trailing: bool) -> Vec<GT> {
    let mut o = vec![];
    for k in 0..n { if k > 0 { o.extend(sep.iter().map(|s| op(s))) } o.extend(item(r)) }
    if trailing && n > 0 && r.chance(1, 2) { o.extend(sep.iter().map(|s| op(s))) }
    o
}
fn pair(r: &mut Rng) -> Vec<GT> { vec![word(r), int(r)] }
fn one(r: &mut Rng) -> Vec<GT> { vec![int(r)] }
fn name(r: &mut Rng) -> Vec<GT> { vec![word(r)] }
fn chain(n: usize, r: &mut Rng, item: fn(&mut Rng) -> Vec<GT>, ops: &[&str]) -> Vec<GT> {
    let mut o = item(r);
    for _ in 0..n { let s = *r.pick(ops); o.push(op(s)); o.extend(item(r)) }
    o
}
/// wraps something n times
fn wrap(n: usize, x: Vec<GT>, r: &mut Rng, f: fn(Vec<GT>, &mut Rng) -> Vec<GT>) -> Vec<GT> { (0..n).fold(x, |x, _| f(x, r)) }
fn statement(r: &mut Rng) -> Vec<GT> {
    match r.below(4) {
        0 => vec![GT::Word("let".into()), word(r), op("="), int(r), op(";")],
        1 => vec![GT::Word("if".into()), GT::Group(D::Paren, vec![word(r), op("<"), int(r)]), GT::Group(D::Brace, vec![word(r), op("="), int(r), op("+"), word(r), op(";")])],
        2 => vec![word(r), GT::Group(D::Paren, vec![int(r), op(","), word(r)]), op(";")],
        _ => vec![op(";")],
    }
}

fn t<T: crate::ops::Full + parsel::Display + parsel::FromStr<Err = parsel::Error>>(name: &str, make: fn(&mut Rng, usize) -> Vec<GT>, deep: bool) -> Scaled { Scaled { ty: Ty::new(crate::ops::ty::<T>(name)), make, deep } }

pub fn all() -> Vec<Scaled> {
    macro_rules! long { ($($t:ty: $f:expr;)*) => { vec![$(t::<$t>(stringify!($t), $f, false)),*] } }
    macro_rules! deep { ($($t:ty: $f:expr;)*) => { vec![$(t::<$t>(stringify!($t), $f, true)),*] } }
    let mut v = long! {
        Any<LitUint>: |r, n| list(n, r, one, &[], false);
        Any<Lit>: |r, n| (0..n).map(|_| lit(r)).collect();
        Many<Item2>: |r, n| list(n, r, pair, &[], false);
        Any<Paren<Any<Word>>>: |r, n| (0..n).map(|_| { let k = r.below(3); GT::Group(D::Paren, (0..k).map(|_| word(r)).collect()) }).collect();
        Punctuated<LitUint, Token![,]>: |r, n| list(n, r, one, &[","], true);
        Punctuated<Item2, SepAB>: |r, n| list(n, r, pair, &[",", ";"], true);
        Separated<Ident, Token![::]>: |r, n| list(n, r, name, &["::"], false);
        Separated<Item2, SepAB>: |r, n| list(n, r, pair, &[",", ";"], false);
        LeftAssoc<AddOp, LitUint>: |r, n| chain(n, r, one, &["+", "-", "+="]);
        RightAssoc<AddOp, LitUint>: |r, n| chain(n, r, one, &["+", "-", "+="]);
        Expr: |r, n| chain(n, r, name, &["+", "-", "*", "^", "<", "=="]);
        Program: |r, n| (0..n).flat_map(|_| statement(r)).collect();
        Block: |r, n| { let x = (0..n).flat_map(|_| statement(r)).collect(); vec![GT::Group(D::Brace, x)] };
        LongParts: |r, n| { let mut o = name(r); o.extend(list(n, r, one, &[], false)); o.push(op(";")); o.extend(list(n.div_ceil(2), r, name, &["::"], false)); o.push(op(";")); o.extend(list(n / 3, r, pair, &[","], true)); o };
        LongAlt: |r, n| { let mut o = list(n, r, name, &[], false); match r.below(3) { 0 => { o.push(op(";")); o.extend(one(r)) } 1 => { o.push(op(",")); o.extend(one(r)) } _ => o.push(GT::Lit("\"end\"".into())) } o };
        LongIn: |r, n| { let mut o = name(r); let mut b = one(r); b.extend(list(n, r, name, &[","], false)); b.push(op(";")); o.push(GT::Group(D::Brace, b)); o };
        Json: |r, n| vec![GT::Group(D::Bracket, list(n, r, |r| if r.chance(1, 3) { vec![GT::Lit("\"x\"".into())] } else { one(r) }, &[","], true))];
    };
    v.extend(deep! {
        Json: |r, n| wrap(n, one(r), r, |mut x, r| { if r.chance(1, 3) { x.push(op(",")); x.extend(one(r)) } else if r.chance(1, 2) { x.insert(0, op(",")); x.insert(0, int(r)); return vec![GT::Group(D::Bracket, x)] } else if r.chance(1, 3) { let mut y = vec![GT::Lit("\"k\"".into()), op(":")]; let x = if x.iter().any(|t| *t == op(",")) { vec![GT::Group(D::Bracket, x)] } else { x }; y.extend(x); return vec![GT::Group(D::Brace, y)] } vec![GT::Group(D::Bracket, x)] });
        TypeRef: |r, n| wrap(n, name(r), r, |x, r| match r.below(3) { 0 => vec![GT::Group(D::Bracket, x)], 1 => { let mut y = vec![op("?")]; y.extend(x); y } _ => { let mut y = vec![GT::Word("fn".into())]; if r.chance(1, 2) { y.push(GT::Group(D::Paren, x)) } else { y.push(GT::Group(D::Paren, vec![])); y.push(op("->")); y.extend(x) } y } });
        Block: |r, n| { let x = statement(r); wrap(n.max(1), x, r, |mut x, r| { if r.chance(1, 3) { x.extend(statement(r)) } vec![GT::Group(D::Brace, x)] }) };
        Expr: |r, n| wrap(n, name(r), r, |x, r| match r.below(4) { 0 => vec![GT::Group(D::Paren, x)], 1 => { let mut y = vec![op("-")]; y.push(GT::Group(D::Paren, x)); y } 2 => vec![word(r), GT::Group(D::Paren, x)], _ => { let mut y = vec![int(r), op("+")]; y.push(GT::Group(D::Bracket, { let mut z = vec![op(";")]; z.extend(x); z })); y } });
        Unary: |r, n| wrap(n, name(r), r, |x, r| { let mut y = vec![op(if r.chance(1, 2) { "!" } else { "-" })]; y.extend(x); y });
        DeepEnum: |r, n| wrap(n, one(r), r, |x, r| match r.below(3) { 0 => vec![GT::Group(D::Paren, x)], 1 => vec![GT::Group(D::Brace, x), op(";")], _ => vec![GT::Group(D::Bracket, x), op(",")] });
    });
    v
}

/// Every long and deep type in every size; what the closure is given is a sentence.
pub fn scaled(run: &Run, name: &str, f: impl Fn(&Scaled, Input, &mut Rng, &mut Rec) -> Res + Sync) { scaled_with(run, name, |c, gts, l, r, rec| { let i = lay(gts, "scaled", l, r).expect("harness: a scaled input does not lex"); f(c, i, r, rec) }) }

pub fn scaled_with(run: &Run, name: &str, f: impl Fn(&Scaled, Vec<GT>, Layout, &mut Rng, &mut Rec) -> Res + Sync) {
    let cs = all();
    let long = run.sizes(&[9, 17, 33, 65, 101, 129, 257, 513, 1001, 1025, 4097], &[255, 256, 1000, 1024, 4096, 9000, 16_385]);
    let deep = run.sizes(&[5, 9, 17, 33, 65, 101, 129], &[7, 8, 16, 32, 64, 100, 128, 200, 257]);
    let list: Vec<(usize, usize)> = cs.iter().enumerate().flat_map(|(k, c)| if c.deep { &deep } else { &long }.iter().map(move |n| (k, *n))).collect();
    run.section_with(name, list.len() as u64, 1 << 30, 8, |r, rec, idx| {
        // the big ones first, so that they do not end up alone
        let (k, n) = list[list.len() - 1 - idx as usize];
        let c = &cs[k];
        let gts = (c.make)(r, n);
        let l = *r.pick(&[Layout::Spaced, Layout::Lines, Layout::Tight, Layout::Wild]);
        rec.what = format!("{} of size {}", c.ty.name(), n);
        rec.max(if c.deep { "max_depth_of_nodes" } else { "max_length_of_nodes" }, n as u64);
        f(c, gts, l, r, rec).map_err(|e| format!("(size {}) {}", n, e))
    })
}
