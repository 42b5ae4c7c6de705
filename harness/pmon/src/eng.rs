//! The engine shared by the checks: types with their features, inputs, and the differential run of
//! the real parser against the reference model.
use crate::gen::{flatten_pool, render, Gen, Layout, GT};
use crate::model::{Fail, Gr, Model, G, V};
use crate::ops::{err, ErrObs, Node, TypeOps};
use crate::report::{Rec, Res};
use crate::rng::Rng;
use crate::tok::{assign, lex_str, show, Tk};
use parsel::syn::parse::{ParseStream, Parser};
use std::collections::HashSet;

pub mod feat {
    pub const STRUCT: u32 = 1;
    pub const ENUM: u32 = 2;
    pub const ANY: u32 = 4;
    pub const PUNCT: u32 = 8;
    pub const SEP: u32 = 16;
    pub const CHAIN: u32 = 32;
    pub const MAYBE: u32 = 64;
    pub const EITHER: u32 = 128;
    pub const END: u32 = 256;
    pub const GROUP: u32 = 512;
    pub const LIT: u32 = 1024;
    pub const WORD: u32 = 2048;
    pub const KW: u32 = 4096;
    pub const TOK: u32 = 8192;
}

pub fn kind(g: &G) -> u32 {
    match g {
        G::Tok(_) => feat::TOK,
        G::Kw(_) => feat::KW,
        G::Ident | G::Word(_) => feat::WORD,
        G::Struct(..) => feat::STRUCT,
        G::Enum(..) => feat::ENUM,
        G::Any(_) => feat::ANY,
        G::Punctuated(..) => feat::PUNCT,
        G::Separated(..) => feat::SEP,
        G::Left(..) | G::Right(..) => feat::CHAIN,
        G::Maybe(..) => feat::MAYBE,
        G::Either(..) => feat::EITHER,
        G::Eof | G::NotEof | G::Empty | G::Rest => feat::END,
        G::Group(..) => feat::GROUP,
        G::Alias(_) | G::Probe(..) => 0,
        _ => feat::LIT,
    }
}

pub fn root(g: Gr) -> Gr { match g.get() { G::Alias(x) | G::Probe(_, x) => root(x), _ => g } }

pub fn kids(g: &G) -> Vec<Gr> {
    match g {
        G::Struct(_, f) => f.iter().map(|x| x.1).collect(),
        G::Enum(_, vs) => vs.iter().flat_map(|v| v.1.iter().map(|x| x.1)).collect(),
        G::Any(x) | G::Group(_, x) | G::Alias(x) | G::Probe(_, x) => vec![x],
        G::Punctuated(a, b) | G::Separated(a, b) | G::Left(a, b) | G::Right(a, b) | G::Maybe(a, b) | G::Either(a, b) => vec![a, b],
        _ => vec![],
    }
}

pub fn reach(g: Gr) -> u32 {
    fn go(g: Gr, seen: &mut HashSet<usize>, o: &mut u32) {
        if !seen.insert(g as *const _ as usize) { return }
        *o |= kind(g.get());
        for k in kids(g.get()) { go(k, seen, o) }
    }
    let mut o = 0;
    go(g, &mut HashSet::new(), &mut o);
    o
}

pub struct Ty { pub t: Box<dyn TypeOps>, pub reach: u32, pub root: u32 }

impl Ty {
    pub fn new(t: Box<dyn TypeOps>) -> Ty { let g = t.g(); Ty { reach: reach(g), root: kind(root(g).get()), t } }
    pub fn name(&self) -> &str { self.t.name() }
}

pub struct Input { pub gts: Vec<GT>, pub s: String, pub tks: Vec<Tk>, pub kind: &'static str, pub layout: Layout }

impl Input {
    pub fn brief(&self) -> String { let mut s: String = self.s.chars().take(240).collect(); if s.len() < self.s.len() { s.push('…') } s }
}

pub fn lay(gts: Vec<GT>, kind: &'static str, layout: Layout, r: &mut Rng) -> Option<Input> {
    let t = render(&gts, layout, r);
    let mut tks = lex_str(&t.s)?;
    if !assign(&mut tks, &t.pieces) { return None }
    Some(Input { gts, s: t.s, tks, kind, layout })
}

pub const LAYOUTS: [Layout; 4] = [Layout::Spaced, Layout::Tight, Layout::Wild, Layout::Lines];

/// A token sequence for this grammar: a sentence, a near miss, a sentence with junk, or soup.
pub fn tokens_for(g: Gr, r: &mut Rng) -> (Vec<GT>, &'static str) {
    let budget = match r.below(10) { 0..=4 => 15, 5..=8 => 45, _ => 140 };
    let mode = r.below(20);
    let mut gen = Gen::new(r, budget);
    let mut ts = vec![];
    let sent = (0..4).find_map(|_| gen.v(g, 0));
    if let Some(v) = &sent { gen.unparse(v, &mut ts) }
    let mut pool = vec![];
    flatten_pool(&ts, &mut pool);
    match mode {
        0..=8 if sent.is_some() => (ts, "sentence"),
        9..=14 if sent.is_some() => { gen.mutate(&mut ts, &pool); (ts, "near miss") }
        15 | 16 if sent.is_some() => {
            let n = gen.r.range(1, 2);
            for _ in 0..n {
                let t = if pool.is_empty() || gen.r.chance(1, 3) { gen.soup_tok(1) } else { gen.r.pick(&pool).clone() };
                if gen.r.chance(3, 4) { ts.push(t) } else { ts.insert(0, t) }
            }
            (ts, "sentence and more")
        }
        17 if sent.is_some() => {
            // two sentences after one another
            if let Some(v) = gen.v(g, 0) { gen.unparse(&v, &mut ts) }
            (ts, "two sentences")
        }
        18 if !pool.is_empty() => {
            let n = gen.r.range(0, 6);
            ((0..n).map(|_| gen.r.pick(&pool).clone()).collect(), "shuffled tokens")
        }
        _ => { let n = gen.r.range(0, 6); ((0..n).map(|_| gen.soup_tok(2)).collect(), "soup") }
    }
}

/// Only sentences.
pub fn sentence_for(g: Gr, r: &mut Rng, budget: isize) -> Option<Vec<GT>> {
    let mut gen = Gen::new(r, budget);
    let v = (0..4).find_map(|_| gen.v(g, 0))?;
    let mut ts = vec![];
    gen.unparse(&v, &mut ts);
    Some(ts)
}

pub fn input_for(g: Gr, r: &mut Rng, rec: &mut Rec) -> Option<Input> {
    let (gts, kind) = tokens_for(g, r);
    let l = *r.pick(&LAYOUTS);
    let i = lay(gts, kind, l, r);
    if i.is_none() { rec.count("inputs the lexer does not read as intended") }
    i
}

pub enum Out { Acc(Box<dyn Node>, V), Rej(ErrObs), Skip }

const STEPS: usize = 60_000;

/// What the model may take to decide an input; beyond, the grammar is considered ambiguous without bound.
pub fn steps_for(tks: &[Tk]) -> usize { STEPS + if tks.len() < 200 { 0 } else { 400 * tks.len() } }

pub fn model(g: Gr, tks: &[Tk]) -> Option<Option<V>> {
    match Model::new(steps_for(tks)).full(g, tks) { Ok(v) => Some(Some(v)), Err(Fail::No) => Some(None), Err(Fail::Budget) => None }
}

/// Runs the real parser and the model on the same input and compares the outcome.
pub fn diff(ty: &Ty, i: &Input, rec: &mut Rec) -> Result<Out, String> {
    rec.what = format!("{} on {:?}", ty.name(), i.brief());
    let Some(want) = model(ty.t.g(), &i.tks) else { rec.count("skipped: ambiguous beyond the step budget"); return Ok(Out::Skip) };
    let got = ty.t.parse_str(&i.s);
    match (got, want) {
        (Ok(n), Some(v)) => {
            let d = n.dump();
            if d != v { return Err(format!("{} parsed {:?} to the wrong value:\n  got      {}\n  expected {}", ty.name(), i.s, brief(&d), brief(&v))) }
            rec.count("accepted");
            Ok(Out::Acc(n, v))
        }
        (Err(e), None) => { rec.count("rejected"); Ok(Out::Rej(err(&e))) }
        (Ok(n), None) => Err(format!("{} accepted {:?} as {} although its grammar rejects it", ty.name(), i.s, brief(&n.dump()))),
        (Err(e), Some(v)) => Err(format!("{} rejected {:?} ({}) although its grammar accepts it as {}", ty.name(), i.s, e, brief(&v))),
    }
}

pub fn brief(v: &V) -> String {
    let mut o = String::new();
    fn go(v: &V, o: &mut String) {
        use crate::model::K::*;
        if o.len() > 700 { return }
        match &v.k {
            Tok(s) => o.push_str(&format!("`{}`", s)), Word(s) => o.push_str(s), Lit(l) => o.push_str(&format!("{:?}", l)),
            Seq(_) => o.push_str("seq"), Var(i, _) => o.push_str(&format!("variant#{}", i)), List(a, b) => o.push_str(&format!("list{}/{}", a.len(), b.len())),
            Nothing => o.push_str("nothing"), Just(_) => o.push_str("just"), Left(_) => o.push_str("left"), Right(_) => o.push_str("right"), Unit => o.push_str("unit"),
            Group(d, _) => o.push_str(&format!("{:?}", d)), Bin(r, _) => o.push_str(if *r { "rbin" } else { "lbin" }), Leaf(_) => o.push_str("leaf"), Rest(s) => o.push_str(s),
        }
        let k = v.kids();
        if !k.is_empty() { o.push('('); for x in k { go(x, o); o.push(' ') } o.push(')') }
    }
    go(v, &mut o);
    o
}

/// Runs a closure on a parse stream over this text; whatever it leaves is consumed.
pub fn on_stream<T>(s: &str, f: impl FnOnce(ParseStream<'_>) -> T) -> T {
    let mut out = None;
    let _ = (|input: ParseStream<'_>| { out = Some(f(input)); let _ = input.parse::<parsel::TokenStream>(); Ok(()) }).parse_str(s);
    out.expect("harness: the text does not lex")
}

/// The tokens that are left in a stream (on a fork of it).
pub fn rest(p: ParseStream<'_>) -> String {
    let t: parsel::TokenStream = p.fork().parse().expect("harness: rest");
    show(&crate::tok::lex(t), true, false)
}

/// The differential section used by several properties: every selected type in turn.
pub fn differential(run: &crate::report::Run, name: &str, types: &[&Ty], per_type: u64, nontrivial: impl Fn(&V) -> bool + Sync) {
    if types.is_empty() { return }
    run.section(name, per_type * types.len() as u64, |r, rec, idx| -> Res {
        let ty = types[idx as usize % types.len()];
        let Some(i) = input_for(ty.t.g(), r, rec) else { return Ok(()) };
        rec.count(&format!("input: {}", i.kind));
        let nt = match diff(ty, &i, rec)? { Out::Acc(_, v) => nontrivial(&v), Out::Rej(_) => !i.tks.is_empty(), Out::Skip => return Ok(()) };
        rec.case(&format!("{} <- {}", ty.name(), show(&i.tks, true, false)), nt);
        Ok(())
    });
}

pub fn has(v: &V, f: &dyn Fn(&V) -> bool) -> bool { f(v) || v.kids().into_iter().any(|k| has(k, f)) }
