//! Sentences of a grammar, mutated sentences, hostile token soup, and layouts.
use crate::lits::{self, LV};
use crate::model::{is_rust_kw, Gr, G, K, V};
use crate::rng::Rng;
use crate::tok::D;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum GT { Op(String), Word(String), Lit(String), Group(D, Vec<GT>) }

pub const WORDS: &[&str] = &["a", "b", "c", "x", "y", "foo", "bar", "baz", "foobar", "fo", "if", "else", "fn", "let", "loop", "type", "self", "Self", "union", "r#if", "r#type", "r#foo", "r#a", "_", "true", "false", "e1", "u8", "é", "ű_1", "__", "_0", "kw", "alpha", "beta", "gamma"];

pub struct Gen<'r> { pub r: &'r mut Rng, pub budget: isize, heights: HashMap<usize, u32>, pub fancy: bool }

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, budget: isize) -> Self { Gen { r, budget, heights: HashMap::new(), fancy: true } }

    fn height(&mut self, g: Gr, stack: &mut Vec<usize>) -> u32 {
        let key = g as *const _ as usize;
        if let Some(h) = self.heights.get(&key) { return *h }
        if stack.contains(&key) { return 10_000 }
        stack.push(key);
        let mut all = |s: &mut Self, gs: &[Gr]| gs.iter().map(|x| s.height(x, stack)).max().unwrap_or(0);
        let h = 1 + match g.get() {
            G::Struct(_, f) => { let v: Vec<Gr> = f.iter().map(|x| x.1).collect(); all(self, &v) }
            G::Enum(_, vs) => vs.iter().map(|(_, f)| { let v: Vec<Gr> = f.iter().map(|x| x.1).collect(); all(self, &v) }).min().unwrap_or(10_000),
            G::Any(_) | G::Punctuated(..) | G::Maybe(..) => 0,
            G::Separated(t, _) => all(self, &[t]),
            G::Left(_, t) | G::Right(_, t) => all(self, &[t]),
            G::Either(a, b) => { let x = all(self, &[a]); x.min(all(self, &[b])) }
            G::Group(_, x) | G::Alias(x) | G::Probe(_, x) => all(self, &[x]),
            _ => 0,
        };
        stack.pop();
        if stack.is_empty() || h < 5_000 { self.heights.insert(key, h); }
        h
    }

    fn count(&mut self, lo: usize) -> usize {
        if self.budget <= 0 { return lo }
        lo + match self.r.below(10) { 0..=1 => 0, 2..=4 => 1, 5..=6 => 2, 7 => 3, 8 => self.r.range(0, 6), _ => self.r.range(0, 12) }
    }

    pub fn word(&mut self) -> String {
        if self.r.chance(1, 12) {
            let n = self.r.range(1, 9);
            let s: String = (0..n).map(|i| *self.r.pick(if i == 0 { b"abcxyzK_Q" as &[u8] } else { b"abcxyz019_Q" as &[u8] }) as char).collect();
            if s.bytes().all(|c| c == b'_') { "zz".into() } else { s }
        } else { (*self.r.pick(WORDS)).to_string() }
    }

    pub fn lv(&mut self, kind: &G) -> LV {
        let r = &mut *self.r;
        match kind {
            G::LitBool => LV::Bool(r.chance(1, 2)),
            G::LitByte => LV::Byte(r.below(256) as u8),
            G::LitInt => LV::Int(if r.chance(1, 2) { r.below(30) as i64 - 9 } else { lits::i64_any(r) }),
            G::LitUint => LV::Uint(if r.chance(1, 2) { r.below(30) as u64 } else { lits::u64_any(r) }),
            G::LitFloat => LV::Float(lits::f64_any(r).to_bits()),
            G::LitChar => LV::Char(lits::char_any(r)),
            G::LitStr => LV::Str(lits::string_any(r)),
            G::LitByteStr => LV::Bytes(lits::bytes_any(r)),
            _ => {
                let k = [G::LitBool, G::LitByte, G::LitInt, G::LitUint, G::LitFloat, G::LitChar, G::LitStr, G::LitByteStr];
                let i = r.below(8);
                match self.lv(&k[i]) { LV::Int(x) if x >= 0 => LV::Uint(x as u64), v => v }
            }
        }
    }

    pub fn v(&mut self, g: Gr, depth: usize) -> Option<V> {
        if depth > 60 { return None }
        self.budget -= 1;
        let k = match g.get() {
            G::Alias(x) | G::Probe(_, x) => return self.v(x, depth),
            G::Tok(s) | G::Kw(s) => K::Tok((*s).to_string()),
            G::Ident => loop { let w = self.word(); if !is_rust_kw(&w) { break K::Word(w) } },
            G::Word(no) => { let mut w = self.word(); for _ in 0..50 { if !no.contains(&w) { break } w = self.word() } if no.contains(&w) { return None } K::Word(w) }
            k @ (G::LitBool | G::LitByte | G::LitInt | G::LitUint | G::LitFloat | G::LitChar | G::LitStr | G::LitByteStr | G::Lit) => K::Lit(self.lv(k)),
            G::Struct(_, f) => K::Seq(self.seq(f, depth)?),
            G::Enum(_, vs) => {
                if vs.is_empty() { return None }
                let mut order: Vec<usize> = (0..vs.len()).collect();
                self.r.shuffle(&mut order);
                if self.budget < 0 || depth > 25 {
                    let hs: Vec<u32> = vs.iter().map(|(_, f)| f.iter().map(|x| self.height(x.1, &mut vec![])).max().unwrap_or(0)).collect();
                    order.sort_by_key(|i| hs[*i]);
                }
                let mut got = None;
                for i in order.into_iter().take(3) { if let Some(f) = self.seq(&vs[i].1, depth) { got = Some(K::Var(i, f)); break } }
                got?
            }
            G::Any(x) => { let n = self.count(0); K::List((0..n).map(|_| self.v(x, depth + 1)).collect::<Option<_>>()?, vec![]) }
            G::Punctuated(t, p) => {
                let n = self.count(0);
                let a = (0..n).map(|_| self.v(t, depth + 1)).collect::<Option<Vec<_>>>()?;
                let trailing = n > 0 && !matches!(p.get(), G::NotEof) && self.r.chance(1, 3);
                let b = (0..if n == 0 { 0 } else { n - 1 + usize::from(trailing) }).map(|_| self.v(p, depth + 1)).collect::<Option<_>>()?;
                K::List(a, b)
            }
            G::Separated(t, p) => {
                let n = self.count(1);
                let a = (0..n).map(|_| self.v(t, depth + 1)).collect::<Option<Vec<_>>>()?;
                let b = (1..n).map(|_| self.v(p, depth + 1)).collect::<Option<_>>()?;
                K::List(a, b)
            }
            G::Left(o, x) => {
                let n = self.count(0);
                let mut acc = V::of(K::Leaf(Box::new(self.v(x, depth + 1)?)));
                for _ in 0..n { let op = self.v(o, depth + 1)?; let rhs = self.v(x, depth + 1)?; acc = V::of(K::Bin(false, Box::new((acc, op, rhs)))) }
                return Some(acc);
            }
            G::Right(o, x) => {
                let n = self.count(0);
                let mut acc = V::of(K::Leaf(Box::new(self.v(x, depth + 1)?)));
                for _ in 0..n { let op = self.v(o, depth + 1)?; let lhs = self.v(x, depth + 1)?; acc = V::of(K::Bin(true, Box::new((lhs, op, acc)))) }
                return Some(acc);
            }
            G::Maybe(p, t) => if self.budget > 0 && self.r.chance(3, 5) { K::Just(Box::new((self.v(p, depth + 1)?, self.v(t, depth + 1)?))) } else { K::Nothing },
            G::Either(l, r) => {
                let left = if self.budget < 0 { self.height(l, &mut vec![]) <= self.height(r, &mut vec![]) } else { self.r.chance(1, 2) };
                if left { K::Left(Box::new(self.v(l, depth + 1)?)) } else { K::Right(Box::new(self.v(r, depth + 1)?)) }
            }
            G::Eof | G::NotEof | G::Empty => K::Unit,
            G::Rest => return None,
            G::Group(d, x) => K::Group(*d, Box::new(self.v(x, depth + 1)?)),
        };
        Some(V::of(k))
    }

    fn seq(&mut self, f: &crate::model::Fields, depth: usize) -> Option<Vec<V>> {
        f.iter().map(|(_, g)| self.v(g, depth + 1)).collect()
    }

    /// The tokens of a value.
    pub fn unparse(&mut self, v: &V, out: &mut Vec<GT>) {
        match &v.k {
            K::Tok(s) => out.push(if s.starts_with(|c: char| c.is_alphabetic() || c == '_') { GT::Word(s.clone()) } else { GT::Op(s.clone()) }),
            K::Word(s) => out.push(GT::Word(s.clone())),
            K::Lit(l) => self.lit(l, out),
            K::Group(d, x) => { let mut i = vec![]; self.unparse(x, &mut i); out.push(GT::Group(*d, i)) }
            _ => for k in v.kids() { self.unparse(k, out) },
        }
    }

    pub fn lit(&mut self, l: &LV, out: &mut Vec<GT>) {
        let f = self.fancy;
        let r = &mut *self.r;
        let mut num = |neg: bool, s: String| { if neg { out.push(GT::Op("-".into())) } out.push(GT::Lit(s)) };
        match l {
            LV::Bool(b) => out.push(GT::Word(b.to_string())),
            LV::Byte(b) => out.push(GT::Lit(lits::spell_byte(r, *b, f))),
            LV::Int(i) => num(*i < 0, lits::spell_int(r, i128::from(*i).unsigned_abs(), f && r.clone().chance(1, 2))),
            LV::Uint(i) => num(false, lits::spell_int(r, u128::from(*i), f && r.clone().chance(1, 2))),
            LV::Float(b) => {
                let x = f64::from_bits(*b);
                let s = match r.below(3) { 0 if f => format!("{:e}", x.abs()), 1 if f => { let s = format!("{}", x.abs()); if s.contains('.') { s } else { s + ".0" } } _ => { let s = format!("{:?}", x.abs()); s } };
                num(x.is_sign_negative(), s);
            }
            LV::Char(c) => out.push(GT::Lit(lits::spell_char(r, *c, f))),
            LV::Str(s) => out.push(GT::Lit(lits::spell_str(r, s, f))),
            LV::Bytes(s) => out.push(GT::Lit(lits::spell_bytes(r, s, f))),
        }
    }

    pub fn soup_tok(&mut self, depth: usize) -> GT {
        match self.r.below(10) {
            0..=2 => GT::Op((*self.r.pick(crate::gram::OPS.iter().copied().filter(|s| !s.starts_with(|c: char| c.is_alphabetic() || c == '_')).collect::<Vec<_>>().as_slice())).to_string()),
            3..=5 => GT::Word(self.word()),
            6..=7 => { let l = self.lv(&G::Lit); let mut o = vec![]; self.lit(&l, &mut o); o.pop().unwrap() }
            _ if depth > 0 => { let n = self.r.range(0, 4); GT::Group(*self.r.pick(&D::REAL), (0..n).map(|_| self.soup_tok(depth - 1)).collect()) }
            _ => GT::Op(",".into()),
        }
    }

    /// A near-miss of a sentence: the same tokens with a few local changes, kept balanced.
    pub fn mutate(&mut self, ts: &mut Vec<GT>, pool: &[GT]) {
        let n = self.r.range(1, 3);
        for _ in 0..n { self.mutate1(ts, pool) }
    }

    fn mutate1(&mut self, ts: &mut Vec<GT>, pool: &[GT]) {
        // descend into a random group with some probability
        let groups: Vec<usize> = ts.iter().enumerate().filter(|(_, t)| matches!(t, GT::Group(..))).map(|(i, _)| i).collect();
        if !groups.is_empty() && self.r.chance(3, 5) {
            let i = *self.r.pick(&groups);
            if self.r.chance(1, 6) {
                // change or remove the delimiters
                if let GT::Group(d, inner) = ts[i].clone() {
                    if self.r.chance(1, 3) { let _ = ts.splice(i..=i, inner).count(); } else { let e = *self.r.pick(&D::REAL); ts[i] = GT::Group(if e == d { D::Bracket } else { e }, inner) }
                }
                return;
            }
            if let GT::Group(_, inner) = &mut ts[i] { self.mutate1(inner, pool) }
            return;
        }
        let fresh = |s: &mut Self| if !pool.is_empty() && s.r.chance(3, 4) { s.r.pick(pool).clone() } else { s.soup_tok(1) };
        let n = ts.len();
        match self.r.below(9) {
            0 | 1 if n > 0 => { let i = self.r.below(n); ts.remove(i); }
            2 => { let i = self.r.below(n + 1); let t = fresh(self); ts.insert(i, t) }
            3 if n > 0 => { let i = self.r.below(n); ts[i] = fresh(self) }
            4 if n > 1 => { let i = self.r.below(n - 1); ts.swap(i, i + 1) }
            5 if n > 0 => { let i = self.r.below(n); let t = ts[i].clone(); ts.insert(i, t) }
            6 if n > 0 => { let i = self.r.below(n); ts.truncate(i) }
            7 if n > 0 => { let i = self.r.below(n); let j = self.r.range(i, n - 1); let d = *self.r.pick(&D::REAL); let inner: Vec<GT> = ts.splice(i..=j, []).collect(); ts.insert(i, GT::Group(d, inner)) }
            8 if n > 1 => { let i = self.r.below(n); let t = ts.remove(i); let j = self.r.below(n); ts.insert(j, t) }
            _ => { let t = fresh(self); ts.push(t) }
        }
    }
}

pub fn flatten_pool(ts: &[GT], out: &mut Vec<GT>) {
    for t in ts {
        if let GT::Group(_, i) = t { flatten_pool(i, out); if i.len() <= 4 { out.push(t.clone()) } } else { out.push(t.clone()) }
    }
}

// ------------------------------------------------------------------ layout

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Layout { Spaced, Tight, Wild, Lines }

pub struct Text { pub s: String, /// byte range of every atomic token (each punctuation character, each delimiter)
    pub pieces: Vec<(usize, usize)> }

#[derive(Clone, Copy, PartialEq)]
enum Prev { Start, Open, Close, Word, Lit, Op(char) }

pub fn render(ts: &[GT], l: Layout, r: &mut Rng) -> Text {
    let mut t = Text { s: String::new(), pieces: vec![] };
    let mut prev = Prev::Start;
    if l == Layout::Wild { gap(&mut t.s, r, false) }
    go(ts, l, r, &mut t, &mut prev);
    if l == Layout::Wild { gap(&mut t.s, r, matches!(prev, Prev::Op(_))) }
    t
}

const COMMENTS: &[&str] = &["/* c */", "/**/", "/* a /* nested */ b */", "// line\n", "// ű ünï\r\n", "//\n", "/* multi\n line */", "/* \u{1f600} */", "/* \" */", "// ' \" {[(\n", "/* // */", "//// four\n", "/*** three */"];

fn gap(s: &mut String, r: &mut Rng, must: bool) {
    if !must && r.chance(1, 4) { return }
    let n = r.range(1, 3);
    s.push_str(*r.pick(&[" ", "\n", "\t", "\r\n", "  "]));
    for _ in 1..n {
        match r.below(6) {
            0 | 1 => { s.push_str(*r.pick(COMMENTS)); s.push_str(*r.pick(&[" ", "\n"])) }
            2 => s.push_str(*r.pick(&["\u{a0}", "\u{2003}", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{200e}", "\u{3000}"])),
            _ => s.push_str(*r.pick(&[" ", "\n", "\t", "\r\n", "     ", "\n\n", "\n\t\t"])),
        }
    }
}

fn go(ts: &[GT], l: Layout, r: &mut Rng, t: &mut Text, prev: &mut Prev) {
    for x in ts {
        let needs = match (*prev, x) {
            (Prev::Start | Prev::Open, _) => false,
            (Prev::Close, _) => false,
            (_, GT::Group(..)) => false,
            (Prev::Word | Prev::Lit, GT::Word(_) | GT::Lit(_)) => true,
            // `1.` and `1..` would lex differently; `a'`, `r#` and `b"` as well
            (Prev::Lit, GT::Op(o)) => o.starts_with('.') || o.starts_with('_'),
            (Prev::Word, GT::Op(o)) => o.starts_with('#') || o.starts_with('\'') || o.starts_with('_'),
            (Prev::Op('_'), _) => true,
            (Prev::Op('\''), _) => false,
            (Prev::Op(_), GT::Op(_)) => true,
            (Prev::Op('.'), GT::Lit(_)) => true,
            (Prev::Op('#'), _) => true,
            (Prev::Op(_), _) => false,
        };
        let op_first = matches!(x, GT::Op(_));
        let prev_op = matches!(*prev, Prev::Op(_));
        match (*prev, l) {
            (Prev::Start, _) => {}
            (Prev::Op('\''), _) => {}
            (Prev::Open, Layout::Spaced) | (Prev::Open, Layout::Tight) => {}
            (_, Layout::Spaced) => t.s.push(' '),
            (_, Layout::Tight) => if needs { t.s.push(' ') },
            (_, Layout::Lines) => t.s.push_str(if r.chance(1, 3) { "\n" } else { " " }),
            (_, Layout::Wild) => gap(&mut t.s, r, needs || (op_first && prev_op)),
        }
        match x {
            GT::Word(w) | GT::Lit(w) => {
                let a = t.s.len();
                t.s.push_str(w);
                t.pieces.push((a, t.s.len()));
                *prev = if matches!(x, GT::Word(_)) { Prev::Word } else { Prev::Lit };
            }
            GT::Op(o) => {
                for c in o.chars() { let a = t.s.len(); t.s.push(c); t.pieces.push((a, t.s.len())) }
                *prev = Prev::Op(o.chars().last().unwrap());
            }
            GT::Group(d, inner) => {
                let a = t.s.len();
                t.s.push_str(d.open());
                t.pieces.push((a, t.s.len()));
                *prev = Prev::Open;
                go(inner, l, r, t, prev);
                match l { Layout::Wild => gap(&mut t.s, r, false), Layout::Lines => if r.chance(1, 3) { t.s.push('\n') }, _ => {} }
                let a = t.s.len();
                t.s.push_str(d.close());
                t.pieces.push((a, t.s.len()));
                *prev = Prev::Close;
            }
        }
    }
}
