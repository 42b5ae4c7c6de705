//! Reference model: the grammar a type denotes, and a direct interpreter of it (ordered choice,
//! sequences, greedy repetition, delimiters) over plain token trees.
use crate::lits::{denote, Den, LV};
use crate::tok::{Tk, D, T};
use std::collections::HashMap;
use std::sync::OnceLock;

/// A lazily resolved, shared grammar node (recursive types refer back to themselves).
pub struct GNode { pub name: String, pub cell: OnceLock<G>, pub def: fn() -> G }
pub type Gr = &'static GNode;

impl GNode {
    pub fn get(&self) -> &G { self.cell.get_or_init(self.def) }
}

pub type Fields = Vec<(&'static str, Gr)>;

pub enum G {
    Tok(&'static str),
    /// a declared keyword: exactly this word
    Kw(&'static str),
    Ident,
    /// any word except these
    Word(Vec<String>),
    LitBool, LitByte, LitInt, LitUint, LitFloat, LitChar, LitStr, LitByteStr, Lit,
    Struct(&'static str, Fields),
    Enum(&'static str, Vec<(&'static str, Fields)>),
    Any(Gr),
    Punctuated(Gr, Gr),
    Separated(Gr, Gr),
    Left(Gr, Gr),
    Right(Gr, Gr),
    Maybe(Gr, Gr),
    Either(Gr, Gr),
    Eof, NotEof, Empty,
    /// all the tokens that are left, as they are
    Rest,
    Group(D, Gr),
    Alias(Gr),
    /// transparent, counts attempts
    Probe(&'static str, Gr),
}

#[derive(Clone, Debug)]
pub struct V { pub k: K, pub src: Option<(usize, usize)> }

impl PartialEq for V { fn eq(&self, o: &V) -> bool { self.k == o.k } }

#[derive(Clone, PartialEq, Debug)]
pub enum K {
    Tok(String),
    Word(String),
    Lit(LV),
    Seq(Vec<V>),
    Var(usize, Vec<V>),
    List(Vec<V>, Vec<V>),
    Nothing,
    Just(Box<(V, V)>),
    Left(Box<V>),
    Right(Box<V>),
    Unit,
    Rest(String),
    Group(D, Box<V>),
    /// left-assoc (false) or right-assoc (true) node: lhs op rhs
    Bin(bool, Box<(V, V, V)>),
    Leaf(Box<V>),
}

impl V {
    pub fn of(k: K) -> V { V { k, src: None } }
    pub fn fields(&self) -> &[V] { match &self.k { K::Seq(v) => v, k => panic!("harness: not a Seq: {:?}", k) } }
    pub fn variant(&self) -> (usize, &[V]) { match &self.k { K::Var(i, v) => (*i, v), k => panic!("harness: not a Var: {:?}", k) } }
    /// children in the order in which they appear in the source
    pub fn kids(&self) -> Vec<&V> {
        match &self.k {
            K::Seq(v) | K::Var(_, v) => v.iter().collect(),
            K::List(a, b) => { let mut o = vec![]; for i in 0..a.len().max(b.len()) { o.extend(a.get(i)); o.extend(b.get(i)) } o }
            K::Just(b) => vec![&b.0, &b.1],
            K::Left(b) | K::Right(b) | K::Group(_, b) | K::Leaf(b) => vec![b],
            K::Bin(_, b) => vec![&b.0, &b.1, &b.2],
            _ => vec![],
        }
    }
    pub fn size(&self) -> usize { 1 + self.kids().iter().map(|v| v.size()).sum::<usize>() }
    pub fn preorder<'a>(&'a self, out: &mut Vec<&'a V>) { out.push(self); for k in self.kids() { k.preorder(out) } }
}

const RUST_KW: &[&str] = &["_", "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "Self", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield"];

pub fn is_rust_kw(s: &str) -> bool { RUST_KW.contains(&s) }

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fail { No, Budget }

pub struct Model { pub steps: usize, pub limit: usize, pub probes: HashMap<&'static str, u64>, depth: usize }

/// value, position after it, whether a delimited group on the way had tokens left over
pub type R = Result<(V, usize, bool), Fail>;

impl Model {
    pub fn new(limit: usize) -> Self { Model { steps: 0, limit, probes: HashMap::new(), depth: 0 } }

    /// The outcome of parsing the whole input: accepted (with value) or rejected.
    pub fn full(&mut self, g: Gr, s: &[Tk]) -> Result<V, Fail> {
        match self.p(g, s, 0) {
            Ok((v, n, false)) if n == s.len() => Ok(v),
            Ok(_) => Err(Fail::No),
            Err(f) => Err(f),
        }
    }

    pub fn p(&mut self, g: Gr, s: &[Tk], at: usize) -> R {
        self.steps += 1;
        if self.steps > self.limit || self.depth > 300 { return Err(Fail::Budget) }
        self.depth += 1;
        let r = self.q(g, s, at);
        self.depth -= 1;
        r.map(|(k, n, u)| {
            let src = if n > at { Some((s[at].src.0, s[n - 1].src.1)) } else { None };
            match k { Ok(k) => (V { k, src }, n, u), Err(v) => (v, n, u) }
        })
    }

    // K for an own node, Err(V) for a transparent one
    #[allow(clippy::type_complexity)]
    fn q(&mut self, g: Gr, s: &[Tk], at: usize) -> Result<(Result<K, V>, usize, bool), Fail> {
        let head = s.get(at).map(|t| &t.t);
        macro_rules! leaf { ($c:expr, $k:expr) => { if $c { Ok((Ok($k), at + 1, false)) } else { Err(Fail::No) } } }
        match g.get() {
            G::Alias(x) => self.p(x, s, at).map(|(v, n, u)| (Err(v), n, u)),
            G::Probe(name, x) => {
                *self.probes.entry(name).or_insert(0) += 1;
                self.p(x, s, at).map(|(v, n, u)| (Err(v), n, u))
            }
            G::Tok(text) => self.tok(text, s, at).map(|n| (Ok(K::Tok((*text).into())), n, false)),
            G::Kw(w) => match head { Some(T::Ident(i)) => leaf!(i == w, K::Tok(i.clone())), _ => Err(Fail::No) },
            G::Ident => match head { Some(T::Ident(i)) => leaf!(!is_rust_kw(i), K::Word(i.clone())), _ => Err(Fail::No) },
            G::Word(no) => match head { Some(T::Ident(i)) => leaf!(!no.contains(i), K::Word(i.clone())), _ => Err(Fail::No) },
            G::Lit | G::LitBool | G::LitByte | G::LitInt | G::LitUint | G::LitFloat | G::LitChar | G::LitStr | G::LitByteStr => {
                let (v, n) = lit_model(g.get(), s, at).ok_or(Fail::No)?;
                Ok((Ok(K::Lit(v)), n, false))
            }
            G::Struct(_, f) => { let (v, n, u) = self.seq(f, s, at)?; Ok((Ok(K::Seq(v)), n, u)) }
            G::Enum(_, vs) => {
                for (i, (_, f)) in vs.iter().enumerate() {
                    match self.seq(f, s, at) { Ok((v, n, u)) => return Ok((Ok(K::Var(i, v)), n, u)), Err(Fail::No) => {}, Err(e) => return Err(e) }
                }
                Err(Fail::No)
            }
            G::Any(x) => {
                let (mut items, mut n, mut u) = (vec![], at, false);
                loop {
                    match self.p(x, s, n) { Ok((v, m, w)) => { items.push(v); u |= w; if m == n { return Err(Fail::Budget) } n = m }, Err(Fail::No) => break, Err(e) => return Err(e) }
                }
                Ok((Ok(K::List(items, vec![])), n, u))
            }
            G::Punctuated(t, p) => {
                let (mut items, mut seps, mut n, mut u) = (vec![], vec![], at, false);
                while n < s.len() {
                    let (v, m, w) = self.p(t, s, n)?;
                    items.push(v); u |= w; n = m;
                    if n == s.len() { break }
                    let (v, m, w) = self.p(p, s, n)?;
                    seps.push(v); u |= w; n = m;
                }
                Ok((Ok(K::List(items, seps)), n, u))
            }
            G::Separated(t, p) => { let (a, b, n, u) = self.separated(t, p, s, at)?; Ok((Ok(K::List(a, b)), n, u)) }
            G::Left(o, x) => {
                let (items, ops, n, u) = self.separated(x, o, s, at)?;
                let mut it = items.into_iter();
                let first = it.next().unwrap();
                let mut acc = V { src: first.src, k: K::Leaf(Box::new(first)) };
                for (op, rhs) in ops.into_iter().zip(it) {
                    let src = join(join(acc.src, op.src), rhs.src);
                    acc = V { src, k: K::Bin(false, Box::new((acc, op, rhs))) };
                }
                Ok((Err(acc), n, u))
            }
            G::Right(o, x) => {
                let (mut items, ops, n, u) = self.separated(x, o, s, at)?;
                let last = items.pop().unwrap();
                let mut acc = V { src: last.src, k: K::Leaf(Box::new(last)) };
                for (op, lhs) in ops.into_iter().zip(items).rev() {
                    let src = join(join(lhs.src, op.src), acc.src);
                    acc = V { src, k: K::Bin(true, Box::new((lhs, op, acc))) };
                }
                Ok((Err(acc), n, u))
            }
            G::Maybe(p, t) => match self.p(p, s, at) {
                Ok((a, n, u)) => { let (b, m, w) = self.p(t, s, n)?; Ok((Ok(K::Just(Box::new((a, b)))), m, u | w)) }
                Err(Fail::No) => Ok((Ok(K::Nothing), at, false)),
                Err(e) => Err(e),
            },
            G::Either(l, r) => match self.p(l, s, at) {
                Ok((v, n, u)) => Ok((Ok(K::Left(Box::new(v))), n, u)),
                Err(Fail::No) => { let (v, n, u) = self.p(r, s, at)?; Ok((Ok(K::Right(Box::new(v))), n, u)) }
                Err(e) => Err(e),
            },
            G::Eof => if at == s.len() { Ok((Ok(K::Unit), at, false)) } else { Err(Fail::No) },
            G::NotEof => if at < s.len() { Ok((Ok(K::Unit), at, false)) } else { Err(Fail::No) },
            G::Empty => Ok((Ok(K::Unit), at, false)),
            G::Rest => Ok((Ok(K::Rest(crate::tok::show(&s[at..], true, false))), s.len(), false)),
            G::Group(d, x) => match head {
                Some(T::Group(e, inner)) if e == d => {
                    let (v, n, u) = self.p(x, inner, 0)?;
                    Ok((Ok(K::Group(*d, Box::new(v))), at + 1, u || n < inner.len()))
                }
                _ => Err(Fail::No),
            },
        }
    }

    fn seq(&mut self, f: &Fields, s: &[Tk], at: usize) -> Result<(Vec<V>, usize, bool), Fail> {
        let (mut o, mut n, mut u) = (vec![], at, false);
        for (_, g) in f { let (v, m, w) = self.p(g, s, n)?; o.push(v); n = m; u |= w }
        Ok((o, n, u))
    }

    #[allow(clippy::type_complexity)]
    fn separated(&mut self, t: Gr, p: Gr, s: &[Tk], at: usize) -> Result<(Vec<V>, Vec<V>, usize, bool), Fail> {
        let (v, mut n, mut u) = self.p(t, s, at)?;
        let (mut items, mut seps) = (vec![v], vec![]);
        loop {
            match self.p(p, s, n) {
                Ok((v, m, w)) => { seps.push(v); u |= w; let (v, m, w) = self.p(t, s, m)?; items.push(v); u |= w; if m == n { return Err(Fail::Budget) } n = m }
                Err(Fail::No) => break,
                Err(e) => return Err(e),
            }
        }
        Ok((items, seps, n, u))
    }

    fn tok(&mut self, text: &str, s: &[Tk], at: usize) -> Result<usize, Fail> {
        if text == "_" {
            return match s.get(at).map(|t| &t.t) { Some(T::Ident(i)) if i == "_" => Ok(at + 1), Some(T::Punct('_', _)) => Ok(at + 1), _ => Err(Fail::No) };
        }
        if text.starts_with(|c: char| c.is_alphabetic()) {
            return match s.get(at).map(|t| &t.t) { Some(T::Ident(i)) if i == text => Ok(at + 1), _ => Err(Fail::No) };
        }
        let cs: Vec<char> = text.chars().collect();
        for (i, c) in cs.iter().enumerate() {
            match s.get(at + i).map(|t| &t.t) {
                Some(T::Punct(d, j)) if d == c && (i + 1 == cs.len() || *j) => {}
                _ => return Err(Fail::No),
            }
        }
        Ok(at + cs.len())
    }
}

fn join(a: Option<(usize, usize)>, b: Option<(usize, usize)>) -> Option<(usize, usize)> {
    match (a, b) { (Some(a), Some(b)) => Some((a.0, b.1)), (a, b) => a.or(b) }
}

pub fn lit_model(g: &G, s: &[Tk], at: usize) -> Option<(LV, usize)> {
    let (neg, n) = match &s.get(at)?.t { T::Punct('-', _) => (true, at + 1), _ => (false, at) };
    let den = match &s.get(n)?.t {
        T::Lit(t) => denote(t),
        T::Ident(i) if !neg && (i == "true" || i == "false") => return match g { G::Lit | G::LitBool => Some((LV::Bool(i == "true"), n + 1)), _ => None },
        _ => return None,
    };
    if neg && !matches!(den, Den::Int(_) | Den::Float(_)) { return None }
    let v = match (g, den) {
        (G::LitInt, Den::Int(m)) => LV::Int(signed(neg, m?)?),
        (G::LitUint, Den::Int(m)) if !neg => LV::Uint(u64::try_from(m?).ok()?),
        (G::Lit, Den::Int(m)) => if neg && m? != 0 { LV::Int(signed(neg, m?)?) } else { LV::Uint(u64::try_from(m?).ok()?) },
        (G::LitFloat | G::Lit, Den::Float(f)) => if f.is_finite() { LV::Float(if neg { -f } else { f }.to_bits()) } else { return None },
        (G::LitByte | G::Lit, Den::Byte(b)) => LV::Byte(b),
        (G::LitChar | G::Lit, Den::Char(c)) => LV::Char(c),
        (G::LitStr | G::Lit, Den::Str(s)) => LV::Str(s),
        (G::LitByteStr | G::Lit, Den::Bytes(b)) => LV::Bytes(b),
        _ => return None,
    };
    Some((v, n + 1))
}

fn signed(neg: bool, m: u128) -> Option<i64> {
    let m = i128::try_from(m).ok()?;
    i64::try_from(if neg { -m } else { m }).ok()
}
