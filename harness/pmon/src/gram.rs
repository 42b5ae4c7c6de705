//! `Gram`: what a node type means (its grammar), what a value of it holds (its dump), and how to
//! construct a value through the public constructors, without parsing.
use crate::lits::LV;
use crate::model::{GNode, Gr, G, K, V};
use crate::tok::D;
use parsel::ast::*;
use parsel::proc_macro2::Span;
use parsel::syn::parse::ParseStream;
use parsel::util::SpannedExt;
use parsel::{NotNan, Parse, ToTokens};
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

/// Where a node says it is in the source.
#[derive(Clone, Debug)]
pub struct SpanObs { pub byte: (usize, usize), pub chars: (usize, usize), pub sub: String, pub disp: String }

/// Context of a dump: with a source, the location of every non-empty node is recorded as well.
#[derive(Default)]
pub struct Cx<'a> { pub source: Option<&'a str>, pub obs: Vec<Option<SpanObs>> }

pub type StepFn = fn(ParseStream<'_>) -> parsel::Result<V>;
pub type StepFields = Vec<(&'static str, StepFn)>;

pub enum Steps {
    Struct(&'static str, StepFields),
    Enum(&'static str, Vec<(&'static str, StepFields)>),
}

pub trait Gram: Parse + ToTokens + Sized + 'static {
    fn def() -> G;
    fn steps() -> Option<Steps> { None }
    fn dump_kind(&self, cx: &mut Cx<'_>) -> K;
    fn dump(&self, cx: &mut Cx<'_>) -> V {
        if let Some(src) = cx.source {
            let empty = self.to_token_stream().is_empty();
            cx.obs.push(if empty { None } else { Some(observe(self, src)) });
        }
        V::of(self.dump_kind(cx))
    }
    fn build(v: &V) -> Self;
}

pub fn observe<T: ToTokens + ?Sized>(x: &T, src: &str) -> SpanObs {
    let b = SpannedExt::byte_range(x, src);
    let c = SpannedExt::char_range(x, src);
    SpanObs { byte: (b.start, b.end), chars: (c.start, c.end), sub: SpannedExt::source_substring(x, src).to_string(), disp: SpannedExt::format_span(x).to_string() }
}

pub fn step<T: Gram>(input: ParseStream<'_>) -> parsel::Result<V> {
    input.parse::<T>().map(|x| x.dump(&mut Cx::default()))
}

pub fn g<T: Gram>() -> Gr {
    static MAP: OnceLock<Mutex<HashMap<&'static str, Gr>>> = OnceLock::new();
    let name = std::any::type_name::<T>();
    let mut m = MAP.get_or_init(Default::default).lock().unwrap();
    *m.entry(name).or_insert_with(|| Box::leak(Box::new(GNode { name: name.to_string(), cell: OnceLock::new(), def: T::def })))
}

fn d<T: Gram>(x: &T, cx: &mut Cx<'_>) -> V { x.dump(cx) }
fn bad<T>(v: &V) -> T { panic!("harness: cannot build from {:?}", v) }

// ------------------------------------------------------------------ leaves

macro_rules! toks { ($($ty:ty, $s:expr;)*) => {
    $(impl Gram for $ty {
        fn def() -> G { G::Tok($s) }
        fn dump_kind(&self, _: &mut Cx<'_>) -> K { K::Tok($s.into()) }
        fn build(_: &V) -> Self { Default::default() }
    })*
    pub const OPS: &[&str] = &[$($s),*];
    pub const TOKENS: &[(&str, crate::probe::Reader)] = &[$(($s, crate::probe::read::<$ty>)),*];
} }

toks! {
    Token![&], "&"; Token![&&], "&&"; Token![&=], "&="; Token![@], "@"; Token![^], "^"; Token![^=], "^=";
    Token![:], ":"; Token![,], ","; Token![$], "$"; Token![.], "."; Token![..], ".."; Token![...], "..."; Token![..=], "..=";
    Token![=], "="; Token![==], "=="; Token![=>], "=>"; Token![>=], ">="; Token![>], ">"; Token![<-], "<-"; Token![<=], "<="; Token![<], "<";
    Token![-], "-"; Token![-=], "-="; Token![!=], "!="; Token![!], "!"; Token![|], "|"; Token![|=], "|="; Token![||], "||";
    Token![::], "::"; Token![%], "%"; Token![%=], "%="; Token![+], "+"; Token![+=], "+="; Token![#], "#"; Token![?], "?";
    Token![->], "->"; Token![;], ";"; Token![<<], "<<"; Token![<<=], "<<="; Token![>>], ">>"; Token![>>=], ">>=";
    Token![/], "/"; Token![/=], "/="; Token![*], "*"; Token![*=], "*="; Token![~], "~"; Token![_], "_";
    Token![as], "as"; Token![async], "async"; Token![const], "const"; Token![else], "else"; Token![enum], "enum"; Token![fn], "fn";
    Token![for], "for"; Token![if], "if"; Token![in], "in"; Token![let], "let"; Token![match], "match"; Token![mod], "mod"; Token![mut], "mut";
    Token![return], "return"; Token![self], "self"; Token![Self], "Self"; Token![struct], "struct"; Token![type], "type"; Token![while], "while"; Token![union], "union";
}

impl Gram for Ident {
    fn def() -> G { G::Ident }
    fn dump_kind(&self, _: &mut Cx<'_>) -> K { K::Word(self.to_string()) }
    fn build(v: &V) -> Self { mk_ident(v) }
}

fn mk_ident(v: &V) -> Ident {
    match &v.k {
        K::Word(s) => match s.strip_prefix("r#") { Some(r) => Ident::new_raw(r, Span::call_site()), None => Ident::new(s, Span::call_site()) },
        _ => bad(v),
    }
}

/// The words a keyword list was *declared* with.
pub trait KwList: KeywordList + Default + 'static { fn declared() -> Vec<String>; }
impl KwList for AllowAll { fn declared() -> Vec<String> { vec![] } }

impl<K2: KwList> Gram for CustomIdent<K2> {
    fn def() -> G { G::Word(K2::declared()) }
    fn dump_kind(&self, _: &mut Cx<'_>) -> K { K::Word(self.to_string()) }
    fn build(v: &V) -> Self { CustomIdent::try_from(mk_ident(v)).unwrap_or_else(|_| bad(v)) }
}

/// Implements `Gram` for the types of a keyword module.
#[macro_export]
macro_rules! gram_keywords {
    ($m:ident: $($w:expr => $n:ident),* $(,)?) => {
        $(impl $crate::gram::Gram for $m::$n {
            fn def() -> $crate::model::G { $crate::model::G::Kw($w) }
            fn dump_kind(&self, _: &mut $crate::gram::Cx<'_>) -> $crate::model::K { $crate::model::K::Tok(self.to_string()) }
            fn build(_: &$crate::model::V) -> Self { Default::default() }
        })*
        impl $crate::gram::KwList for $m::Keywords { fn declared() -> Vec<String> { vec![$($w.to_string()),*] } }
    };
}

macro_rules! lit { ($($ty:ident, $k:ident, $x:ident => $get:expr, $put:expr;)*) => { $(
    impl Gram for $ty {
        fn def() -> G { G::$ty }
        fn dump_kind(&self, _: &mut Cx<'_>) -> K { let $x = self.value(); K::Lit(LV::$k($get)) }
        fn build(v: &V) -> Self { match &v.k { K::Lit(LV::$k($x)) => <$ty>::new($put, Span::call_site()), _ => bad(v) } }
    }
)* } }

lit! {
    LitBool, Bool, x => x, *x;
    LitByte, Byte, x => x, *x;
    LitInt, Int, x => x, *x;
    LitUint, Uint, x => x, *x;
    LitFloat, Float, x => x.into_inner().to_bits(), NotNan::new(f64::from_bits(*x)).unwrap();
    LitChar, Char, x => x, *x;
    LitStr, Str, x => x, x.clone();
    LitByteStr, Bytes, x => x, x.clone();
}

impl Gram for Lit {
    fn def() -> G { G::Lit }
    fn dump_kind(&self, _: &mut Cx<'_>) -> K { K::Lit(lv(self)) }
    fn build(v: &V) -> Self { match &v.k { K::Lit(l) => mk_lit(l), _ => bad(v) } }
}

pub fn lv(l: &Lit) -> LV {
    match l {
        Lit::Bool(x) => LV::Bool(x.value()),
        Lit::Byte(x) => LV::Byte(x.value()),
        Lit::Int(x) => LV::Int(x.value()),
        Lit::Uint(x) => LV::Uint(x.value()),
        Lit::Float(x) => LV::Float(x.value().into_inner().to_bits()),
        Lit::Char(x) => LV::Char(x.value()),
        Lit::Str(x) => LV::Str(x.value()),
        Lit::ByteStr(x) => LV::Bytes(x.value()),
    }
}

pub fn mk_lit(l: &LV) -> Lit {
    match l {
        LV::Bool(x) => Lit::from(*x),
        LV::Byte(x) => Lit::from(*x),
        LV::Int(x) => Lit::from(*x),
        LV::Uint(x) => Lit::from(*x),
        LV::Float(x) => Lit::from(NotNan::new(f64::from_bits(*x)).unwrap()),
        LV::Char(x) => Lit::from(*x),
        LV::Str(x) => Lit::from(x.as_str()),
        LV::Bytes(x) => Lit::from(x.as_slice()),
    }
}

// ------------------------------------------------------------------ combinators

macro_rules! unit { ($($t:ident),*) => { $(
    impl Gram for $t {
        fn def() -> G { G::$t }
        fn dump_kind(&self, _: &mut Cx<'_>) -> K { K::Unit }
        fn build(_: &V) -> Self { <$t>::new() }
    }
)* } }
unit!(Empty, Eof, NotEof);

impl Gram for parsel::TokenStream {
    fn def() -> G { G::Rest }
    fn dump_kind(&self, _: &mut Cx<'_>) -> K { K::Rest(crate::tok::show(&crate::tok::lex(self.clone()), true, false)) }
    fn build(v: &V) -> Self { bad(v) }
}

impl<T: Gram> Gram for Box<T> {
    fn def() -> G { G::Alias(g::<T>()) }
    fn dump_kind(&self, _: &mut Cx<'_>) -> K { unreachable!() }
    fn dump(&self, cx: &mut Cx<'_>) -> V { (**self).dump(cx) }
    fn build(v: &V) -> Self { Box::new(T::build(v)) }
}

macro_rules! groups { ($($t:ident),*) => { $(
    impl<T: Gram> Gram for $t<T> {
        fn def() -> G { G::Group(D::$t, g::<T>()) }
        fn dump_kind(&self, cx: &mut Cx<'_>) -> K { K::Group(D::$t, Box::new(d(&**self, cx))) }
        fn build(v: &V) -> Self { match &v.k { K::Group(D::$t, b) => $t::new(T::build(b), Span::call_site()), _ => bad(v) } }
    }
)* } }
groups!(Paren, Bracket, Brace);

impl<T: Gram> Gram for Any<T> {
    fn def() -> G { G::Any(g::<T>()) }
    fn dump_kind(&self, cx: &mut Cx<'_>) -> K { K::List(self.iter().map(|x| d(x, cx)).collect(), vec![]) }
    fn build(v: &V) -> Self { match &v.k { K::List(a, _) => a.iter().map(T::build).collect(), _ => bad(v) } }
}

fn dump_pairs<'a, T: Gram, P: Gram>(it: impl Iterator<Item = parsel::syn::punctuated::Pair<&'a T, &'a P>>, cx: &mut Cx<'_>) -> K {
    let (mut a, mut b) = (vec![], vec![]);
    for p in it {
        let (x, y) = p.into_tuple();
        a.push(d(x, cx));
        if let Some(y) = y { b.push(d(y, cx)) }
    }
    K::List(a, b)
}

fn raw_list<T: Gram, P: Gram>(v: &V) -> parsel::syn::punctuated::Punctuated<T, P> {
    let mut o = parsel::syn::punctuated::Punctuated::new();
    match &v.k {
        K::List(a, b) => for (i, x) in a.iter().enumerate() {
            o.push_value(T::build(x));
            if let Some(p) = b.get(i) { o.push_punct(P::build(p)) }
        },
        _ => bad(v),
    }
    o
}

impl<T: Gram, P: Gram> Gram for Punctuated<T, P> {
    fn def() -> G { G::Punctuated(g::<T>(), g::<P>()) }
    fn dump_kind(&self, cx: &mut Cx<'_>) -> K { dump_pairs(self.pairs(), cx) }
    fn build(v: &V) -> Self { Punctuated::from(raw_list(v)) }
}

impl<T: Gram, P: Gram> Gram for Separated<T, P> {
    fn def() -> G { G::Separated(g::<T>(), g::<P>()) }
    fn dump_kind(&self, cx: &mut Cx<'_>) -> K { dump_pairs(self.pairs(), cx) }
    fn build(v: &V) -> Self { Separated::try_from(raw_list(v)).unwrap_or_else(|_| bad(v)) }
}

impl<O: Gram, T: Gram> Gram for LeftAssoc<O, T> {
    fn def() -> G { G::Left(g::<O>(), g::<T>()) }
    fn dump_kind(&self, cx: &mut Cx<'_>) -> K {
        match self {
            LeftAssoc::Binary { lhs, op, rhs } => { let a = d(&**lhs, cx); let b = d(op, cx); let c = d(rhs, cx); K::Bin(false, Box::new((a, b, c))) }
            LeftAssoc::Rhs(x) => K::Leaf(Box::new(d(x, cx))),
        }
    }
    fn build(v: &V) -> Self {
        match &v.k {
            K::Bin(false, b) => LeftAssoc::Binary { lhs: Box::new(Self::build(&b.0)), op: O::build(&b.1), rhs: T::build(&b.2) },
            K::Leaf(b) => LeftAssoc::from(T::build(b)),
            _ => bad(v),
        }
    }
}

impl<O: Gram, T: Gram> Gram for RightAssoc<O, T> {
    fn def() -> G { G::Right(g::<O>(), g::<T>()) }
    fn dump_kind(&self, cx: &mut Cx<'_>) -> K {
        match self {
            RightAssoc::Binary { lhs, op, rhs } => { let a = d(lhs, cx); let b = d(op, cx); let c = d(&**rhs, cx); K::Bin(true, Box::new((a, b, c))) }
            RightAssoc::Lhs(x) => K::Leaf(Box::new(d(x, cx))),
        }
    }
    fn build(v: &V) -> Self {
        match &v.k {
            K::Bin(true, b) => RightAssoc::Binary { lhs: T::build(&b.0), op: O::build(&b.1), rhs: Box::new(Self::build(&b.2)) },
            K::Leaf(b) => RightAssoc::from(T::build(b)),
            _ => bad(v),
        }
    }
}

impl<P: Gram, T: Gram> Gram for Maybe<P, T> {
    fn def() -> G { G::Maybe(g::<P>(), g::<T>()) }
    fn dump_kind(&self, cx: &mut Cx<'_>) -> K {
        match self.as_parts() { Some((p, t)) => { let a = d(p, cx); let b = d(t, cx); K::Just(Box::new((a, b))) } None => K::Nothing }
    }
    fn build(v: &V) -> Self { match &v.k { K::Just(b) => Maybe::from((P::build(&b.0), T::build(&b.1))), K::Nothing => Maybe::new(), _ => bad(v) } }
}

impl<L: Gram, R: Gram> Gram for Either<L, R> {
    fn def() -> G { G::Either(g::<L>(), g::<R>()) }
    fn steps() -> Option<Steps> {
        Some(Steps::Enum("", vec![("L", vec![("0", step::<L> as StepFn)]), ("R", vec![("0", step::<R> as StepFn)])]))
    }
    fn dump_kind(&self, cx: &mut Cx<'_>) -> K { match self { Either::Left(x) => K::Left(Box::new(d(x, cx))), Either::Right(x) => K::Right(Box::new(d(x, cx))) } }
    fn build(v: &V) -> Self { match &v.k { K::Left(b) => Either::Left(L::build(b)), K::Right(b) => Either::Right(R::build(b)), _ => bad(v) } }
}
