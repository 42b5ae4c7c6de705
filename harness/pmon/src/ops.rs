//! Type-erased operations on node types, so that every check can run over every type.
use crate::gram::{g, Cx, Gram, Steps};
use crate::model::{Gr, V};
use parsel::syn::parse::ParseStream;
use parsel::{Error, FromStr, Result, TokenStream};
use std::any::Any as StdAny;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::hash::Hasher;

pub trait Node {
    fn dump(&self) -> V;
    fn dump_at(&self, cx: &mut Cx<'_>) -> V;
    fn tokens(&self) -> TokenStream;
    fn display(&self, alternate: bool) -> String;
    fn write(&self, pretty: bool, w: &mut dyn std::fmt::Write) -> std::fmt::Result;
    /// through `Display`, where there is one
    fn display_into(&self, alternate: bool, w: &mut dyn std::fmt::Write) -> std::fmt::Result;
    fn format_with(&self, indent: Option<&str>) -> Result<String>;
    /// through `Display` with other flags: flags, alternate, text
    fn flagged(&self, k: usize) -> Option<(&'static str, bool, String)>;
    fn debug(&self) -> String;
    fn same(&self, o: &dyn Node) -> bool;
    fn hash(&self) -> u64;
    fn dup(&self) -> Box<dyn Node>;
    fn span(&self) -> parsel::Span;
    fn any(&self) -> &dyn StdAny;
}

pub trait TypeOps: Send + Sync {
    fn name(&self) -> &str;
    fn g(&self) -> Gr;
    fn parse_str(&self, s: &str) -> Result<Box<dyn Node>>;
    /// None if the type is not `FromStr`
    fn from_str(&self, s: &str) -> Option<Result<Box<dyn Node>>>;
    fn parse2(&self, t: TokenStream) -> Result<Box<dyn Node>>;
    fn parse_in(&self, p: ParseStream<'_>) -> Result<Box<dyn Node>>;
    fn build(&self, v: &V) -> Box<dyn Node>;
    fn steps(&self) -> Option<Steps>;
}

type Into<T> = fn(&T, bool, &mut dyn std::fmt::Write) -> std::fmt::Result;

type Flagged<T> = fn(&T, usize) -> (&'static str, bool, String);

pub struct Ty<T> { name: String, disp: Into<T>, flags: Option<Flagged<T>>, from: Option<fn(&str) -> Result<T>> }

struct N<T> { x: T, disp: Into<T>, flags: Option<Flagged<T>> }

pub trait Full: Gram + Debug + Clone + PartialEq + Eq + Hash {}
impl<T: Gram + Debug + Clone + PartialEq + Eq + Hash> Full for T {}

fn via_util<T: Gram>(x: &T, alternate: bool, w: &mut dyn std::fmt::Write) -> std::fmt::Result {
    if alternate { parsel::util::format_ast_node_compact(x, w) } else { parsel::util::format_ast_node_pretty(x, w) }
}

fn via_display<T: Display>(x: &T, alternate: bool, w: &mut dyn std::fmt::Write) -> std::fmt::Result {
    if alternate { write!(w, "{:#}", x) } else { write!(w, "{}", x) }
}

fn flags<T: Display>(x: &T, k: usize) -> (&'static str, bool, String) {
    macro_rules! f { ($($k:pat => $f:literal, $a:literal;)*) => { match k % 12 { $($k => ($f, $a, format!($f, x)),)* _ => unreachable!() } } }
    f! { 0 => "{:3}", false; 1 => "{:#3}", true; 2 => "{:<60}", false; 3 => "{:>#60}", true; 4 => "{:.1}", false; 5 => "{:#.2}", true; 6 => "{:+}", false; 7 => "{:+#}", true; 8 => "{:05}", false; 9 => "{:#09}", true; 10 => "{:*^9.4}", false; 11 => "{:_>+#012.3}", true; }
}

/// A type with Display and FromStr.
pub fn ty<T: Full + Display + FromStr<Err = Error>>(name: &str) -> Box<dyn TypeOps> {
    Box::new(Ty::<T> { name: name.into(), disp: via_display::<T>, flags: Some(flags::<T>), from: Some(|s| s.parse::<T>()) })
}

/// A type without them (composed of library types that lack them).
pub fn tx<T: Full>(name: &str) -> Box<dyn TypeOps> {
    Box::new(Ty::<T> { name: name.into(), disp: via_util::<T>, flags: None, from: None })
}

impl<T: Full> Ty<T> {
    fn wrap(&self, x: T) -> Box<dyn Node> { Box::new(N { x, disp: self.disp, flags: self.flags }) }
}

impl<T: Full> TypeOps for Ty<T> {
    fn name(&self) -> &str { &self.name }
    fn g(&self) -> Gr { g::<T>() }
    fn parse_str(&self, s: &str) -> Result<Box<dyn Node>> { parsel::parse_str::<T>(s).map(|x| self.wrap(x)) }
    fn from_str(&self, s: &str) -> Option<Result<Box<dyn Node>>> { self.from.map(|f| f(s).map(|x| self.wrap(x))) }
    fn parse2(&self, t: TokenStream) -> Result<Box<dyn Node>> { parsel::parse2::<T>(t).map(|x| self.wrap(x)) }
    fn parse_in(&self, p: ParseStream<'_>) -> Result<Box<dyn Node>> { p.parse::<T>().map(|x| self.wrap(x)) }
    fn build(&self, v: &V) -> Box<dyn Node> { self.wrap(T::build(v)) }
    fn steps(&self) -> Option<Steps> { T::steps() }
}

impl<T: Full> Node for N<T> {
    fn dump(&self) -> V { self.x.dump(&mut Cx::default()) }
    fn dump_at(&self, cx: &mut Cx<'_>) -> V { self.x.dump(cx) }
    fn tokens(&self) -> TokenStream { self.x.to_token_stream() }
    fn display(&self, alternate: bool) -> String { let mut s = String::new(); (self.disp)(&self.x, alternate, &mut s).expect("a display implementation failed by itself"); s }
    fn display_into(&self, alternate: bool, w: &mut dyn std::fmt::Write) -> std::fmt::Result { (self.disp)(&self.x, alternate, w) }
    fn format_with(&self, indent: Option<&str>) -> Result<String> {
        let mut s = String::new();
        let r = match indent {
            Some(i) => parsel::util::TokenStreamFormatter::with_indent(i, &mut s)?.write_ast_node(&self.x),
            None => parsel::util::TokenStreamFormatter::compact(&mut s).write_ast_node(&self.x),
        };
        r.map(|()| s).map_err(|e| Error::new(parsel::Span::call_site(), e))
    }
    fn flagged(&self, k: usize) -> Option<(&'static str, bool, String)> { self.flags.map(|f| f(&self.x, k)) }
    fn write(&self, pretty: bool, w: &mut dyn std::fmt::Write) -> std::fmt::Result {
        if pretty { parsel::util::format_ast_node_pretty(&self.x, w) } else { parsel::util::format_ast_node_compact(&self.x, w) }
    }
    fn debug(&self) -> String { format!("{:?}{:#?}", self.x, self.x) }
    fn same(&self, o: &dyn Node) -> bool { o.any().downcast_ref::<T>().map_or(false, |y| self.x == *y) }
    fn hash(&self) -> u64 { let mut h = DefaultHasher::new(); self.x.hash(&mut h); h.finish() }
    fn dup(&self) -> Box<dyn Node> { Box::new(N { x: self.x.clone(), disp: self.disp, flags: self.flags }) }
    fn span(&self) -> parsel::Span { parsel::util::SpannedExt::span(&self.x) }
    fn any(&self) -> &dyn StdAny { &self.x }
}

/// A copy of the error (message and location), as observed.
#[derive(Clone, Debug, PartialEq)]
pub struct ErrObs { pub msg: String, pub start: (usize, usize), pub end: (usize, usize), pub parts: Vec<String> }

pub fn err(e: &Error) -> ErrObs {
    let (s, t) = (e.span().start(), e.span().end());
    ErrObs { msg: e.to_string(), start: (s.line, s.column), end: (t.line, t.column), parts: e.clone().into_iter().map(|e| e.to_string()).collect() }
}
