//! C22: conversions and accessors.
use crate::kwops::ends;
use crate::lits;
use crate::report::{Rec, Res, Run};
use crate::rng::Rng;
use parsel::ast::*;
use parsel::proc_macro2::TokenTree;
use parsel::util::SpannedExt;
use parsel::{NotNan, Span, ToTokens, TokenStream};
use std::borrow::{Borrow, BorrowMut, Cow};
use std::fmt::Debug;

fn ne<A: PartialEq<B> + Debug, B: Debug>(what: &str, got: A, want: B) -> Res { if got == want { Ok(()) } else { Err(format!("{} is {:?} instead of {:?}", what, got, want)) } }

/// A location in some text.
fn place(r: &mut Rng) -> Span {
    if r.chance(1, 6) { return Span::call_site() }
    let w = "x".repeat(r.range(1, 9));
    let ts: TokenStream = format!("{}{}{}", "\n".repeat(r.range(0, 4)), " ".repeat(r.range(0, 30)), w).parse().expect("harness: span");
    ts.into_iter().next().unwrap().span()
}

/// Equality that tells floats apart by their bits.
trait Same { fn same(&self, o: &Self) -> bool; }
macro_rules! same { ($($t:ty),*) => { $(impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } })* } }
same!(bool, u8, i64, u64, char, String, Vec<u8>);
impl Same for NotNan<f64> { fn same(&self, o: &Self) -> bool { self.into_inner().to_bits() == o.into_inner().to_bits() } }

/// Padding that the text of a literal may be parsed behind.
fn pad(r: &mut Rng) -> String { r.pick(&["", " ", "\n", "  \n\t ", "/* é */ ", "// x\n"]).to_string() }

macro_rules! literal {
    ($r:expr, $rec:expr, $ty:ident, $raw:ty, $variant:ident, $v:expr, $back:expr, $synval:expr) => { {
        let r: &mut Rng = $r;
        let v: $raw = $v;
        let what = format!("{} of {:?}", stringify!($ty), v);
        $rec.what = what.clone();
        let (a, b) = (place(r), place(r));
        let at = |w: &str, got: Span, want: Span| ne(&format!("{}: location {}", what, w), ends(got), ends(want));
        let is = |w: &str, got: &$raw| if got.same(&v) { Ok(()) } else { Err(format!("{}: value {} is {:?}", what, w, got)) };
        let mut x = $ty::new(v.clone(), a);
        is("of new", &x.value())?;
        at("of new", x.span(), a)?;
        x.set_span(b);
        is("after set_span", &x.value())?;
        at("after set_span", x.span(), b)?;
        is("of into_inner", &x.clone().into_inner())?;
        is("converted into the raw value", &<$raw>::from(x.clone()))?;
        is("borrowed", Borrow::<$raw>::borrow(&x))?;
        let y = $ty::from(v.clone());
        is("from the raw value", &y.value())?;
        at("from the raw value", y.span(), Span::call_site())?;
        let d = $ty::default();
        if !d.value().same(&<$raw>::default()) { return Err(format!("{} defaults to {:?}", stringify!($ty), d.value())) }
        at("by default", d.span(), Span::call_site())?;
        // tokens
        let tok = x.token();
        at("of the token", tok.span(), b)?;
        let tt = TokenTree::from(x.clone());
        at("of the token tree", tt.span(), b)?;
        ne(&format!("{}: token tree", what), tt.to_string(), tok.to_string())?;
        let ts = x.to_token_stream();
        for t in ts.clone() { at("of a printed token", t.span(), b)? }
        at("of the node", SpannedExt::span(&x), b)?;
        // printed, the value is the same again, and where it is written
        let (p, text) = (pad(r), x.to_string());
        let src = format!("{}{}", p, text);
        let z: $ty = parsel::parse_str(&src).map_err(|e| format!("{}: printed as {:?}, rejected: {}", what, text, e))?;
        is("printed and parsed", &z.value())?;
        ne(&format!("{}: location when parsed from {:?}", what, src), SpannedExt::byte_range(&z, &src), p.len()..src.len())?;
        ne(&format!("{}: location when parsed from {:?}", what, src), ends(z.span()), ends(SpannedExt::span(&z)))?;
        let z2: $ty = parsel::parse2(ts).map_err(|e| format!("{}: tokens rejected: {}", what, e))?;
        is("printed and parsed as tokens", &z2.value())?;
        at("printed and parsed as tokens", z2.span(), b)?;
        // the host library's types
        let s: parsel::syn::$variant = x.clone().into();
        at("of syn's literal", s.span(), b)?;
        #[allow(clippy::redundant_closure_call)]
        is("of syn's literal", &($synval)(&s)?)?;
        #[allow(clippy::redundant_closure_call)]
        let w: $ty = ($back)(s)?;
        is("from syn's literal", &w.value())?;
        at("from syn's literal", w.span(), b)?;
        x
    } };
}

fn own<T, U: From<T>>(x: T) -> Result<U, String> { Ok(U::from(x)) }
fn tried<T, U: TryFrom<T>>(x: T) -> Result<U, String> where U::Error: std::fmt::Display { U::try_from(x).map_err(|e| e.to_string()) }

/// The any-literal made of a literal: same value, same place, in every direction.
fn any_literal<T: Clone + Into<Lit> + std::fmt::Display + ToTokens>(x: &T, sp: Span, r: &mut Rng, canonical: bool) -> Res {
    let mut l: Lit = x.clone().into();
    let what = format!("any-literal of {}", x);
    let at = |w: &str, got: Span, want: Span| ne(&format!("{}: location {}", what, w), ends(got), ends(want));
    at("", l.span(), sp)?;
    at("of the node", SpannedExt::span(&l), sp)?;
    ne(&format!("{}: display", what), l.to_string(), x.to_string())?;
    ne(&format!("{}: tokens", what), l.to_token_stream().to_string(), x.to_token_stream().to_string())?;
    let b = place(r);
    let before = l.clone();
    l.set_span(b);
    at("after set_span", l.span(), b)?;
    at("of the node after set_span", SpannedExt::span(&l), b)?;
    if l != before || l.to_string() != x.to_string() { return Err(format!("{}: set_span changed it to {}", what, l)) }
    let s: parsel::syn::Lit = l.clone().into();
    at("of syn's literal", s.span(), b)?;
    let k = Lit::try_from(s).map_err(|e| format!("{}: syn's literal cannot be converted back: {}", what, e))?;
    at("from syn's literal", k.span(), b)?;
    if canonical && k != l { return Err(format!("{}: through syn's literal it becomes {:?}", what, k)) }
    ne(&format!("{}: display through syn's literal", what), k.to_string(), l.to_string())
}

fn literals(r: &mut Rng, rec: &mut Rec, idx: u64) -> Res {
    let key = match idx % 8 {
        0 => {
            let v = idx / 8 % 2 == 0;
            let x = literal!(r, rec, LitBool, bool, LitBool, v, own, |s: &parsel::syn::LitBool| Ok::<_, String>(s.value()));
            any_literal(&x, x.span(), r, true)?;
            if !matches!(Lit::from(v), Lit::Bool(y) if y.value() == v) { return Err(format!("any-literal from {:?}", v)) }
            format!("{}", x)
        }
        1 => {
            let v = (idx / 8 % 256) as u8;
            let x = literal!(r, rec, LitByte, u8, LitByte, v, own, |s: &parsel::syn::LitByte| Ok::<_, String>(s.value()));
            any_literal(&x, x.span(), r, true)?;
            if !matches!(Lit::from(v), Lit::Byte(y) if y.value() == v) { return Err(format!("any-literal from {:?}", v)) }
            format!("{}", x)
        }
        2 => {
            let v = lits::i64_any(r);
            let x = literal!(r, rec, LitInt, i64, LitInt, v, tried, |s: &parsel::syn::LitInt| s.base10_parse::<i64>().map_err(|e| e.to_string()));
            any_literal(&x, x.span(), r, v < 0)?;
            if !matches!(Lit::from(v), Lit::Int(y) if y.value() == v) { return Err(format!("any-literal from {:?}", v)) }
            format!("int {}", x)
        }
        3 => {
            let v = lits::u64_any(r);
            let x = literal!(r, rec, LitUint, u64, LitInt, v, tried, |s: &parsel::syn::LitInt| s.base10_parse::<u64>().map_err(|e| e.to_string()));
            any_literal(&x, x.span(), r, true)?;
            if !matches!(Lit::from(v), Lit::Uint(y) if y.value() == v) { return Err(format!("any-literal from {:?}", v)) }
            format!("uint {}", x)
        }
        4 => {
            let f = lits::f64_any(r);
            let v = NotNan::new(f).unwrap();
            let x = literal!(r, rec, LitFloat, NotNan<f64>, LitFloat, v, tried, |s: &parsel::syn::LitFloat| s.base10_parse::<NotNan<f64>>().map_err(|e| e.to_string()));
            any_literal(&x, x.span(), r, true)?;
            if !matches!(Lit::from(v), Lit::Float(y) if y.value().same(&v)) { return Err(format!("any-literal from {:?}", v)) }
            if !matches!(Lit::try_from(f), Ok(Lit::Float(y)) if y.value().same(&v)) { return Err(format!("any-literal tried from {:?}", f)) }
            let y = LitFloat::try_from(f).map_err(|e| format!("{:?} is refused: {}", f, e))?;
            if !y.value().same(&v) || f64::from(y).to_bits() != f.to_bits() { return Err(format!("{:?} becomes {:?}", f, y)) }
            ne("location of a converted float", ends(y.span()), ends(Span::call_site()))?;
            let nan = f64::from_bits(0x7ff8_0000_0000_0000 | r.u64());
            if nan.is_nan() && (LitFloat::try_from(nan).is_ok() || Lit::try_from(nan).is_ok()) { return Err("a literal was made of NaN".into()) }
            format!("{}", x)
        }
        5 => {
            let v = lits::char_any(r);
            let x = literal!(r, rec, LitChar, char, LitChar, v, own, |s: &parsel::syn::LitChar| Ok::<_, String>(s.value()));
            any_literal(&x, x.span(), r, true)?;
            if !matches!(Lit::from(v), Lit::Char(y) if y.value() == v) { return Err(format!("any-literal from {:?}", v)) }
            format!("{}", x)
        }
        6 => {
            let v = lits::string_any(r);
            let x = literal!(r, rec, LitStr, String, LitStr, v.clone(), own, |s: &parsel::syn::LitStr| Ok::<_, String>(s.value()));
            any_literal(&x, x.span(), r, true)?;
            let call = ends(Span::call_site());
            for (n, y) in [("&str", LitStr::from(v.as_str())), ("Box<str>", LitStr::from(v.clone().into_boxed_str())), ("borrowed Cow", LitStr::from(Cow::Borrowed(v.as_str()))), ("owned Cow", LitStr::from(Cow::<str>::Owned(v.clone())))] {
                if y.value() != v || ends(y.span()) != call { return Err(format!("LitStr from {} {:?} is {:?}", n, v, y)) }
            }
            for (n, y) in [("String", Lit::from(v.clone())), ("&str", Lit::from(v.as_str())), ("Box<str>", Lit::from(v.clone().into_boxed_str())), ("borrowed Cow", Lit::from(Cow::Borrowed(v.as_str()))), ("owned Cow", Lit::from(Cow::<str>::Owned(v.clone())))] {
                if !matches!(&y, Lit::Str(y) if y.value() == v && ends(y.span()) == call) { return Err(format!("Lit from {} {:?} is {:?}", n, v, y)) }
            }
            if &*Box::<str>::from(x.clone()) != v.as_str() || Cow::<str>::from(x.clone()) != v.as_str() || AsRef::<str>::as_ref(&x) != v || &*x != v.as_str() || Borrow::<str>::borrow(&x) != v { return Err(format!("LitStr {:?} lends something else", v)) }
            format!("{}", x)
        }
        _ => {
            let v = lits::bytes_any(r);
            let mut x = literal!(r, rec, LitByteStr, Vec<u8>, LitByteStr, v.clone(), own, |s: &parsel::syn::LitByteStr| Ok::<_, String>(s.value()));
            any_literal(&x, x.span(), r, true)?;
            let call = ends(Span::call_site());
            for (n, y) in [("slice", LitByteStr::from(v.as_slice())), ("box", LitByteStr::from(v.clone().into_boxed_slice())), ("borrowed Cow", LitByteStr::from(Cow::Borrowed(v.as_slice()))), ("owned Cow", LitByteStr::from(Cow::<[u8]>::Owned(v.clone())))] {
                if y.value() != v || ends(y.span()) != call { return Err(format!("LitByteStr from {} {:?} is {:?}", n, v, y)) }
            }
            for (n, y) in [("Vec", Lit::from(v.clone())), ("slice", Lit::from(v.as_slice())), ("box", Lit::from(v.clone().into_boxed_slice())), ("borrowed Cow", Lit::from(Cow::Borrowed(v.as_slice()))), ("owned Cow", Lit::from(Cow::<[u8]>::Owned(v.clone())))] {
                if !matches!(&y, Lit::ByteStr(y) if y.value() == v && ends(y.span()) == call) { return Err(format!("Lit from {} {:?} is {:?}", n, v, y)) }
            }
            if &*Box::<[u8]>::from(x.clone()) != v.as_slice() || Cow::<[u8]>::from(x.clone()) != v.as_slice() || AsRef::<[u8]>::as_ref(&x) != v || &*x != v.as_slice() || Borrow::<[u8]>::borrow(&x) != v { return Err(format!("LitByteStr {:?} lends something else", v)) }
            let text = x.to_string();
            if !v.is_empty() {
                let mut w = v.clone();
                let at = x.span();
                for (k, f) in [(|x: &mut LitByteStr, i: usize, b: u8| AsMut::<[u8]>::as_mut(x)[i] = b) as fn(&mut LitByteStr, usize, u8), |x, i, b| x[i] = b, |x, i, b| BorrowMut::<[u8]>::borrow_mut(x)[i] = b].into_iter().enumerate() {
                    let (i, b) = (r.below(v.len()), r.below(256) as u8);
                    f(&mut x, i, b);
                    w[i] = b;
                    if x.value() != w || ends(x.span()) != ends(at) { return Err(format!("byte {} of {:?} set to {} in way {}: {:?}", i, w, b, k, x.value())) }
                }
            }
            text
        }
    };
    rec.case(&key, true);
    Ok(())
}

macro_rules! delims { ($r:expr, $rec:expr, $ty:ident, $tok:ident, $as:ident, $into:ident, $open:expr, $close:expr) => { {
    let r: &mut Rng = $r;
    let v = lits::u64_any(r);
    let (a, b, c) = (place(r), place(r), place(r));
    let what = format!("{} of {}", stringify!($ty), v);
    $rec.what = what.clone();
    let at = |w: &str, got: Span, want: Span| ne(&format!("{}: location {}", what, w), ends(got), ends(want));
    let is = |w: &str, got: &LitUint| ne(&format!("{}: {}", what, w), (got.value(), ends(got.span())), (v, ends(a)));
    let inner = LitUint::new(v, a);
    let x = $ty::new(inner, b);
    let from_inner = $ty::from(inner);
    let from_parts = $ty::from((token::$tok(c), inner));
    for (n, mut x, sp) in [("new", x, b), ("from its content", from_inner, a), ("from its parts", from_parts, c)] {
        at(n, x.$as().span.join(), sp)?;
        at(n, x.$into().span.join(), sp)?;
        at(n, x.into_parts().0.span.join(), sp)?;
        at(n, x.as_parts().0.span.join(), sp)?;
        is("into_inner", &x.into_inner())?;
        is("into_parts", &x.into_parts().1)?;
        is("as_parts", x.as_parts().1)?;
        is("dereferenced", &*x)?;
        is("as_ref", AsRef::<LitUint>::as_ref(&x))?;
        is("dereferenced mutably", std::ops::DerefMut::deref_mut(&mut x))?;
        is("as_mut", AsMut::<LitUint>::as_mut(&mut x))?;
        ne(&format!("{}: tokens", what), crate::tok::show(&crate::tok::lex(x.to_token_stream()), false, false), crate::tok::show(&crate::tok::lex_str(&format!("{}{}{}", $open, v, $close)).unwrap(), false, false))?;
        let t: Vec<TokenTree> = x.to_token_stream().into_iter().collect();
        at("of the printed group", t[0].span(), sp)?;
        // the content is changed and nothing else
        let w = v ^ 1;
        if r.chance(1, 2) { **&mut x = LitUint::new(w, c) } else { *x.as_mut() = LitUint::new(w, c) }
        ne(&format!("{}: changed content", what), (x.value(), ends(x.as_ref().span())), (w, ends(c)))?;
        at("after changing the content", x.$as().span.join(), sp)?;
        if x == $ty::new(inner, sp) { return Err(format!("{}: equal to one with another content", what)) }
    }
    let d = $ty::<LitUint>::default();
    ne(&format!("default {}", stringify!($ty)), (d.value(), ends(d.$as().span.join())), (0, ends(Span::call_site())))?;
    // parsed: each delimiter is where it is written
    let (p, q, s) = (pad(r), pad(r), pad(r));
    let src = format!("{}{}{}{}{}{}", p, $open, q, v, s, $close);
    if src.contains("//") && !src.contains('\n') { return Ok(()) }
    let y: $ty<LitUint> = parsel::parse_str(&src).map_err(|e| format!("{:?} is rejected: {}", src, e))?;
    let range = |sp: Span| SpannedExt::byte_range(&sp, &src);
    ne(&format!("{} in {:?}", stringify!($ty), src), (range(y.$as().span.join()), range(y.$as().span.open()), range(y.$as().span.close()), range(y.as_ref().span())), (p.len()..src.len(), p.len()..p.len() + 1, src.len() - 1..src.len(), p.len() + 1 + q.len()..src.len() - 1 - s.len()))?;
    ne(&format!("{} in {:?}, by reference and by value", stringify!($ty), src), range(y.$into().span.join()), range(y.$as().span.join()))?;
    let (t, i) = y.into_parts();
    ne(&format!("{} in {:?}: parts", stringify!($ty), src), (range(t.span.join()), i.value()), (p.len()..src.len(), v))?;
    let z = $ty::from((t, i));
    ne(&format!("{} in {:?}: put together again", stringify!($ty), src), (range(z.$as().span.join()), z.value()), (p.len()..src.len(), v))?;
    $rec.case(&format!("{} {:?}", stringify!($ty), src), true);
    Ok(())
} } }

/// Anything that can be moved around, with its own identity.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Tag(u64);
impl ToTokens for Tag { fn to_tokens(&self, t: &mut TokenStream) { LitUint::from(self.0).to_tokens(t) } }

fn maybe(r: &mut Rng, rec: &mut Rec, idx: u64) -> Res {
    type M = Maybe<Tag, LitStr>;
    let (pv, tv) = (r.u64(), format!("s{}", r.below(1000)));
    let p = || Tag(pv);
    let t = || LitStr::from(tv.as_str());
    // which: absent, both parts given, only the inner part given (default prefix)
    let (m, want): (M, Option<(Tag, String)>) = match idx % 8 {
        0 => (M::new(), None),
        1 => (M::default(), None),
        2 => (M::from(None::<(Tag, LitStr)>), None),
        3 => (M::from(Some((p(), t()))), Some((p(), tv.clone()))),
        4 => (M::from((p(), t())), Some((p(), tv.clone()))),
        5 => (M::from(None::<LitStr>), None),
        6 => (M::from(Some(t())), Some((Tag(0), tv.clone()))),
        _ => (M::from(t()), Some((Tag(0), tv.clone()))),
    };
    let what = format!("optional node {} with {:?}", idx % 8, want);
    rec.what = what.clone();
    let wp = || want.as_ref().map(|x| x.0.clone());
    let wt = || want.as_ref().map(|x| x.1.clone());
    let e = |n: &str| format!("{}: {}", what, n);
    let s = |x: &LitStr| x.value();
    let both = |x: &(Tag, LitStr)| (x.0.clone(), x.1.value());
    ne(&e("as_prefix"), m.as_prefix().cloned(), wp())?;
    ne(&e("as_ref"), m.as_ref().map(s), wt())?;
    ne(&e("as_parts"), m.as_parts().map(both), want.clone())?;
    ne(&e("into_prefix"), m.clone().into_prefix(), wp())?;
    ne(&e("into_inner"), m.clone().into_inner().map(|x| x.value()), wt())?;
    ne(&e("into_parts"), m.clone().into_parts().map(|x| both(&x)), want.clone())?;
    ne(&e("dereferenced"), (*m).as_ref().map(both), want.clone())?;
    let v = |x: Option<Tag>| x.into_iter().collect::<Vec<_>>();
    let vs = |x: Option<String>| x.into_iter().collect::<Vec<_>>();
    ne(&e("prefix_iter"), m.prefix_iter().cloned().collect::<Vec<_>>(), v(wp()))?;
    ne(&e("into_prefix_iter"), m.clone().into_prefix_iter().collect::<Vec<_>>(), v(wp()))?;
    ne(&e("iter"), m.iter().map(s).collect::<Vec<_>>(), vs(wt()))?;
    ne(&e("iteration by reference"), (&m).into_iter().map(s).collect::<Vec<_>>(), vs(wt()))?;
    ne(&e("iteration by value"), m.clone().into_iter().map(|x| x.value()).collect::<Vec<_>>(), vs(wt()))?;
    ne(&e("parts_iter"), m.parts_iter().map(both).collect::<Vec<_>>(), want.clone().into_iter().collect::<Vec<_>>())?;
    ne(&e("into_parts_iter"), m.clone().into_parts_iter().map(|x| both(&x)).collect::<Vec<_>>(), want.clone().into_iter().collect::<Vec<_>>())?;
    ne(&e("tokens"), m.to_token_stream().to_string(), want.as_ref().map_or(String::new(), |(a, b)| format!("{} {:?}", a.0, b)))?;
    // through every mutable way
    let mut x = m.clone();
    let there = want.is_some();
    ne(&e("as_prefix_mut"), x.as_prefix_mut().map(|p| p.0 ^= 1).is_some(), there)?;
    ne(&e("as_mut"), x.as_mut().map(|t| *t = LitStr::from(format!("{}1", t.value()))).is_some(), there)?;
    ne(&e("as_parts_mut"), x.as_parts_mut().map(|(p, t)| { p.0 ^= 2; *t = LitStr::from(format!("{}2", t.value())) }).is_some(), there)?;
    for p in x.prefix_iter_mut() { p.0 ^= 4 }
    for t in x.iter_mut() { *t = LitStr::from(format!("{}3", t.value())) }
    for t in &mut x { *t = LitStr::from(format!("{}4", t.value())) }
    for (p, t) in x.parts_iter_mut() { p.0 ^= 8; *t = LitStr::from(format!("{}5", t.value())) }
    if let Some((p, _)) = std::ops::DerefMut::deref_mut(&mut x) { p.0 ^= 16 }
    ne(&e("changed in every mutable way"), x.as_parts().map(both), want.clone().map(|(p, t)| (Tag(p.0 ^ 31), t + "12345")))?;
    if there && x == m { return Err(e("equal after the change")) }
    // taken away and put back by the underlying option
    let taken = x.take();
    ne(&e("taken"), (taken.is_some(), x.as_parts().is_none(), x == M::new()), (there, true, true))?;
    rec.case(&format!("{} {:?}", idx % 8, want), true);
    Ok(())
}

/// The same for prefixes and contents of any size, none included.
fn maybes(r: &mut Rng, rec: &mut Rec, idx: u64) -> Res {
    fn go<P: Clone + PartialEq + Debug + Default, T: Clone + PartialEq + Debug>(name: &str, rec: &mut Rec, idx: u64, p: P, t: T) -> Res {
        let (m, want): (Maybe<P, T>, Option<(P, T)>) = match idx % 7 {
            0 => (Maybe::new(), None),
            1 => (From::<Option<(P, T)>>::from(None), None),
            2 => (From::<Option<(P, T)>>::from(Some((p.clone(), t.clone()))), Some((p, t))),
            3 => (From::<(P, T)>::from((p.clone(), t.clone())), Some((p, t))),
            4 => (From::<Option<T>>::from(None), None),
            5 => (From::<Option<T>>::from(Some(t.clone())), Some((P::default(), t))),
            _ => (From::<T>::from(t.clone()), Some((P::default(), t))),
        };
        let what = format!("optional {} {} with {:?}", name, idx % 7, want);
        rec.what = what.clone();
        let e = |n: &str| format!("{}: {}", what, n);
        let (wp, wt) = (want.clone().map(|x| x.0), want.clone().map(|x| x.1));
        ne(&e("by reference"), (m.as_prefix().cloned(), m.as_ref().cloned(), m.as_parts().cloned(), (*m).clone()), (wp.clone(), wt.clone(), want.clone(), want.clone()))?;
        ne(&e("by value"), (m.clone().into_prefix(), m.clone().into_inner(), m.clone().into_parts()), (wp.clone(), wt.clone(), want.clone()))?;
        let mut x = m.clone();
        ne(&e("mutably"), (x.as_prefix_mut().cloned(), x.as_mut().cloned(), x.as_parts_mut().cloned()), (wp.clone(), wt.clone(), want.clone()))?;
        ne(&e("iterated"), (x.prefix_iter().cloned().last(), x.iter().cloned().last(), x.parts_iter().cloned().last(), (&x).into_iter().count()), (wp.clone(), wt.clone(), want.clone(), want.iter().len()))?;
        ne(&e("iterated mutably"), (x.prefix_iter_mut().count(), x.iter_mut().count(), x.parts_iter_mut().count(), (&mut x).into_iter().count()), (want.iter().len(), want.iter().len(), want.iter().len(), want.iter().len()))?;
        ne(&e("iterated by value"), (x.clone().into_prefix_iter().last(), x.clone().into_iter().last(), x.clone().into_parts_iter().last()), (wp, wt, want.clone()))?;
        if x != m { return Err(e("changed")) }
        rec.case(&e("moved around"), true);
        Ok(())
    }
    let n = r.below(9) as u64;
    match idx / 7 % 8 {
        0 => go("tag, nothing", rec, idx, Tag(n), ()),
        1 => go("nothing, tag", rec, idx, (), Tag(n)),
        2 => go("nothing, nothing", rec, idx, (), [0u8; 0]),
        3 => go("empty, big", rec, idx, Empty, [n; 200]),
        4 => go("big, empty", rec, idx, vec![vec![Tag(n)]; n as usize], Empty),
        5 => go("optional, character", rec, idx, Maybe::<Empty, bool>::from((Empty, n > 4)), 'x'),
        6 => go("boxed, option", rec, idx, Box::new(n), if n > 4 { None } else { Some(Empty) }),
        _ => go("string, boolean", rec, idx, n.to_string(), n > 4),
    }
}

fn words(r: &mut Rng, rec: &mut Rec) -> Res {
    let w = loop { let w = crate::gen::Gen::new(r, 0).word(); if !w.starts_with("r#") { break w } };
    rec.what = w.clone();
    let (a, b) = (place(r), place(r));
    let mut x = Word::new(&w, a);
    ne("text of a word", x.to_string(), w.clone())?;
    ne("location of a word", ends(x.span()), ends(a))?;
    x.set_span(b);
    ne("text of a moved word", (x.to_string(), ends(x.span()), ends(x.token().span()), x.token().to_string()), (w.clone(), ends(b), ends(b), w.clone()))?;
    let i: Ident = x.into();
    ne("identifier of a word", (i.to_string(), ends(i.span())), (w.clone(), ends(b)))?;
    let y = Word::try_from(i).map_err(|e| e.to_string())?;
    ne("word of an identifier", (y.to_string(), ends(y.span())), (w.clone(), ends(b)))?;
    let (i, y) = (ident(&w), word(&w));
    ne("test identifier and word", (i.to_string(), ends(i.span()), y.to_string(), ends(y.span())), (w.clone(), ends(Span::call_site()), w.clone(), ends(Span::call_site())))?;
    // the chains made of one operand
    let v = lits::u64_any(r);
    let l: LeftAssoc<Token![+], LitUint> = LitUint::new(v, a).into();
    let q: RightAssoc<Token![+], LitUint> = LitUint::new(v, a).into();
    match (&l, &q) { (LeftAssoc::Rhs(x), RightAssoc::Lhs(y)) if x.value() == v && y.value() == v && ends(x.span()) == ends(a) && ends(y.span()) == ends(a) => {}, _ => return Err(format!("chains of one operand {}: {:?} {:?}", v, l, q)) }
    let _ = (Empty::new(), Eof::new(), NotEof::new());
    rec.case(&w, true);
    Ok(())
}

/// Literals converted from syn's own, however they are spelled.
fn spelled(r: &mut Rng, rec: &mut Rec) -> Res {
    let v = u128::from(lits::u64_any(r)) + if r.chance(1, 20) { 1u128 << 64 } else { 0 };
    let s = lits::spell_int(r, v, true);
    rec.what = s.clone();
    let neg = r.chance(1, 3);
    let text = if neg { format!("-{}", s) } else { s.clone() };
    let Ok(l) = parsel::syn::parse_str::<parsel::syn::LitInt>(&text) else { rec.count("not an integer to syn"); return Ok(()) };
    let at = ends(l.span());
    let signed = if neg { -(v as i128) } else { v as i128 };
    let i = LitInt::try_from(l.clone());
    let u = LitUint::try_from(l.clone());
    let a = Lit::try_from(parsel::syn::Lit::Int(l));
    let want_i = i64::try_from(signed).ok();
    let want_u = if neg { None } else { u64::try_from(signed).ok() };
    ne(&format!("LitInt of {}", text), i.as_ref().ok().map(|x| (x.value(), ends(x.span()))), want_i.map(|x| (x, at)))?;
    if !neg || v != 0 { ne(&format!("LitUint of {}", text), u.as_ref().ok().map(|x| (x.value(), ends(x.span()))), want_u.map(|x| (x, at)))? }
    match (&a, neg && v != 0) {
        (Ok(Lit::Int(x)), true) if Some(x.value()) == want_i && ends(x.span()) == at => {}
        (Ok(Lit::Uint(x)), false) if i128::from(x.value()) == signed && ends(x.span()) == at => {}
        (Err(_), true) if want_i.is_none() => {}
        (Err(_), false) if u64::try_from(signed).is_err() => {}
        (x, _) => return Err(format!("Lit of {}: {:?}", text, x.as_ref().map_err(|e| e.to_string()))),
    }
    rec.case(&text, true);
    Ok(())
}

pub fn c22(run: &Run) {
    run.rule("a value was put into a node, moved through its conversions and accessors, and compared with what was put in");
    run.section("literals", run.n(60_000, 30), literals);
    run.section("spelled integers", run.n(15_000, 30), |r, rec, _| spelled(r, rec));
    run.section("delimited nodes", run.n(15_000, 30), |r, rec, idx| match idx % 3 {
        0 => delims!(r, rec, Paren, Paren, as_parens, into_parens, "(", ")"),
        1 => delims!(r, rec, Bracket, Bracket, as_brackets, into_brackets, "[", "]"),
        _ => delims!(r, rec, Brace, Brace, as_braces, into_braces, "{", "}"),
    });
    run.section("optional nodes", run.n(8000, 10), maybe);
    run.section("optional nodes of any size", run.n(5600, 10), maybes);
    run.section("words and chains", run.n(10_000, 30), |r, rec, _| words(r, rec));
}
