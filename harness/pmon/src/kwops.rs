//! Type-erased keyword modules.
use parsel::ast::{CustomIdent, Ident, KeywordList};
use parsel::proc_macro2::TokenTree;
use parsel::{Error, FromStr, Parse, Span, ToTokens, TokenStream};
use std::fmt::{Debug, Display};

/// What is observed of a keyword node (or of an identifier).
#[derive(Clone, PartialEq, Debug)]
pub struct KwObs { pub text: Vec<(&'static str, String)>, pub start: (usize, usize), pub end: (usize, usize) }

pub fn ends(s: Span) -> ((usize, usize), (usize, usize)) { ((s.start().line, s.start().column), (s.end().line, s.end().column)) }

/// The inherent methods of a generated keyword type, behind a trait.
pub trait Kw: Copy + Default + Debug + Display + AsRef<str> + Parse + ToTokens + FromStr<Err = Error> + Eq + Ord + std::hash::Hash + Into<TokenTree> + PartialEq<Self> + PartialEq<str2> + 'static {
    fn mk(s: Span) -> Self;
    fn text(&self) -> &'static str;
    fn sp(&self) -> Span;
    fn set(&mut self, s: Span);
    fn tok(&self) -> Ident;
}

/// A text that is only a text.
#[allow(non_camel_case_types)]
#[derive(Clone, Debug)]
pub struct str2(pub String);
impl AsRef<str> for str2 { fn as_ref(&self) -> &str { &self.0 } }

pub fn obs_kw<K: Kw>(k: &K) -> KwObs {
    let (start, end) = ends(k.sp());
    let tt: TokenTree = (*k).into();
    let mut text = vec![
        ("as_str", k.text().to_string()), ("as_ref", AsRef::<str>::as_ref(k).to_string()), ("Display", k.to_string()), ("Debug", format!("{:?}", k)),
        ("token", k.tok().to_string()), ("token tree", tt.to_string()), ("tokens", k.to_token_stream().to_string()),
    ];
    for (n, s) in [("location of the token", k.tok().span()), ("location of the token tree", tt.span()), ("location of the tokens", parsel::util::SpannedExt::span(k))] {
        if ends(s) != (start, end) { text.push((n, format!("{:?}", ends(s)))) }
    }
    KwObs { text, start, end }
}

pub fn obs_id<L: Clone>(k: &CustomIdent<L>) -> KwObs {
    let (start, end) = ends(k.span());
    let id: Ident = k.clone().into();
    let mut text = vec![("Display", k.to_string()), ("token", k.token().to_string()), ("identifier", id.to_string()), ("tokens", k.to_token_stream().to_string())];
    for (n, s) in [("location of the token", k.token().span()), ("location of the identifier", id.span()), ("location of the tokens", parsel::util::SpannedExt::span(k))] {
        if ends(s) != (start, end) { text.push((n, format!("{:?}", ends(s)))) }
    }
    KwObs { text, start, end }
}

pub struct KwTy {
    pub word: &'static str,
    pub name: &'static str,
    pub parse: fn(&str) -> parsel::Result<KwObs>,
    pub from_str: fn(&str) -> parsel::Result<KwObs>,
    pub parse2: fn(TokenStream) -> parsel::Result<KwObs>,
    /// made by `new` at the location, by default, and the parsed one moved to the location; with ==, != and cmp against a text
    pub made: fn(Span) -> (KwObs, KwObs),
    pub moved: fn(&str, Span) -> parsel::Result<KwObs>,
    pub same: fn(&str) -> (bool, Option<std::cmp::Ordering>),
}

pub struct KwMod {
    pub name: &'static str,
    pub words: Vec<&'static str>,
    pub list: &'static [&'static str],
    pub kws: Vec<KwTy>,
    pub parse: fn(&str) -> parsel::Result<KwObs>,
    pub from_str: fn(&str) -> parsel::Result<KwObs>,
    pub try_from: fn(Ident) -> parsel::Result<KwObs>,
    pub moved: fn(Ident, Span) -> parsel::Result<KwObs>,
    /// the identifiers at the front of a text, as far as they go, and what follows
    pub run: fn(&str) -> (Vec<KwObs>, String),
}

pub fn kw_ty<K: Kw + PartialOrd<str2>>(word: &'static str, name: &'static str) -> KwTy {
    KwTy {
        word, name,
        parse: |s| parsel::parse_str::<K>(s).map(|k| obs_kw(&k)),
        from_str: |s| s.parse::<K>().map(|k| obs_kw(&k)),
        parse2: |s| parsel::parse2::<K>(s).map(|k| obs_kw(&k)),
        made: |s| (obs_kw(&K::mk(s)), obs_kw(&K::default())),
        moved: |s, sp| parsel::parse_str::<K>(s).map(|mut k| { k.set(sp); obs_kw(&k) }),
        same: |s| { let t = str2(s.to_string()); (K::default() == t, K::default().partial_cmp(&t)) },
    }
}

pub fn kw_mod<L: KeywordList + Default + Clone + 'static>(name: &'static str, kws: Vec<KwTy>) -> KwMod {
    KwMod {
        name,
        words: kws.iter().map(|k| k.word).collect(),
        list: L::KEYWORDS,
        kws,
        parse: |s| parsel::parse_str::<CustomIdent<L>>(s).map(|k| obs_id(&k)),
        from_str: |s| s.parse::<CustomIdent<L>>().map(|k| obs_id(&k)),
        try_from: |i| CustomIdent::<L>::try_from(i).map(|k| obs_id(&k)),
        moved: |i, s| CustomIdent::<L>::try_from(i).map(|mut k| { k.set_span(s); obs_id(&k) }),
        run: |s| crate::eng::on_stream(s, |p| {
            let mut v = vec![];
            if let Ok(x) = p.parse::<parsel::ast::Any<CustomIdent<L>>>() { v = x.iter().map(obs_id).collect() }
            (v, crate::eng::rest(p))
        }),
    }
}

/// The operations of a keyword module, whose words are stated anew.
#[macro_export]
macro_rules! keyword_ops {
    ($m:ident: $($w:expr => $n:ident),* $(,)?) => { {
        $(impl $crate::kwops::Kw for $m::$n {
            fn mk(s: parsel::Span) -> Self { $m::$n::new(s) }
            fn text(&self) -> &'static str { self.as_str() }
            fn sp(&self) -> parsel::Span { self.span() }
            fn set(&mut self, s: parsel::Span) { self.set_span(s) }
            fn tok(&self) -> parsel::ast::Ident { self.token() }
        })*
        $crate::kwops::kw_mod::<$m::Keywords>(stringify!($m), vec![$($crate::kwops::kw_ty::<$m::$n>($w, stringify!($n))),*])
    } }
}
