// Support for the declared shapes: what they are checked with, and node types of the user's own.
#[allow(dead_code, unused)]
pub mod support {
    use parsel::syn::parse::ParseStream;
    use parsel::{Parse, ToTokens, TokenStream};
    use std::marker::PhantomData;
    use std::sync::atomic::{AtomicU64, Ordering};

    pub static CHECKS: AtomicU64 = AtomicU64::new(0);

    /// Does the type implement the traits? (Decided by the compiler, observed at run time.)
    #[macro_export]
    macro_rules! impls { ($t:ty: $($b:tt)+) => { {
        #[allow(dead_code)] trait No { const V: bool = false; }
        impl<T: ?Sized> No for T {}
        #[allow(dead_code)] struct W<T: ?Sized>(::std::marker::PhantomData<T>);
        #[allow(dead_code)] impl<T: ?Sized + $($b)+> W<T> { const V: bool = true; }
        <W<$t>>::V
    } } }

    pub type Res = Result<(), String>;
    pub fn text(s: &str) -> String { s.parse::<TokenStream>().unwrap().to_string() }
    /// The text is accepted, and printed it is the same tokens.
    pub fn ok<T: Parse + ToTokens>(s: &str) -> Res {
        CHECKS.fetch_add(1, Ordering::Relaxed);
        let x = parsel::parse_str::<T>(s).map_err(|e| format!("{:?} is rejected: {}", s, e))?;
        let got = text(&x.to_token_stream().to_string());
        if got == text(s) { Ok(()) } else { Err(format!("{:?} is printed as {:?}", s, got)) }
    }
    /// The text is rejected with this message.
    pub fn no<T: Parse>(s: &str, want: &str) -> Res {
        CHECKS.fetch_add(1, Ordering::Relaxed);
        match parsel::parse_str::<T>(s) {
            Ok(_) => Err(format!("{:?} is accepted", s)),
            Err(e) if e.to_string().starts_with(want) => Ok(()),
            Err(e) => Err(format!("{:?} is rejected with {:?} instead of {:?}", s, e.to_string(), want)),
        }
    }
    pub fn is<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Res {
        CHECKS.fetch_add(1, Ordering::Relaxed);
        if got == want { Ok(()) } else { Err(format!("{} is {:?} instead of {:?}", what, got, want)) }
    }

    /// Words that keywords and identifiers are tried on.
    pub const WORDS: &[&str] = &["select", "from", "where", "SELECT", "From", "a", "b", "ab", "abc", "__", "_a", "a_", "if", "else", "self", "Self", "crate", "super", "true", "false", "fn", "r#fn", "r#type", "type", "struct", "async", "await", "dyn", "union", "try", "yield", "macro_rules", "é", "été", "ßx", "long_keyword_name_number_1", "r#a", "r#union", "x1", "x", "X", "u8", "i64", "str", "mod", "kw", "abstract", "r#abstract", "raw", "T", "H", "span", "name", "Keywords", "vis", "expr", "ident", "static", "default", "r#loop", "gen", "auto", "safe", "_", "foo", "_foo", "K0", "k1", "r#foo", "k"];
    /// The words of a list, and no others, are not identifiers.
    pub fn keyword_list<K: parsel::ast::KeywordList + Default + Copy>(declared: &[&str]) -> Res {
        for w in WORDS.iter().chain(declared) {
            CHECKS.fetch_add(1, Ordering::Relaxed);
            if parsel::parse_str::<parsel::ast::CustomIdent<K>>(w).is_ok() == declared.contains(w) { return Err(format!("{:?} as an identifier without the keywords {:?}", w, declared)) }
        }
        Ok(())
    }
    /// Accepts this word and no other, and prints it.
    pub fn keyword<T: Parse + ToTokens + std::fmt::Display + std::fmt::Debug + std::str::FromStr<Err = parsel::Error> + Default + Copy + Eq + Ord + std::hash::Hash + AsRef<str> + PartialEq<String> + PartialOrd<String> + Into<parsel::proc_macro2::TokenTree>>(own: &str) -> Res {
        for w in WORDS.iter().copied().chain(Some(own)) {
            CHECKS.fetch_add(1, Ordering::Relaxed);
            if parsel::parse_str::<T>(w).is_ok() != (w == own) || w.parse::<T>().is_ok() != (w == own) { return Err(format!("the keyword {:?} on {:?}", own, w)) }
            let k = T::default();
            if (k == w.to_string()) != (w == own) || k.partial_cmp(&w.to_string()) != Some(own.cmp(w)) { return Err(format!("the keyword {:?} compared with {:?}", own, w)) }
        }
        ok::<T>(own)?;
        let k = T::default();
        let t: parsel::proc_macro2::TokenTree = k.into();
        is("token", t.to_string(), own.into())?; is("display", k.to_string(), own.into())?; is("debug", format!("{:?}", k), own.into())?; is("str", k.as_ref().to_string(), own.into())?; is("equal", (k == T::default(), k.cmp(&T::default())), (true, std::cmp::Ordering::Equal))
    }

    /// A node of no tokens, whatever its parameter.
    pub struct Ph<T: ?Sized>(pub PhantomData<T>);
    impl<T: ?Sized> Parse for Ph<T> { fn parse(_: ParseStream<'_>) -> parsel::Result<Self> { Ok(Ph(PhantomData)) } }
    impl<T: ?Sized> ToTokens for Ph<T> { fn to_tokens(&self, _: &mut TokenStream) {} }
    /// N nodes.
    pub struct Arr<T, const N: usize>(pub Vec<T>);
    impl<T: Parse, const N: usize> Parse for Arr<T, N> { fn parse(i: ParseStream<'_>) -> parsel::Result<Self> { Ok(Arr((0..N).map(|_| i.parse()).collect::<parsel::Result<_>>()?)) } }
    impl<T: ToTokens, const N: usize> ToTokens for Arr<T, N> { fn to_tokens(&self, t: &mut TokenStream) { for x in &self.0 { x.to_tokens(t) } } }
    /// A borrowed thing that is a node.
    pub struct Ref<'a, T: ?Sized>(pub PhantomData<&'a T>);
    impl<'a, T: ?Sized> Parse for Ref<'a, T> { fn parse(_: ParseStream<'_>) -> parsel::Result<Self> { Ok(Ref(PhantomData)) } }
    impl<'a, T: ?Sized> ToTokens for Ref<'a, T> { fn to_tokens(&self, _: &mut TokenStream) {} }
    /// A type, in other words.
    #[macro_export]
    macro_rules! same { ($t:ty) => { $t } }
    pub trait Same { type Out; }
    impl<T> Same for T { type Out = T; }
    pub type SameAs<T> = T;
    /// Neither parsed nor printed, and either of them.
    pub struct Neither;
    pub struct OnlyParse;
    impl Parse for OnlyParse { fn parse(_: ParseStream<'_>) -> parsel::Result<Self> { Ok(OnlyParse) } }
    pub struct OnlyTokens;
    impl ToTokens for OnlyTokens { fn to_tokens(&self, _: &mut TokenStream) {} }
    /// Parsed if the parameter is, but printed in any case, and the other way around.
    pub struct IfParse<T>(pub PhantomData<T>);
    impl<T: Parse> Parse for IfParse<T> { fn parse(_: ParseStream<'_>) -> parsel::Result<Self> { Ok(IfParse(PhantomData)) } }
    impl<T> ToTokens for IfParse<T> { fn to_tokens(&self, _: &mut TokenStream) {} }
    pub struct IfTokens<T>(pub PhantomData<T>);
    impl<T> Parse for IfTokens<T> { fn parse(_: ParseStream<'_>) -> parsel::Result<Self> { Ok(IfTokens(PhantomData)) } }
    impl<T: ToTokens> ToTokens for IfTokens<T> { fn to_tokens(&self, _: &mut TokenStream) {} }
    /// A type with an associated type.
    pub trait Tr { type Out; type Other; const K: usize = 2; }
    pub struct Good;
    impl Tr for Good { type Out = parsel::ast::LitUint; type Other = parsel::ast::Word; }
    pub struct Bad;
    impl Tr for Bad { type Out = Neither; type Other = OnlyTokens; }
    pub struct Half;
    impl Tr for Half { type Out = OnlyParse; type Other = parsel::ast::LitUint; }
}
