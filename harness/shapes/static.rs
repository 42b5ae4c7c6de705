// Shapes that the derives support. Every shape is a module with a function `run`.
shape! { named
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct S { pub a: LitUint, b: Word, pub(crate) c: Token![,] }
    pub fn run() -> Res { ok::<S>("1 x ,")?; no::<S>("1 x 2", "error parsing S::c, caused by:\n")?; no::<S>("x", "error parsing S::a, caused by:\n")?; is("display", "1 x,".parse::<S>().unwrap().to_string(), "1 x ,".into()) }
}
shape! { tuple
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct S(LitUint, pub Word, Token![,]);
    pub fn run() -> Res { ok::<S>("1 x ,")?; no::<S>("1 2", "error parsing S::1, caused by:\n") }
}
shape! { units
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct A;
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct B();
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct C {}
    #[derive(Parse, ToTokens, FromStr, Display, PartialEq, Debug)] pub enum D { U, T(), N {} }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum E {}
    pub fn run() -> Res { ok::<A>("")?; ok::<B>("")?; ok::<C>("")?; ok::<D>("")?; no::<A>("1", "")?; no::<D>("x", "")?; is("first", parsel::parse_str::<D>("").unwrap(), D::U)?; no::<E>("", "")?; no::<E>("x", "") }
}
shape! { empty_enum_generic
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum E<T> where T: Copy { V(Ph<T>, LitUint) }
    #[derive(ToTokens, Parse)] pub enum Void {}
    pub fn run() -> Res { ok::<E<u8>>("1")?; no::<Void>("", "") }
}
shape! { one_variant_each
    #[derive(Parse, ToTokens)] pub enum T { V(LitUint, Word) }
    #[derive(Parse, ToTokens)] pub enum N { V { a: LitUint, b: Word } }
    pub fn run() -> Res { ok::<T>("1 x")?; ok::<N>("1 x")?; no::<T>("1 1", "error parsing T::V::1, caused by:\n")?; no::<N>("1 1", "error parsing N::V::b, caused by:\n") }
}
shape! { generated_names_as_fields
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct S { input: LitUint, tokens: Word, error: LitUint, result: Word, cause: LitUint, ast_node: Word, err: LitUint, body: Word, formatter: LitUint, string: Word, r#self_: LitUint }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum E { V { input: LitUint, tokens: Word, error: LitUint, result: Word, cause: LitUint, ast_node: Word, err: LitUint, string: Word, formatter: Token![;], binding0: LitUint, field_0: LitUint, parsel_field_V_0: Word }, tokens { tokens: LitUint }, input { input: Word }, error(Token![+]) }
    pub fn run() -> Res { ok::<S>("1 a 2 b 3 c 4 d 5 e 6")?; ok::<E>("1 a 2 b 3 c 4 d; 5 6 e")?; ok::<E>("7")?; ok::<E>("w")?; ok::<E>("+")?; no::<S>("1 2", "error parsing S::tokens, caused by:\n") }
}
shape! { raw_names
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct r#struct { r#type: LitUint, r#fn: Word, r#match: LitUint, normal: Word }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum r#enum { r#if { r#else: LitUint, r#where: Word }, r#loop(Word, LitUint), r#try(Word) }
    pub fn run() -> Res { ok::<r#struct>("1 a 2 b")?; ok::<r#enum>("1 x")?; ok::<r#enum>("x 1")?; ok::<r#enum>("x")?; no::<r#struct>("1 2", "error parsing ")?; no::<r#enum>("1 2", "error parsing ") }
}
shape! { unicode_and_case
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct Größe { länge: LitUint, Breite: Word, __x: LitUint, _Y: Word }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum snake_case { lower(LitUint), UPPER { X: Word }, Été { ß: Token![,] }, _Hidden(Token![+]) }
    pub fn run() -> Res { ok::<Größe>("1 a 2 b")?; ok::<snake_case>("1")?; ok::<snake_case>("a")?; ok::<snake_case>(",")?; ok::<snake_case>("+")?; no::<Größe>("a", "error parsing Größe::länge, caused by:\n") }
}
shape! { prelude_names_as_variants
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum E { Ok(LitUint), Err(Word), Some(Token![,]), None(Token![;]), Result { a: Token![+] }, Option { b: Token![-] }, Box(Token![*]), Self_(Token![/]), Vec(Token![%]), String(Token![&]), Default(Token![^]), Parse(Token![|]), ToTokens(Token![!]), Error(Token![?]), TokenStream(Token![@]), Iterator(Token![#]), Into(Token![=]), From(Token![$]) }
    pub fn run() -> Res { for s in ["1", "x", ",", ";", "+", "-", "*", "/", "%", "&", "^", "|", "!", "?", "@", "#", "=", "$"] { ok::<E>(s)? } no::<E>("<", "error parsing E::") }
}
shape! { prelude_names_in_scope
    #[allow(unused)] pub enum MyOption<T> { Some(T), None }
    #[allow(unused)] use MyOption::*;
    #[allow(unused)] use self::MyResult::{Err, Ok};
    #[allow(unused)] pub enum MyResult { Ok, Err }
    #[allow(unused)] pub struct Result; #[allow(unused)] pub struct Option; #[allow(unused)] pub struct Box2; #[allow(unused)] pub struct Parse2; #[allow(unused)] pub struct Error; #[allow(unused)] pub struct TokenStream; #[allow(unused)] pub struct Formatter; #[allow(unused)] pub struct Vec; #[allow(unused)] pub struct String; #[allow(unused)] pub struct Self_;
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct S { a: LitUint, b: Word }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum E { A(LitUint, Word), B { x: Word }, C }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum V {}
    pub fn run() -> Res { ok::<S>("1 x")?; ok::<E>("1 x")?; ok::<E>("x")?; ok::<E>("")?; no::<S>("x", "error parsing S::a, caused by:\n")?; no::<V>("", "") }
}
shape! { own_types_named_like_generated_paths
    #[allow(unused)] mod core { } #[allow(unused)] mod parsel { } #[allow(unused)] mod std { } #[allow(unused)] mod syn { }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum E { A(LitUint, Word), B { x: Word } }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct str(LitUint);
    pub fn run() -> Res { ok::<E>("1 x")?; ok::<E>("x")?; ok::<str>("1")?; no::<E>("1", "error parsing E::") }
}
shape! { other_traits_in_scope
    #[allow(unused)] pub trait Foreign { fn parse(&self) -> u8 { 1 } fn fork(&self) -> u8 { 2 } fn map_err<T>(self, _: T) -> u8 where Self: Sized { 3 } fn to_tokens(&self, _: u8) {} fn unwrap_or_else<T>(self, _: T) -> u8 where Self: Sized { 4 } fn error(&self, _: u8) -> u8 { 5 } }
    impl<T> Foreign for T {}
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct S { a: LitUint, b: Word }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum E { A(LitUint, Word), B { x: Word } }
    #[derive(Parse, ToTokens)] pub enum V {}
    pub fn run() -> Res { ok::<S>("1 x")?; ok::<E>("1 x")?; ok::<E>("x")?; no::<E>(",", "error parsing E::")?; no::<V>("", "") }
}
shape! { lifetimes
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct A<'a>(Ref<'a, str>, LitUint);
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum B<'a, 'b: 'a, T: 'a> { X { r: Ref<'a, T>, n: LitUint }, Y(Ref<'b, u8>, Word) }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct C<'a, T: ?Sized> where T: 'a { r: Ref<'a, T>, n: LitUint, f: Ph<dyn Fn(&str) -> &str + 'a> }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct H<T>(Ph<T>, LitUint) where for<'x> &'x T: Sized, T: for<'y> Fn(&'y u8) -> &'y u8;
    pub fn run() -> Res { ok::<A<'static>>("1")?; ok::<B<'_, 'static, u8>>("1")?; ok::<B<'_, '_, u8>>("x")?; ok::<C<'static, str>>("1")?; ok::<H<fn(&u8) -> &u8>>("1") }
}
shape! { const_generics
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct A<const N: usize>(Arr<LitUint, N>);
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum B<T, const N: usize, const F: bool = true> where T: Clone { X(Arr<T, N>, Token![;]), Y { z: Arr<Word, 2> } }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct C<const CH: char>(Ph<[u8; 2]>, LitUint) where ;
    pub fn run() -> Res { ok::<A<0>>("")?; ok::<A<3>>("1 2 3")?; no::<A<3>>("1 2", "error parsing A::0, caused by:\n")?; ok::<B<LitUint, 2>>("1 2;")?; ok::<B<LitUint, 2, false>>("x y") }
}
shape! { type_parameters
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct A<T, U = Word>(T, U);
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct B<T: Clone, U>  where U: Clone + PartialEq<T>, T: ::std::fmt::Debug { t: T, u: U }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum C<T, Input, Tokens> { X(T), Y { y: Input }, Z(Tokens) }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct D<Parse, ToTokens>(Parse, ToTokens);
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct F<input, tokens, error>(input, tokens, error);
    pub fn run() -> Res { ok::<A<LitUint>>("1 x")?; ok::<A<LitUint, Token![,]>>("1,")?; ok::<B<LitUint, LitUint>>("1 2")?; ok::<C<LitUint, Word, Token![;]>>("1")?; ok::<C<LitUint, Word, Token![;]>>("x")?; ok::<C<LitUint, Word, Token![;]>>(";")?; ok::<D<LitUint, Word>>("1 x")?; ok::<F<LitUint, Word, LitUint>>("1 x 2") }
}
shape! { associated_types
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct A<T: Tr>(T::Out, <T as Tr>::Other);
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum B<T> where T: Tr, T::Out: Sized { X { a: T::Out, b: Maybe<token::Comma, T::Other> }, Y(Any<<T as Tr>::Other>) }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct C<I: Iterator>(I::Item, Paren<<I as Iterator>::Item>) where I::Item: Clone;
    pub fn run() -> Res {
        ok::<A<Good>>("1 x")?; ok::<B<Good>>("1, x")?; ok::<B<Good>>("x y")?; ok::<C<std::vec::IntoIter<LitUint>>>("1 (2)")?;
        is("bounds", (impls!(A<Good>: parsel::Parse), impls!(A<Bad>: parsel::Parse), impls!(A<Half>: parsel::Parse), impls!(A<Half>: parsel::ToTokens), impls!(A<Good>: std::fmt::Display), impls!(A<Half>: std::fmt::Display), impls!(A<Half>: std::str::FromStr)), (true, false, true, false, true, false, true))
    }
}
shape! { bounds_are_those_of_the_fields
    // the parameters need nothing themselves
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct A<T>(Ph<T>, LitUint);
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum B<T, U> { X(T), Y { u: IfParse<U> }, Z(IfTokens<U>) }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct C<T>(#[parsel(recursive)] Ph<T>, #[parsel(recursive)] LitUint);
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct D<T>(Any<T>, Maybe<token::Comma, Box<T>>);
    #[derive(Parse)] pub struct E<T>(T);
    #[derive(ToTokens)] pub struct F<T>(T);
    macro_rules! all { ($t:ty) => { (impls!($t: parsel::Parse), impls!($t: parsel::ToTokens), impls!($t: std::str::FromStr), impls!($t: std::fmt::Display)) } }
    pub fn run() -> Res {
        is("A", all!(A<Neither>), (true, true, true, true))?;
        is("B of nodes", all!(B<LitUint, LitUint>), (true, true, true, true))?;
        is("B of one not parsed", all!(B<OnlyTokens, LitUint>), (false, true, false, true))?;
        is("B of one not printed", all!(B<OnlyParse, LitUint>), (true, false, true, false))?;
        is("B of none", all!(B<Neither, LitUint>), (false, false, false, false))?;
        is("B of another not parsed", all!(B<LitUint, OnlyTokens>), (false, true, false, true))?;
        is("B of another not printed", all!(B<LitUint, OnlyParse>), (true, false, true, false))?;
        is("C", all!(C<Neither>), (true, true, true, true))?;
        is("D of nodes", all!(D<LitUint>), (true, true, true, true))?;
        is("D of none", all!(D<Neither>), (false, false, false, false))?;
        is("D of parsed", all!(D<OnlyParse>), (true, false, true, false))?;
        is("E", all!(E<LitUint>), (true, false, false, false))?;
        is("E of printed", all!(E<OnlyTokens>), (false, false, false, false))?;
        is("F", all!(F<LitUint>), (false, true, false, false))?;
        is("F of parsed", all!(F<OnlyParse>), (false, false, false, false))
    }
}
shape! { recursion
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum A { Leaf(LitUint), Node(#[parsel(recursive)] Paren<Any<A>>) }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct B { a: LitUint, #[parsel(recursive = true)] b: Maybe<Token![,], Box<B>> }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum C { X { n: Word, #[parsel(recursive)] d: Bracket<Box<D>> }, Y(Token![;]) }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct D(Token![+], #[parsel(recursive)] Any<C>, #[parsel(recursive = false)] Maybe<LitUint>);
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct E<T>(T, #[parsel(recursive)] Maybe<Token![,], Box<E<T>>>);
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct F(#[parsel(recursive)] Maybe<Token![,], Box<Self>>, LitUint);
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum G { Leaf(LitUint), Neg(Token![-], #[parsel(recursive)] Box<G>), Both { #[parsel(recursive)] l: Paren<Box<G>>, op: Token![+], #[parsel(recursive)] r: Paren<Box<G>> }, One(#[parsel(recursive)] Paren<Box<G>>) }
    pub fn run() -> Res { ok::<A>("(1 (2 ()) 3)")?; ok::<B>("1, 2, 3")?; ok::<C>("x [+ y [+ ; 2] ; 1]")?; ok::<E<LitUint>>("1, 2")?; ok::<E<Word>>("a, b, c")?; ok::<F>(", , 2 1 0")?; ok::<G>("- - 1")?; ok::<G>("((1) + (- 2)) + (((3)))")?; no::<B>("1,", "error parsing B::b, caused by:\n") }
}
shape! { mutual_recursion
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct Expr(Separated<Term, Token![+]>);
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum Term { Num(LitUint), Group(#[parsel(recursive)] Paren<Box<Expr>>), Block { #[parsel(recursive)] block: Block } }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct Block(#[parsel(recursive)] Brace<Punctuated<Box<Expr>, Token![;]>>);
    pub fn run() -> Res { ok::<Expr>("1 + (2 + {3; 4 + (5);}) + {}")?; no::<Expr>("1 + (2 +)", "error parsing Expr::0, caused by:\n") }
}
shape! { attributes_and_discriminants
    /// Documented.
    #[derive(Parse, ToTokens, FromStr, Display)] #[repr(C)] #[non_exhaustive] #[must_use]
    pub struct S { /// A field.
        #[allow(dead_code)] #[doc(hidden)] pub a: LitUint, #[cfg(any())] gone: Missing, #[cfg(all())] #[parsel()] b: Word, #[cfg_attr(all(), allow(dead_code))] c: LitUint }
    #[derive(Parse, ToTokens, FromStr, Display, Clone, Copy, PartialEq, Debug)] #[repr(u8)]
    pub enum E { #[doc = "first"] A = 7, #[allow(dead_code)] B = 3 }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum F { #[cfg(any())] Gone(Missing), #[deprecated] X(#[allow(dead_code)] LitUint, #[cfg(any())] Missing), #[non_exhaustive] Y { #[cfg(any())] z: Missing, a: Word } }
    pub fn run() -> Res { ok::<S>("1 x 2")?; no::<S>("1 2", "error parsing S::b, caused by:\n")?; ok::<E>("")?; is("first", parsel::parse_str::<E>("").unwrap(), E::A)?; ok::<F>("1")?; ok::<F>("x") }
}
shape! { declared_by_macros
    macro_rules! node { ($n:ident { $($f:ident: $t:ty),* }) => { #[derive(Parse, ToTokens, FromStr, Display)] pub struct $n { $($f: $t),* } } }
    macro_rules! choice { ($n:ident { $($v:ident($($t:ty),*)),* }) => { #[derive(Parse, ToTokens, FromStr, Display)] pub enum $n { $($v($($t),*)),* } } }
    macro_rules! hidden { ($n:ident) => { #[derive(Parse, ToTokens, FromStr, Display)] pub struct $n { input: LitUint, tokens: Word } impl $n { pub fn a(&self) -> u64 { self.input.value() } } } }
    macro_rules! generic { ($n:ident<$($p:ident),*>($($t:ty),*)) => { #[derive(Parse, ToTokens, FromStr, Display)] pub struct $n<$($p),*>($($t),*); } }
    node!(A { a: LitUint, tokens: Maybe<Token![,], Word>, input: Paren<Any<LitUint>> });
    choice!(B { X(LitUint, Maybe<Token![,]>), Y(Word), Z() });
    hidden!(C);
    generic!(D<T, U>(T, Maybe<token::Comma, U>));
    macro_rules! rec { ($n:ident, $t:ty) => { #[derive(Parse, ToTokens)] pub struct $n(LitUint, #[parsel(recursive)] $t); } }
    rec!(R, Maybe<Token![,], Box<R>>);
    pub fn run() -> Res { ok::<A>("1, x (2 3)")?; ok::<A>("1 ()")?; ok::<B>("1,")?; ok::<B>("x")?; ok::<B>("")?; ok::<C>("1 x")?; ok::<D<LitUint, Word>>("1, x")?; ok::<R>("1, 2, 3") }
}
shape! { paths
    pub mod inner { use parsel::ast::*; use parsel::*; #[derive(Parse, ToTokens)] pub(in super) struct P(pub(super) LitUint); pub mod deep { #[derive(parsel::Parse, ::parsel::ToTokens)] pub struct Q { pub(in super::super) p: super::P, pub(crate) q: ::parsel::ast::LitUint, r: self::R, s: Option<R> } #[derive(parsel::Parse, parsel::ToTokens)] struct R; #[derive(parsel::Parse, parsel::ToTokens)] struct Option<T>(T); } }
    #[derive(Parse, ToTokens)] pub(crate) struct S(inner::P, inner::deep::Q, self::inner::P, ::parsel::ast::Maybe<::parsel::syn::token::Comma, super::support::Ph<[u8; 3]>>, (LitUint));
    pub fn run() -> Res { ok::<S>("1 2 3 4, 5")?; no::<inner::deep::Q>("1", "error parsing Q::q, caused by:\n") }
}
shape! { other_types_of_the_same_name
    pub mod base {
        use parsel::ast::*; use parsel::*;
        #[derive(Parse, ToTokens)] pub struct List<T>(pub Separated<T, token::Comma>);
        #[derive(Parse, ToTokens)] pub enum Either<T, U> { A(T, token::Semi), B(U) }
        #[derive(Parse, ToTokens)] pub struct Node<T> { pub one: T }
    }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct List<T>(base::List<T>);
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct Node<T> { one: Maybe<Token![+], base::Node<T>>, all: parsel::ast::Any<self::base::Node<T>> }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum Either<T, U> { A(parsel::ast::Either<T, U>), B { list: Paren<base::Either<U, T>> } }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct Any<T>(parsel::ast::Any<T>);
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct Bracket<T> { inner: ::parsel::ast::Bracket<T>, #[parsel(recursive)] more: Maybe<Token![,], Box<Bracket<T>>> }
    // a parameter named like the type of another field, and one that is the type's own name elsewhere
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct Pair<Node>(Node, base::Node<Node>);
    macro_rules! all { ($t:ty) => { (impls!($t: parsel::Parse), impls!($t: parsel::ToTokens), impls!($t: std::str::FromStr), impls!($t: std::fmt::Display)) } }
    pub fn run() -> Res {
        ok::<List<LitUint>>("1, 2")?; ok::<Node<Word>>("+ a b c")?; ok::<Node<Word>>("")?; ok::<Either<Word, LitUint>>("a")?; ok::<Either<Word, LitUint>>("(1;)")?; ok::<Either<Word, LitUint>>("(a)")?;
        ok::<Any<Word>>("a b")?; ok::<Bracket<Word>>("[a], [b]")?; ok::<Pair<Word>>("a b")?; no::<Pair<Word>>("a 1", "error parsing Pair::1, caused by:\nerror parsing Node::one, caused by:\n")?;
        is("List", (all!(List<LitUint>), all!(List<OnlyTokens>), all!(List<OnlyParse>)), ((true, true, true, true), (false, true, false, true), (true, false, true, false)))?;
        is("Bracket", (all!(Bracket<LitUint>), all!(Bracket<OnlyTokens>), all!(Bracket<OnlyParse>)), ((true, true, true, true), (false, true, false, true), (true, false, true, false)))?;
        is("Either", (all!(Either<LitUint, Neither>), all!(Either<OnlyParse, LitUint>)), ((false, false, false, false), (true, false, true, false)))
    }
}
shape! { in_functions
    pub fn run() -> Res {
        #[derive(Parse, ToTokens, FromStr, Display)] struct S { a: LitUint, b: Local<Word> }
        #[derive(Parse, ToTokens, FromStr, Display)] struct Local<T>(T, Maybe<token::Comma, T>);
        #[derive(Parse, ToTokens, FromStr, Display)] enum E { A(S), B { x: Word } }
        let (input, tokens, error) = (1, 2, 3); let _ = (input, tokens, error);
        ok::<S>("1 x, y")?; ok::<E>("1 x")?; ok::<E>("x")
    }
}
shape! { odd_field_types
    #[derive(Parse, ToTokens)] pub struct S<'a, T: 'a + ?Sized>(Ph<&'a T>, Ph<*const T>, Ph<fn(&T) -> (u8, [u8; { 1 + 1 }])>, Ph<dyn Fn(u8) -> u8 + Send + 'a>, Ph<(u8, &'static str)>, Ph<[T; 0]>, Ph<Box<T>>, LitUint) where T: Sized;
    #[derive(Parse, ToTokens)] pub struct W<T>(Ph<Self>, T) where T: Clone;
    #[derive(Parse, ToTokens)] pub enum X<T> { A(Ph<X<u8>>, T), B { s: Ph<Self>, l: LitUint } }
    #[derive(Parse, ToTokens)] pub struct Same(LitUint, LitUint, parsel::ast::LitUint, ::parsel::ast::LitUint);
    pub fn run() -> Res { ok::<S<'static, u8>>("1")?; ok::<W<LitUint>>("1")?; ok::<X<Word>>("a")?; ok::<X<Word>>("1")?; ok::<Same>("1 2 3 4") }
}
shape! { no_prelude
    pub mod bare {
        #![no_implicit_prelude]
        #[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)] pub struct S { pub a: ::parsel::ast::LitUint, b: ::parsel::ast::Word }
        #[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)] pub enum E { A(::parsel::ast::LitUint, ::parsel::ast::Word), B { x: ::parsel::ast::Word } }
        #[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)] pub enum V {}
        #[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)] pub struct U;
    }
    pub fn run() -> Res { ok::<bare::S>("1 x")?; ok::<bare::E>("1 x")?; ok::<bare::E>("x")?; no::<bare::V>("", "")?; ok::<bare::U>("") }
}
shape! { derived_one_at_a_time
    #[derive(Parse)] pub struct P(LitUint);
    #[derive(ToTokens)] pub struct T(LitUint);
    #[derive(Parse, FromStr)] pub enum PF { A(LitUint), B }
    #[derive(ToTokens, Display)] pub enum TD { A(LitUint), B }
    // by hand, and derived from that
    #[derive(FromStr, Display)] pub struct H<T>(T);
    impl<T: parsel::Parse> parsel::Parse for H<T> { fn parse(i: parsel::syn::parse::ParseStream<'_>) -> parsel::Result<Self> { i.parse().map(H) } }
    impl<T: parsel::ToTokens> parsel::ToTokens for H<T> { fn to_tokens(&self, t: &mut parsel::TokenStream) { self.0.to_tokens(t) } }
    pub fn run() -> Res {
        is("P", (parsel::parse_str::<P>("3").unwrap().0).value(), 3)?;
        is("T", parsel::ToTokens::to_token_stream(&T(3.into())).to_string(), "3".into())?;
        is("PF", (matches!("3".parse::<PF>(), Ok(PF::A(x)) if x.value() == 3), matches!("".parse::<PF>(), Ok(PF::B)), "x".parse::<PF>().is_err()), (true, true, true))?;
        is("TD", (TD::A(3.into()).to_string(), TD::B.to_string()), ("3".into(), "".into()))?;
        is("H", "5".parse::<H<LitUint>>().unwrap().to_string(), "5".into())?;
        is("H's bounds", (impls!(H<OnlyParse>: std::str::FromStr), impls!(H<OnlyParse>: std::fmt::Display), impls!(H<OnlyTokens>: std::str::FromStr), impls!(H<OnlyTokens>: std::fmt::Display)), (true, false, false, true))
    }
}
shape! { big
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct S(LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word);
    pub fn run() -> Res { ok::<S>(&"1 x ".repeat(20))?; no::<S>(&("1 x ".repeat(19) + "1 1"), "error parsing S::39, caused by:\n")?; no::<S>(&"1 x ".repeat(21), "") }
}
