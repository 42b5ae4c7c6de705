//! Hand-written node types: realistic grammars and one type per combinator corner.
use crate::ops::{tx, ty, TypeOps};
use crate::probe::{Probe, Vex};
use gram_derive::Gram;
use parsel::ast::*;
use parsel::{Display, FromStr, Parse, ToTokens};

parsel::define_keywords! { pub mod kw { alpha => Alpha; beta => Beta; foo => Foo; foobar => Foobar; loop => Loop; r#type => Type; _ => Und; } }
crate::gram_keywords!(kw: "alpha" => Alpha, "beta" => Beta, "foo" => Foo, "foobar" => Foobar, "loop" => Loop, "r#type" => Type, "_" => Und);
parsel::define_keywords! { pub mod kx { if => If; self => SelfKw; a => A; } }
crate::gram_keywords!(kx: "if" => If, "self" => SelfKw, "a" => A);

parsel::define_keywords! { mod kempty { } }
parsel::define_keywords! { pub(crate) mod kund { _ => Only; } }
parsel::define_keywords! { pub mod kone { word => Word1; } }
parsel::define_keywords! { pub mod kpre { f => F; fo => Fo; foo => Foo; Foo => Foo2; foo_ => Foo3; _foo => Foo4; FOO => FOO; foo1 => Foo5; r#foo => Foo6; __ => Dunder; } }
parsel::define_keywords! { pub mod khost { as => As; const => Const; crate => Crate; Self => SelfType; super => Super; true => True; false => False; union => Union; async => Async; await => Await; dyn => Dyn; try => Try; r#fn => Fn; fn => Fn2; é => E; macro => Macro; } }

pub fn keyword_modules() -> Vec<crate::kwops::KwMod> {
    vec![
        crate::keyword_ops!(kw: "alpha" => Alpha, "beta" => Beta, "foo" => Foo, "foobar" => Foobar, "loop" => Loop, "r#type" => Type, "_" => Und),
        crate::keyword_ops!(kx: "if" => If, "self" => SelfKw, "a" => A),
        crate::keyword_ops!(kempty: ),
        crate::keyword_ops!(kund: "_" => Only),
        crate::keyword_ops!(kone: "word" => Word1),
        crate::keyword_ops!(kpre: "f" => F, "fo" => Fo, "foo" => Foo, "Foo" => Foo2, "foo_" => Foo3, "_foo" => Foo4, "FOO" => FOO, "foo1" => Foo5, "r#foo" => Foo6, "__" => Dunder),
        crate::keyword_ops!(khost: "as" => As, "const" => Const, "crate" => Crate, "Self" => SelfType, "super" => Super, "true" => True, "false" => False, "union" => Union, "async" => Async, "await" => Await, "dyn" => Dyn, "try" => Try, "r#fn" => Fn, "fn" => Fn2, "é" => E, "macro" => Macro),
        // a list that nothing is on
        crate::kwops::kw_mod::<AllowAll>("AllowAll", vec![]),
    ]
}

pub type Id = CustomIdent<kw::Keywords>;
pub type Ix = CustomIdent<kx::Keywords>;

macro_rules! node { ($($i:item)*) => { $(#[derive(PartialEq, Eq, Hash, Debug, Clone, Parse, ToTokens, FromStr, Display, Gram)] $i)* } }

node! {
    // ---- JSON
    pub enum Json { Null(Word2), Bool(LitBool), Num(LitFloat), Int(LitInt), Str(LitStr), Arr(#[parsel(recursive)] Bracket<Punctuated<Json, Token![,]>>), Obj(#[parsel(recursive)] Brace<Punctuated<Pair, Token![,]>>) }
    pub struct Pair { key: LitStr, colon: Token![:], #[parsel(recursive)] value: Box<Json> }
    pub struct Word2(kw::Alpha);

    // ---- expressions with precedence
    pub struct Expr(#[parsel(recursive)] LeftAssoc<CmpOp, Sum>);
    pub struct Sum(#[parsel(recursive)] LeftAssoc<AddOp, Prod>);
    pub struct Prod(#[parsel(recursive)] LeftAssoc<MulOp, Pow>);
    pub struct Pow(#[parsel(recursive)] RightAssoc<Token![^], Unary>);
    pub enum Unary { Neg(Token![-], #[parsel(recursive)] Box<Unary>), Not { bang: Token![!], #[parsel(recursive)] of: Box<Unary> }, Term(#[parsel(recursive)] Term) }
    pub enum Term { Call(Id, #[parsel(recursive)] Paren<Punctuated<Box<Expr>, Token![,]>>), Var(Id), Lit(Lit), Group(#[parsel(recursive)] Paren<Box<Expr>>), List(#[parsel(recursive)] Bracket<Maybe<Token![;], Separated<Box<Expr>, Token![,]>>>) }
    pub enum CmpOp { Le(Token![<=]), Lt(Token![<]), EqEq(Token![==]), Ne(Token![!=]) }
    pub enum AddOp { AddEq(Token![+=]), Add(Token![+]), Sub(Token![-]) }
    pub enum MulOp { Mul(Token![*]), Div(Token![/]), Rem { percent: Token![%] } }

    // ---- statements
    pub enum Stmt {
        Let { let_: Token![let], name: Id, ty: Maybe<Token![:], TypeRef>, eq: Token![=], value: Expr, semi: Token![;] },
        If { if_: Token![if], cond: Paren<Expr>, #[parsel(recursive)] then: Block, #[parsel(recursive)] else_: Maybe<Token![else], Either<Box<Stmt>, Block>> },
        While(Token![while], Paren<Expr>, #[parsel(recursive)] Block),
        Assign { place: Id, eq: Token![=], value: Expr, semi: Token![;] },
        Expr(Expr, Token![;]),
        Block(#[parsel(recursive)] Block),
        Empty(Token![;]),
    }
    pub struct Block(#[parsel(recursive)] Brace<Any<Box<Stmt>>>);
    pub enum TypeRef { Path(Separated<Ident, Token![::]>), Array(#[parsel(recursive)] Bracket<Box<TypeRef>>), Fn { fn_: Token![fn], #[parsel(recursive)] args: Paren<Punctuated<Box<TypeRef>, Token![,]>>, #[parsel(recursive)] ret: Maybe<Token![->], Box<TypeRef>> }, Opt(Token![?], #[parsel(recursive)] Box<TypeRef>) }
    pub struct Program(Any<Stmt>, Eof);
    pub struct Module { name: Maybe<Token![mod], Ident>, items: Many<Stmt> }

    // ---- choice corners
    pub enum Prefixes { AB(kx::A, LitUint, Token![,]), A(kx::A, LitUint), Word(Word), Num(LitUint), Grp(Paren<LitUint>, Token![+]), Grp2(Paren<LitUint>), Deep(Paren<Bracket<LitUint>>, Paren<Word>), Deep2(Paren<Bracket<LitUint>>), Nothing }
    pub enum Shadowed { Any(Word), Kw(kw::Foo), Never(kx::If, Token![,]) }
    pub enum LongFirst { Three(Token![..=]), Two(Token![..]), One(Token![.]) }
    pub enum ShortFirst { One(Token![<]), Two(Token![<<]), Three(Token![<<=]) }
    pub enum Nullable { Some(LitUint, LitUint), None }
    pub enum OnlyOne { Only { a: LitUint, b: LitStr } }
    pub enum Never {}
    pub enum Fields { Same(LitUint, LitUint, LitUint), Named { a: Word, b: LitUint, c: Word }, Mixed(Word, LitUint, Token![;]), Last(Word, Word) }
    pub struct Unit;
    pub struct EmptyTuple();
    pub struct EmptyNamed {}
    pub struct Tuple1(LitUint);
    pub struct Order { z: LitUint, a: LitStr, m: Word, b: LitUint }
    pub struct Same(LitUint, LitUint, LitUint, LitUint);
    pub struct Nested { a: Same, b: Maybe<Token![,], Order>, c: Tuple1 }
    pub struct Twelve(LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word, LitUint, Word);
    pub struct NestErr { head: Word, body: Brace<Any2> }
    pub struct Any2 { first: Tuple1, rest: Separated<Fields, Token![,]> }
    pub struct Generic<T, U> { one: T, two: Maybe<token::Comma, U>, three: Paren<T> }
    pub enum GenericE<T, U> { Both(T, U), Left(T), Right { r: U }, Box(Box<T>, token::Semi) }
    pub struct Where<T> where T: Clone { t: Separated<T, token::Comma> }

    // ---- optional, either, ends
    pub struct MaybeBody(Maybe<Token![+], LitUint>, Word);
    pub struct MaybeMulti(Maybe<PreAB, LitUint>, Word, Maybe<Token![,]>);
    pub struct PreAB(kx::A, Token![+]);
    pub struct MaybeGroup(Maybe<Paren<LitUint>, LitUint>, Maybe<Paren<Word>>, Maybe<Bracket<Eof>, Word>);
    pub struct Chain(Maybe<Token![+], Maybe<Token![-], Maybe<Token![*], LitUint>>>, Eof);
    pub struct Ends { a: Any<LitUint>, n: NotEof, g: Paren<EndIn>, e: Eof }
    pub struct EndIn(LitUint, Eof);
    pub struct NotEnd(LitUint, NotEof, Any<Word>);
    pub struct EitherSeq(Either<PreAB, kx::A>, Either<LitUint, Word>, Empty);
    pub struct EitherDeep(Either<Either<PreAB, Paren<LitUint>>, Either<Paren<Word>, Brace<Empty>>>, Maybe<Token![,]>);

    // ---- repetition
    pub struct Item2(Word, LitUint);
    pub struct Items { items: Any<Item2>, rest: Any<Word>, last: Maybe<LitUint> }
    pub struct SepThen { path: Separated<Ident, Token![::]>, tail: Maybe<Token![:], Word>, end: Any<Token![:]> }
    pub struct SepMulti(Separated<Item2, SepAB>, Maybe<Token![,], Token![;]>);
    pub struct SepAB(Token![,], Token![;]);
    pub struct PunctIn(Paren<Punctuated<Item2, Token![,]>>, Bracket<Punctuated<Word, SepEither>>);
    pub struct SepPlus(Token![+], LitUint);
    pub struct SepEither(Either<Token![,], Token![;]>);
    pub struct ManyGroups(Many<Brace<Many<LitUint>>>);

    // ---- for long and deep inputs
    pub struct LongParts { head: Word, items: Any<LitUint>, mid: Token![;], path: Separated<Ident, Token![::]>, mid2: Token![;], tail: Punctuated<Item2, Token![,]>, end: Eof }
    pub enum LongAlt { A(Any<Word>, Token![;], LitUint), B(Any<Word>, Token![,], LitUint), C { words: Any<Word>, end: LitStr } }
    pub struct LongIn { head: Word, body: Brace<LongBody> }
    pub struct LongBody(LitUint, Separated<Word, Token![,]>, Token![;]);
    pub enum DeepEnum { Paren(#[parsel(recursive)] Paren<Box<DeepEnum>>), Brace { #[parsel(recursive)] body: Brace<Box<DeepEnum>>, semi: Token![;] }, Bracket(#[parsel(recursive)] Bracket<Box<DeepEnum>>, #[parsel(recursive)] Maybe<Token![,]>), Leaf(LitUint) }

    // ---- chains
    pub struct Chains(LeftAssoc<AddOp, RightAssoc<Token![->], LeftAssoc<MulOp, Operand>>>);
    pub enum Operand { N(LitUint), W(Ident), P(#[parsel(recursive)] Paren<Box<Chains>>) }
    pub struct Cmp(RightAssoc<CmpOp, LeftAssoc<AddOp, Item2>>, Maybe<Token![;], Word>);

    // ---- delimiters
    pub struct Delims(Paren<LitUint>, Bracket<Word>, Brace<LitStr>);
    pub struct DelimEmpty(Paren<Empty>, Bracket<Maybe<LitUint>>, Brace<Any<Word>>);
    pub struct DelimNest(Paren<Bracket<Brace<Paren<Any<LitUint>>>>>, Any<Paren<Empty>>);
    pub enum DelimChoice { P(Paren<LitUint>), B(Bracket<LitUint>), C(Brace<LitUint>), PW(Paren<Word>), Q(Paren<Pq>) }
    pub struct Pq(LitUint, Word);

    // ---- parts of which the errors are odd
    pub struct Vexed { head: Vex<LitUint>, words: Any<Vex<Word>>, tail: Vex<Token![;]>, last: Vex<Paren<Pq>> }
    pub enum VexedAlt { A(Vex<LitUint>, Vex<Pq>, Vex<Token![,]>), B { x: Vex<LitUint>, y: Vex<LitStr> }, C(Vex<Separated<LitUint, Token![,]>>, Box<Vex<Vexed>>), D(Either<Vex<Token![+]>, Vex<Token![-]>>, Vex<LitUint>) }
    pub enum Alike { Alike(Word, LitUint), Other { Alike: LitUint, Other: Word } }
    pub struct Like { Like: Alike, like: Maybe<Token![,], Alike> }
    pub struct Seps { a: Paren<Separated<Word, Either<Token![,], Token![;]>>>, b: Bracket<Punctuated<Word, Either<Token![,], Token![;]>>>, c: LeftAssoc<Either<Token![+], Token![-]>, LitUint>, d: Brace<RightAssoc<Either<Token![*], Token![/]>, LitUint>> }
    pub struct VexedDeep { v: VexedAlt, #[parsel(recursive)] rest: Maybe<Vex<Token![,]>, Box<VexedDeep>> }
}

pub fn all() -> Vec<Box<dyn TypeOps>> {
    macro_rules! ty { ($($t:ty),* $(,)?) => { vec![$(ty::<$t>(stringify!($t))),*] } }
    macro_rules! tx { ($($t:ty),* $(,)?) => { vec![$(tx::<$t>(stringify!($t))),*] } }
    let mut v: Vec<Box<dyn TypeOps>> = ty![
        Json, Expr, Stmt, Block, TypeRef, Program, Module,
        Prefixes, Shadowed, LongFirst, ShortFirst, Nullable, OnlyOne, Never, Fields, Unit, EmptyTuple, EmptyNamed, Tuple1, Order, Same, Nested, Twelve, NestErr,
        Generic<LitUint, Word>, Generic<Prefixes, Same>, GenericE<LitUint, Word>, GenericE<Word, Fields>, GenericE<Paren<Fields>, Expr>, Where<Item2>,
        MaybeBody, MaybeMulti, MaybeGroup, Chain, Ends, NotEnd, EitherSeq, EitherDeep,
        LongParts, LongAlt, LongIn, LongBody, DeepEnum, Items, SepThen, SepMulti, PunctIn, ManyGroups, Chains, Cmp,
        Vexed, VexedAlt, VexedDeep, Alike, Like, Seps, Delims, DelimEmpty, DelimNest, DelimChoice,
        Pair, Word2, Sum, Prod, Pow, Unary, Term, CmpOp, AddOp, MulOp, Operand, Any2, PreAB, EndIn, Item2, SepAB, SepPlus, SepEither, Pq, Prefixes2, Maybe2,
        // library types as they are
        Any<LitUint>, Any<Word>, Any<Lit>, Any<Item2>, Any<Paren<Word>>, Any<Prefixes2>, Any<Token![,]>, Any<Separated<LitUint, Token![,]>>, Any<Maybe2>,
        Many<Lit>, Many<Word>, Many<Item2>, Many<Fields>, Many<Either<LitUint, Word>>, Many<Paren<Any<Word>>>,
        Punctuated<LitUint, Token![,]>, Punctuated<Word, Token![;]>, Punctuated<Item2, SepAB>, Punctuated<Expr, Token![,]>, Punctuated<Maybe2, Token![,]>,
        Separated<LitUint, Token![,]>, Separated<Ident, Token![::]>, Separated<Item2, SepAB>, Separated<Fields, SepEither>, Separated<Maybe2, Token![,]>,
        LeftAssoc<AddOp, LitUint>, LeftAssoc<Token![,], Item2>, LeftAssoc<SepAB, Word>, LeftAssoc<CmpOp, LeftAssoc<AddOp, LitUint>>,
        RightAssoc<AddOp, LitUint>, RightAssoc<Token![->], Word>, RightAssoc<SepAB, Item2>, RightAssoc<Token![=], RightAssoc<Token![^], LitUint>>, RightAssoc<MulOp, LeftAssoc<AddOp, Ident>>, LeftAssoc<MulOp, RightAssoc<AddOp, Ident>>,
        Maybe<Token![+], LitUint>, Maybe<LitUint>, Maybe<Item2, Word>, Maybe<Paren<Word>, Any<LitUint>>, Maybe<SepAB, Maybe<Token![,], Word>>,
        Either<LitUint, Word>, Either<Item2, Word>, Either<Paren<LitUint>, Paren<Word>>, Either<Either<Item2, PreAB>, Fields>, Either<Same, Either<Order, Any<LitUint>>>, Either<LitInt, LitUint>, Either<LitFloat, Lit>,
        Eof, NotEof, Empty,
        // separators, operators and prefixes that consume nothing, or not always something
        Separated<Word, NotEof>, Separated<Paren<Word>, NotEof>, Separated<LitUint, Empty>, Separated<Word, Maybe<Token![,]>>, Separated<Item2, Either<SepAB, NotEof>>, Punctuated<Word, Maybe<Token![,]>>, Punctuated<Item2, Any<Token![;]>>, Punctuated<LitUint, Empty>, Many<Either<Token![,], Word>>,
        LeftAssoc<NotEof, Operand>, RightAssoc<NotEof, Word>, LeftAssoc<Maybe<Token![*]>, Paren<Word>>, Bracket<LeftAssoc<NotEof, RightAssoc<Token![->], Word>>>,
        Maybe<Eof>, Maybe<NotEof, Word>, Maybe<Empty, Any<Word>>, Maybe<Empty>, Maybe<Eof, Eof>, Maybe<Any<Token![-]>, LitUint>, Maybe<Maybe<Token![#]>, Maybe<NotEof, Word>>, Maybe<Either<Eof, Token![+]>, Maybe<LitUint>>, Paren<Maybe<Eof>>, Any<Maybe3>, Maybe3,
        Paren<LitUint>, Bracket<Word>, Brace<Lit>, Paren<Any<LitUint>>, Bracket<Punctuated<LitUint, Token![,]>>, Brace<Maybe<LitUint>>, Paren<Paren<Paren<Empty>>>, Brace<Eof>, Paren<Item2>, Bracket<Prefixes>,
        LitBool, LitByte, LitInt, LitUint, LitFloat, LitChar, LitStr, LitByteStr, Lit, Id, Ix, Word,
        kw::Alpha, kw::Foo, kw::Foobar, kw::Loop, kw::Type, kw::Und, kx::If, kx::A,
        Any<Id>, Any<Ix>, Any<kx::If>, Many<LitStr>, Many<LitFloat>, Many<LitInt>, Many<LitChar>, Many<LitByteStr>, Separated<LitByte, Token![,]>, Separated<Lit, Token![,]>,
    ];
    v.extend(tx![
        Ident, Token![+], Token![+=], Token![::], Token![->], Token![..=], Token![_], Token![if], Token![self], Token![-],
        Either<Token![+], Token![-]>, Either<Token![-], LitInt>, Either<Token![<], Either<Token![<<=], Ident>>, Maybe<Either<Token![+], SepAB>, Either<Token![,], LitUint>>, Any<Either<Token![::], Token![:]>>, Any<Token![>]>, Separated<Token![*], Either<Token![+], Token![+=]>>, LeftAssoc<Either<Token![-], Token![->]>, Either<LitUint, Ident>>, Box<Expr>, Any<Box<LitUint>>,
        Probe<Fields, 31>,
    ]);
    v
}

node! {
    pub enum Prefixes2 { AB(kx::A, LitUint, Token![,]), A(kx::A, LitUint), Num(LitUint), G(Paren<LitUint>, Token![+]), G2(Paren<LitUint>) }
    pub struct Maybe3(Paren<Maybe<Eof>>, Maybe<NotEof, Either<Token![,], LitUint>>);
    pub struct Maybe2(Word, Maybe<Token![+], LitUint>);
}
