//! Grammars that take the rest of the input as tokens, in every place where a part is tried first.
//! (What is left of an input after a token stream has been parsed is not a part of that input any more.)
use crate::eng::{on_stream, rest};
use crate::gram::{g, Cx, Gram};
use crate::model::{Fail, Gr, Model, V};
use crate::report::{guard, Rec, Res, Run};
use crate::rng::Rng;
use crate::tok::{lex, lex_str, show};
use gram_derive::Gram;
use parsel::ast::*;
use parsel::syn::parse::ParseStream;
use parsel::{Parse, ToTokens, TokenStream};

type S = TokenStream;
macro_rules! node { ($($i:item)*) => { $(#[derive(Parse, ToTokens, Gram)] $i)* } }
node! {
    pub enum R1 { N(LitUint, Eof), P(Paren<Word>, S), Bang(Token![!], S), Semi { w: Word, semi: Token![;] }, Others(S) }
    pub enum R2 { A(Word, S, Word), B(Brace<Word>, S, Eof), C(Word, Either<LitUint, S>), D(#[parsel(recursive)] Paren<Box<R2>>, Maybe<Token![!], S>), N(LitUint) }
    pub struct R3 { pre: Maybe<Token![!], S>, end: Eof }
    pub struct R4 { head: Either<Paren<Word>, R1>, tail: Maybe<Token![,], S>, end: Eof }
    pub enum R5 { W(Word), Tail(Token![;], S) }
    pub enum R6 { L(#[parsel(recursive)] Paren<Box<R6>>, S), M(#[parsel(recursive)] Bracket<Any<R6>>), Z(Token![;], R7), W(Word) }
    pub struct R7 { rest: S, end: Eof, more: Any<Word>, also: S }
    pub struct R8(Maybe<Word, S>, Empty, Maybe<Word, S>);
    pub enum R9 { NotAtEnd(S, NotEof), Semi(S, Token![;]), Maybe(S, Maybe<Token![;]>, Any<Token![;]>, Eof) }
    pub struct Bang(Token![!], S);
    pub enum Sep { Comma(Token![,]), Semi(Token![;], S) }
}
type Op = (&'static str, fn() -> Gr, fn(&str) -> parsel::Result<(V, TokenStream)>, fn(ParseStream<'_>) -> parsel::Result<V>);

fn full<T: Gram>(s: &str) -> parsel::Result<(V, TokenStream)> { parsel::parse_str::<T>(s).map(|x| (x.dump(&mut Cx::default()), x.to_token_stream())) }
fn part<T: Gram>(p: ParseStream<'_>) -> parsel::Result<V> { p.parse::<T>().map(|x| x.dump(&mut Cx::default())) }
macro_rules! ops { ($($t:ty),* $(,)?) => { &[$((stringify!($t), g::<$t>, full::<$t>, part::<$t>)),*] } }
type M = Maybe<Word>;
const OPS: &[Op] = ops![
    R1, R2, R3, R4, R5, R6, R7, R8, R9, Any<R5>, Many<R5>, Any<Sep>, Punctuated<R5, Token![,]>, Separated<R5, Token![,]>, Separated<Word, Sep>, Separated<M, Sep>, Punctuated<M, Sep>,
    LeftAssoc<Token![,], R5>, RightAssoc<Token![,], R5>, LeftAssoc<Sep, M>, RightAssoc<Sep, M>, LeftAssoc<Sep, Word>, RightAssoc<Sep, Either<Word, S>>,
    Maybe<Bang>, Maybe<Bang, Eof>, Maybe<Bang, NotEof>, Maybe<Bang, Word>, Maybe<Bang, S>, Maybe<Either<Bang, Word>, M>, Maybe<S, M>, Maybe<S, Eof>,
    Either<S, Word>, Either<Word, S>, Either<Either<Bang, LitUint>, Maybe<Token![,], S>>, Either<Either<Either<LitUint, R2>, Bang>, S>, Either<R9, R1>,
    Paren<R1>, Bracket<Any<R5>>, Any<Brace<R1>>, Any<Either<Paren<S>, Word>>, Brace<Either<Paren<S>, S>>, Separated<Paren<R1>, Either<Token![,], Bang>>, Any<Either<Bang, Either<Paren<R6>, Word>>>,
];
pub const N: u64 = OPS.len() as u64;

/// A text of few different tokens, so that every part is met often.
fn text(r: &mut Rng, depth: usize, o: &mut String) {
    for _ in 0..*r.pick(&[0, 1, 1, 2, 2, 3, 4, 6]) {
        let k = r.below(if depth > 3 { 13 } else { 17 });
        match k {
            0..=4 => o.push_str(*r.pick(&["a", "b", "fn"])),
            5 | 6 => o.push('1'),
            7 | 8 => o.push(';'),
            9 | 10 => o.push(','),
            11 => o.push('!'),
            12 => o.push_str(*r.pick(&["+ -", "+-", "'l", "\"s\"", "-1"])),
            _ => { let (a, b) = *r.pick(&[("(", ")"), ("(", ")"), ("[", "]"), ("{", "}")]); o.push_str(a); if k == 13 { o.push_str("a") } else { text(r, depth + 1, o) } o.push_str(b) }
        }
        o.push_str(*r.pick(&[" ", " ", "\n", " /* c */ "]));
    }
}

fn pick(r: &mut Rng, idx: u64) -> (&'static Op, String) {
    let op = &OPS[idx as usize % OPS.len()];
    let mut s = String::new();
    let wrap = if r.chance(1, 2) { match op.0.split('<').next().unwrap() { "Paren" => Some(("(", ")")), "Bracket" => Some(("[", "]")), "Brace" => Some(("{", "}")), _ => None } } else { None };
    if let Some(w) = wrap { s.push_str(w.0) }
    text(r, 0, &mut s);
    if let Some(w) = wrap { s.push_str(w.1) }
    (op, s)
}

/// Accepted or not, the value, the printed tokens, and where parsing goes on, against the model.
pub fn go(r: &mut Rng, rec: &mut Rec, idx: u64) -> Res {
    let (op, s) = pick(r, idx);
    let tks = lex_str(&s).ok_or("harness: does not lex")?;
    rec.what = format!("{} on {:?}", op.0, s);
    let part = match Model::new(20_000).p(op.1(), &tks, 0) { Err(Fail::Budget) => return Ok(()), Err(Fail::No) => None, Ok(x) => Some(x) };
    let whole = match &part { Some((v, n, false)) if *n == tks.len() => Some(v), _ => None };
    match (op.2(&s), whole) {
        (Ok((v, t)), Some(w)) => {
            if v != *w { return Err(format!("{} parsed {:?} to {:?} instead of {:?}", op.0, s, v.k, w.k)) }
            let (a, b) = (show(&lex(t), false, true), show(&tks, false, true));
            if a != b { return Err(format!("{} parsed from {:?} prints as [{}]", op.0, s, a)) }
            rec.count("accepted");
        }
        (Err(_), None) => rec.count("rejected"),
        (Ok((v, _)), None) => return Err(format!("{} accepted {:?} as {:?}, its grammar does not", op.0, s, v.k)),
        (Err(e), Some(w)) => return Err(format!("{} rejected {:?} ({}), its grammar gives {:?}", op.0, s, e, w.k)),
    }
    on_stream(&s, |p| -> Res {
        let got = (op.3)(p);
        let left = rest(p);
        match (got, &part) {
            (Ok(v), Some((w, n, _))) => {
                let want = show(&tks[*n..], true, false);
                if v != *w || left != want { return Err(format!("{} parsed the beginning of {:?} to {:?} with [{}] left, instead of {:?} with [{}] left", op.0, s, v.k, left, w.k, want)) }
                rec.count("accepted a prefix");
                Ok(())
            }
            (Err(_), None) => Ok(()),
            (Ok(v), None) => Err(format!("{} parsed the beginning of {:?} as {:?} although its grammar rejects it", op.0, s, v.k)),
            (Err(e), Some((w, ..))) => Err(format!("{} rejected the beginning of {:?} ({}) although its grammar accepts it as {:?}", op.0, s, e, w.k)),
        }
    })?;
    rec.case(&format!("{} <- {}", op.0, show(&tks, true, false)), !tks.is_empty());
    Ok(())
}

/// Nothing panics.
pub fn calm(r: &mut Rng, rec: &mut Rec, idx: u64) -> Res {
    let (op, s) = pick(r, idx);
    rec.what = format!("{} on {:?}", op.0, s);
    // repetitions of nothing do not end
    if matches!(Model::new(20_000).p(op.1(), &lex_str(&s).ok_or("harness: does not lex")?, 0), Err(Fail::Budget)) { return Ok(()) }
    match guard(|| op.2(&s).map(|(_, t)| t.to_string()).map_err(|e| format!("{} {:?} {}", e, e, e.to_compile_error())).is_ok()) {
        Ok(ok) => { rec.count(if ok { "accepted" } else { "rejected" }); rec.case(&rec.what.clone(), true); Ok(()) }
        Err(m) => Err(format!("{} on {:?} panicked: {}", op.0, s, m)),
    }
}

pub fn section(run: &Run) { run.section("the rest of the input as tokens", run.n(3000, 20) * N, go) }
