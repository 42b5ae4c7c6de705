//! C12-C16: what printing writes.
use crate::eng::*;
use crate::gen::{Gen, GT};
use crate::lits::LV;
use crate::model::{K, V};
use crate::ops::Node;
use crate::props::scale::scaled;
use crate::report::{Rec, Res, Run};
use crate::rng::Rng;
use crate::tok::{count, lex, lex_str, show, Tk, D, T};
use parsel::proc_macro2::{Group, Ident, Literal, Punct, Spacing, Span, TokenTree};
use parsel::util::{format_tokens_compact, format_tokens_pretty, TokenStreamFormatter};
use parsel::TokenStream;
use std::fmt::Write;

fn tk(t: T) -> Tk { Tk { t, src: (0, 0) } }

/// The tokens a value prints as (literals in a canonical spelling).
pub fn expected(v: &V, out: &mut Vec<Tk>) {
    match &v.k {
        K::Tok(s) if s.starts_with(|c: char| c.is_alphabetic() || c == '_') => out.push(tk(T::Ident(s.clone()))),
        K::Tok(s) => { let n = s.chars().count(); out.extend(s.chars().enumerate().map(|(i, c)| tk(T::Punct(c, i + 1 < n)))) }
        K::Word(s) => out.push(tk(T::Ident(s.clone()))),
        K::Lit(LV::Bool(b)) => out.push(tk(T::Ident(b.to_string()))),
        K::Lit(l) => {
            let neg = match l { LV::Int(i) => *i < 0, LV::Float(f) => f64::from_bits(*f).is_sign_negative(), _ => false };
            if neg { out.push(tk(T::Punct('-', false))) }
            out.push(tk(T::Lit(match l {
                LV::Int(i) => i.unsigned_abs().to_string(),
                LV::Uint(i) => i.to_string(),
                LV::Float(f) => format!("{:?}", f64::from_bits(*f).abs()),
                LV::Byte(b) => format!("b'\\x{:02x}'", b),
                LV::Char(c) => format!("'\\u{{{:x}}}'", *c as u32),
                LV::Str(s) => format!("\"{}\"", s.chars().map(|c| format!("\\u{{{:x}}}", c as u32)).collect::<String>()),
                LV::Bytes(s) => format!("b\"{}\"", s.iter().map(|c| format!("\\x{:02x}", c)).collect::<String>()),
                LV::Bool(_) => unreachable!(),
            })));
        }
        K::Group(d, x) => { let mut i = vec![]; expected(x, &mut i); out.push(tk(T::Group(*d, i))) }
        _ => for k in v.kids() { expected(k, out) },
    }
}

/// whether there is a `-0` (an integer), which may lose its sign as another spelling of the value
fn neg_zero(t: &[Tk]) -> bool {
    t.iter().any(|t| matches!(&t.t, T::Group(_, i) if neg_zero(i))) || t.windows(2).any(|w| matches!((&w[0].t, &w[1].t), (T::Punct('-', _), T::Lit(s)) if matches!(crate::lits::denote(s), crate::lits::Den::Int(Some(0)))))
}

fn short(s: &str) -> String { s.chars().take(900).collect() }

fn accepted(ty: &Ty, r: &mut Rng, rec: &mut Rec, budget: isize) -> Result<Option<(Box<dyn Node>, V, Input)>, String> {
    let Some(gts) = sentence_for(ty.t.g(), r, budget) else { return Ok(None) };
    let l = *r.pick(&LAYOUTS);
    let Some(i) = lay(gts, "sentence", l, r) else { rec.count("inputs the lexer does not read as intended"); return Ok(None) };
    rec.what = format!("{} on {:?}", ty.name(), i.brief());
    let Ok(n) = ty.t.parse_str(&i.s) else { rec.count("generated sentence rejected"); return Ok(None) };
    // whether the value is the right one is decided elsewhere; here printing is judged against it
    let v = n.dump();
    Ok(Some((n, v, i)))
}

fn budget(r: &mut Rng) -> isize { match r.below(20) { 0..=8 => 12, 9..=16 => 45, 17 | 18 => 150, _ => 600 } }

pub fn c12(run: &Run, types: &[Ty]) {
    run.rule("an input of at least one token was accepted and its node printed");
    let sel: Vec<&Ty> = types.iter().collect();
    run.section("printed tokens against the input and the value", run.n(200, 20) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let b = budget(r);
        let Some((n, v, i)) = accepted(ty, r, rec, b)? else { return Ok(()) };
        printed(ty, &*n, &v, &i, rec)
    });
    scaled(run, "long and deep inputs", |c, i, _, rec| { let n = c.parse(&i)?; let v = n.dump(); printed(&c.ty, &*n, &v, &i, rec) });
    run.section("any token in any place", run.n(4000, 20) * slots::N, slots::go);
    run.section("token trees as they are", run.n(1500, 20) * raw::N, raw::go);
    run.section("prefixes of hostile inputs", run.n(60, 20) * sel.len() as u64, |r, rec, idx| {
        // whatever a node takes from the front of an input is what it prints
        let ty = sel[idx as usize % sel.len()];
        let Some(i) = input_for(ty.t.g(), r, rec) else { return Ok(()) };
        if neg_zero(&i.tks) { return Ok(()) }
        rec.what = format!("{} on {:?}", ty.name(), i.brief());
        on_stream(&i.s, |p| -> Res {
            if let Ok(n) = ty.t.parse_in(p) {
                let left = crate::eng::rest(p);
                let all = show(&i.tks, true, false);
                let Some(used) = all.strip_suffix(&left) else { return Err(format!("harness: {:?} does not end in {:?}", all, left)) };
                let k = used_tokens(&i.tks, used);
                let (a, b) = (show(&lex(n.tokens()), false, true), show(&i.tks[..k], false, true));
                // a group may have been entered and not used up, which is an error only at the end
                if a != b && !leftover(ty, &i) { return Err(format!("{} took [{}] of {:?} but prints as [{}]", ty.name(), b, i.s, a)) }
                rec.case(&format!("{} <- {}", ty.name(), b), k > 0);
            }
            Ok(())
        })
    });
}

mod slots {
    //! Every combinator around parts that are any token there is.
    use super::*;
    use crate::probe::{read, Reader, Slot};
    use parsel::ast::*;
    use parsel::{Parse, ToTokens};
    type A = Slot<0>; type B = Slot<1>; type C = Slot<2>;
    #[derive(Parse, ToTokens)] pub struct T3<X, Y, Z>(X, Y, Z);
    #[derive(Parse, ToTokens)] pub struct N3<X, Y, Z> { x: X, y: Y, z: Z }
    #[derive(Parse, ToTokens)] pub enum E3<X, Y, Z> { T(X, Y), N { y: Y, z: Z }, Z(Z) }

    const MORE: &[(&str, Reader)] = &[
        ("1", read::<LitUint>), ("-3", read::<LitInt>), ("2.5", read::<LitFloat>), ("\"a\"", read::<LitStr>), ("'c'", read::<LitChar>), ("b'x'", read::<LitByte>), ("b\"y\"", read::<LitByteStr>), ("true", read::<LitBool>), ("7", read::<Lit>), ("-1.5", read::<Lit>),
        ("word", read::<Word>), ("r#type", read::<Ident>), ("foo", read::<crate::zoo::kw::Foo>), ("loop", read::<crate::zoo::kw::Loop>), ("_", read::<crate::zoo::kw::Und>),
        ("()", read::<Paren<Empty>>), ("[]", read::<Bracket<Empty>>), ("{}", read::<Brace<Empty>>), ("(a)", read::<Paren<Word>>), ("[1]", read::<Bracket<LitUint>>), ("{b}", read::<Brace<Word>>), ("((()))", read::<Paren<Paren<Paren<Empty>>>>), ("", read::<Empty>), ("'life", read::<Life>),
    ];
    #[derive(Parse, ToTokens)] struct Life(parsel::syn::Lifetime);

    fn run<X: Parse + ToTokens>(s: &str) -> parsel::Result<Vec<(&'static str, Vec<Tk>)>> {
        let n: X = parsel::parse_str(s)?;
        let (mut p, mut c) = (String::new(), String::new());
        let _ = parsel::util::TokenStreamFormatter::pretty(&mut p).write_ast_node(&n);
        let _ = parsel::util::TokenStreamFormatter::compact(&mut c).write_ast_node(&n);
        let mut v = vec![("its tokens", lex(n.to_token_stream()))];
        for (how, s) in [("its pretty text", p), ("its compact text", c)] { v.push((how, lex_str(&s).unwrap_or_else(|| vec![Tk { t: crate::tok::T::Lit(format!("does not lex: {}", s)), src: (0, 0) }]))) }
        Ok(v)
    }
    type Shape = (&'static str, fn(&str) -> parsel::Result<Vec<(&'static str, Vec<Tk>)>>, &'static [&'static str]);
    macro_rules! shapes { ($($t:ty: $($s:expr),*;)*) => { &[$((stringify!($t), run::<$t>, &[$($s),*])),*] } }
    const SHAPES: &[Shape] = shapes! {
        Maybe<A, B>: "01"; Maybe<A, Maybe<B, C>>: "012", "01"; Maybe<Maybe<A, B>, C>: "012"; T3<Maybe<A, B>, C, A>: "0120", "20"; Paren<Maybe<A, B>>: "(01)";
        Any<A>: "0", "00", "00000"; Any<Either<A, B>>: "0110", "10"; Any<T3<A, B, C>>: "012012";
        Many<A>: "00", "000"; Many<Either<A, B>>: "1001"; Punctuated<A, B>: "010", "01", "0101"; Punctuated<T3<A, B, A>, C>: "0102010", "0102"; Punctuated<A, T3<B, C, B>>: "01210121";
        Separated<A, B>: "0", "010", "01010"; Separated<T3<A, A, B>, C>: "0012001"; Separated<A, T3<B, B, C>>: "01120"; Separated<Maybe<A, B>, C>: "01201", "012201", "2";
        LeftAssoc<A, B>: "1", "101", "1010101"; RightAssoc<A, B>: "1", "101", "1010101"; LeftAssoc<A, LeftAssoc<B, C>>: "2120212"; RightAssoc<A, LeftAssoc<B, C>>: "2120212"; LeftAssoc<A, Maybe<B, C>>: "0120", "0"; RightAssoc<A, Maybe<B, C>>: "0012", "0";
        Either<A, B>: "0", "1"; Either<T3<A, B, C>, T3<A, B, B>>: "012", "011"; Either<Maybe<A, B>, C>: "01", "2";
        Paren<A>: "(0)"; Bracket<Any<A>>: "[000]", "[]"; Brace<Brace<A>>: "{{0}}"; Paren<Bracket<Separated<A, B>>>: "([010])"; T3<Brace<A>, Brace<B>, Paren<C>>: "{0}{1}(2)"; Brace<Punctuated<A, B>>: "{0101}", "{}";
        T3<A, B, C>: "012"; T3<A, A, A>: "000"; N3<A, B, C>: "012"; E3<A, B, C>: "01", "12", "2"; E3<Paren<A>, Maybe<B>, N3<C, C, C>>: "(0)1", "(0)", "1222", "222"; Box<A>: "0"; Any<Box<E3<A, B, C>>>: "0112201";
    };

    pub fn go(r: &mut Rng, rec: &mut Rec, idx: u64) -> Res {
        let (name, f, forms) = &SHAPES[idx as usize % SHAPES.len()];
        let pick = |r: &mut Rng| if r.chance(2, 3) { *r.pick(crate::gram::TOKENS) } else { *r.pick(MORE) };
        let a = pick(r);
        let b = if r.chance(1, 3) { a } else { pick(r) };
        let c = match r.below(4) { 0 => a, 1 => b, _ => pick(r) };
        // a repetition of nothing does not end
        if [a, b, c].iter().any(|x| x.0.is_empty()) && (name.contains("Any") || name.contains("Many") || name.contains("Punct") || name.contains("Separ") || name.contains("Assoc")) { return Ok(()) }
        crate::probe::fill(vec![a.1, b.1, c.1]);
        let mut s = String::new();
        for x in r.pick(forms).chars() {
            match x { '0' => s.push_str(a.0), '1' => s.push_str(b.0), '2' => s.push_str(c.0), x => s.push(x) }
            s.push_str(*r.pick(&[" ", " ", "\n", "  "]));
        }
        rec.what = format!("{} with {:?}, {:?}, {:?} on {:?}", name, a.0, b.0, c.0, s);
        let Some(i) = lex_str(&s) else { return Ok(()) };
        if neg_zero(&i) { return Ok(()) }
        match f(&s) {
            Ok(outs) => {
                let want = show(&i, false, true);
                for (how, t) in outs {
                    let got = show(&t, false, true);
                    if got != want { return Err(format!("{}, where the parts are {:?}, {:?} and {:?}, parsed from {:?}: {} is\n  [{}], the input was\n  [{}]", name, a.0, b.0, c.0, s, how, got, want)) }
                }
                rec.count("accepted");
                rec.case(&format!("{} {} {} {} {}", name, a.0, b.0, c.0, want), true);
            }
            Err(_) => rec.count("rejected, as one part is the beginning of another"),
        }
        Ok(())
    }
    pub const N: u64 = SHAPES.len() as u64;
}

mod raw {
    //! Combinators around parts that keep whatever tokens they are given: not even groups without delimiters may be lost.
    use super::*;
    use super::slots::{E3, T3};
    use parsel::ast::*;
    use parsel::{Parse, ToTokens};
    type R = TokenTree; type S = TokenStream;

    fn run<X: Parse + ToTokens>(ts: TokenStream) -> parsel::Result<TokenStream> { parsel::parse2::<X>(ts).map(|n| n.to_token_stream()) }
    type Shape = (&'static str, fn(TokenStream) -> parsel::Result<TokenStream>, &'static [&'static str]);
    macro_rules! shapes { ($($t:ty: $($s:expr),*;)*) => { &[$((stringify!($t), run::<$t>, &[$($s),*])),*] } }
    // 0 is a token tree, * any number of them
    const SHAPES: &[Shape] = shapes! {
        Paren<S>: "(*)"; Bracket<S>: "[*]"; Brace<S>: "{*}"; Paren<R>: "(0)"; Bracket<R>: "[0]"; Brace<R>: "{0}"; Bracket<Paren<Brace<S>>>: "[({*})]"; Paren<Paren<R>>: "((0))";
        Any<R>: "*"; Many<R>: "*"; Punctuated<R, R>: "*"; Paren<Any<R>>: "(*)"; Bracket<Any<R>>: "[*]"; Brace<Many<R>>: "{*}"; Any<Bracket<S>>: "[*]", "[*][*]"; Bracket<Punctuated<Paren<S>, R>>: "[(*)0(*)]", "[(*)0]";
        Separated<R, R>: "0", "000", "00000"; LeftAssoc<R, R>: "0", "000", "00000"; RightAssoc<R, R>: "0", "000", "00000"; Separated<Brace<S>, R>: "{*}0{*}"; LeftAssoc<R, Paren<S>>: "(*)0(*)0(*)"; RightAssoc<R, Bracket<R>>: "[0]0[0]0[0]";
        Maybe<R, R>: "00"; Maybe<R, S>: "0*"; Maybe<R, Paren<S>>: "0(*)"; Maybe<R>: "0"; Either<S, R>: "*"; Either<R, S>: "0"; Box<S>: "*";
        T3<R, R, R>: "000"; T3<R, Paren<S>, S>: "0(*)*"; T3<Bracket<R>, R, Brace<R>>: "[0]0{0}"; E3<R, R, R>: "00"; E3<Empty, S, R>: "*";
    };

    fn build(f: &mut std::str::Chars, r: &mut Rng) -> Vec<Tk> {
        let mut o = vec![];
        while let Some(c) = f.next() {
            match c {
                '0' => o.push(loop { if let Some(t) = trees(r).into_iter().next() { break t } }),
                '*' => o.extend(trees(r)),
                '(' => o.push(tk(T::Group(D::Paren, build(f, r)))),
                '[' => o.push(tk(T::Group(D::Bracket, build(f, r)))),
                '{' => o.push(tk(T::Group(D::Brace, build(f, r)))),
                _ => break,
            }
        }
        o
    }
    fn trees(r: &mut Rng) -> Vec<Tk> {
        match r.below(6) {
            0 => vec![tk(T::Group(D::None, stream(r, 2, 3, Bare::Any)))],
            1 => vec![tk(T::Group(D::None, vec![tk(T::Group(D::None, stream(r, 1, 2, Bare::Any)))]))],
            _ => stream(r, 3, 4, Bare::Any),
        }
    }

    pub fn go(r: &mut Rng, rec: &mut Rec, idx: u64) -> Res {
        let (name, f, forms) = &SHAPES[idx as usize % SHAPES.len()];
        let form = *r.pick(forms);
        let i = build(&mut form.chars(), r);
        let want = show(&i, true, false);
        rec.what = format!("{} on [{}]", name, want);
        match f(to_stream(&i)) {
            Ok(t) => {
                let got = show(&lex(t), true, false);
                if got != want { return Err(format!("{} parsed from [{}] prints as [{}]", name, short(&want), short(&got))) }
                rec.count("accepted");
                if want.contains("g<") { rec.count("with groups without delimiters") }
                rec.case(&format!("{} {}", name, want), !i.is_empty());
            }
            Err(_) => rec.count("rejected"),
        }
        Ok(())
    }
    pub const N: u64 = SHAPES.len() as u64;
}

/// What a node prints is what it was parsed from, and what its parts are.
fn printed(ty: &Ty, n: &dyn Node, v: &V, i: &Input, rec: &mut Rec) -> Res {
    let t = lex(n.tokens());
    let mut want = vec![];
    expected(v, &mut want);
    let (a, b) = (show(&t, true, true), show(&want, true, true));
    if a != b { return Err(format!("{} parsed from {:?} prints as\n  [{}], its parts are\n  [{}]", ty.name(), short(&i.s), short(&a), short(&b))) }
    if neg_zero(&i.tks) { rec.count("integer -0 in the input, compared by value only") } else {
        let (a, b) = (show(&t, false, true), show(&i.tks, false, true));
        if a != b { return Err(format!("{} parsed from {:?} prints as\n  [{}], the input was\n  [{}]", ty.name(), short(&i.s), short(&a), short(&b))) }
    }
    // printing into a non-empty stream appends
    rec.add("tokens printed", count(&t) as u64);
    rec.max("max_tokens", count(&t) as u64);
    rec.case(&format!("{} <- {}", ty.name(), b), !t.is_empty());
    Ok(())
}

fn used_tokens(t: &[Tk], used: &str) -> usize { (0..=t.len()).find(|k| show(&t[..*k], true, false) == used).unwrap_or(t.len()) }

fn leftover(ty: &Ty, i: &Input) -> bool {
    matches!(crate::model::Model::new(steps_for(&i.tks)).p(ty.t.g(), &i.tks, 0), Ok((_, _, true)) | Err(_))
}

fn three(ty: &Ty, n: &dyn Node, v: &V, from: &str, rec: &mut Rec) -> Res {
    let ts = n.tokens();
    for (how, r) in [
        ("its tokens", ty.t.parse2(ts)),
        ("its default text", ty.t.parse_str(&n.display(false))),
        ("its alternate text", ty.t.parse_str(&n.display(true))),
    ] {
        let text = match how { "its tokens" => n.tokens().to_string(), "its default text" => n.display(false), _ => n.display(true) };
        match r {
            Ok(m) => {
                let d = m.dump();
                if !n.same(&*m) || d != *v { return Err(format!("{} {} printed and parsed by {} ({:?}) is another node: {} instead of {}", ty.name(), from, how, short(&text), brief(&d), brief(v))) }
            }
            Err(e) => return Err(format!("{} {} is not accepted when printed and parsed by {} ({:?}): {}", ty.name(), from, how, short(&text), e)),
        }
        rec.count(how);
    }
    Ok(())
}

pub fn c13(run: &Run, types: &[Ty]) {
    run.rule("a node that prints at least one token was parsed back by all three routes");
    let sel: Vec<&Ty> = types.iter().collect();
    let unambiguous = |ty: &Ty, v: &V| {
        let mut t = vec![];
        expected(v, &mut t);
        matches!(model(ty.t.g(), &t), Some(Some(w)) if w == *v)
    };
    run.section("parsed nodes", run.n(120, 20) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let b = budget(r);
        let Some((n, v, i)) = accepted(ty, r, rec, b)? else { return Ok(()) };
        if !unambiguous(ty, &v) { rec.count("the grammar reads the tokens of this value as another value"); return Ok(()) }
        three(ty, &*n, &v, &format!("parsed from {:?}", short(&i.s)), rec)?;
        rec.case(&format!("{} <- {}", ty.name(), show(&i.tks, false, true)), !i.tks.is_empty());
        Ok(())
    });
    scaled(run, "long and deep inputs", |c, i, _, rec| {
        let n = c.parse(&i)?;
        let v = n.dump();
        three(&c.ty, &*n, &v, "parsed from a long or deep input", rec)?;
        three(&c.ty, &*c.ty.t.build(&v), &v, "built like a long or deep one", rec)?;
        rec.case(&format!("{} <- {}", c.ty.name(), show(&i.tks, false, true)), true);
        Ok(())
    });
    run.section("constructed nodes", run.n(120, 20) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let b = budget(r).min(150);
        let mut g = Gen::new(r, b);
        let Some(v) = g.v(ty.t.g(), 0) else { return Ok(()) };
        if !unambiguous(ty, &v) { rec.count("the grammar reads the tokens of this value as another value"); return Ok(()) }
        rec.what = format!("{} built as {}", ty.name(), brief(&v));
        let n = ty.t.build(&v);
        three(ty, &*n, &v, &format!("built as {}", brief(&v)), rec)?;
        let s = n.tokens().to_string();
        rec.case(&format!("built {} {}", ty.name(), s), !s.is_empty());
        Ok(())
    });
}

// ------------------------------------------------------------------ streams

/// A random token stream, built token by token.
/// How much of undelimited groups a stream has: none; only such whose layout is plain; any.
#[derive(Clone, Copy, PartialEq)]
pub enum Bare { No, Plain, Any }

pub fn stream(r: &mut Rng, depth: usize, width: usize, none: Bare) -> Vec<Tk> {
    let n = r.len(width, width * 4);
    let mut o: Vec<Tk> = vec![];
    for _ in 0..n {
        match r.below(14) {
            0..=3 => {
                let c = *r.pick(&['~', '!', '@', '#', '$', '%', '^', '&', '*', '-', '=', '+', '|', ';', ':', ',', '<', '.', '>', '/', '?', ',', ';', ',']);
                o.push(tk(T::Punct(c, r.chance(2, 5))));
            }
            4 => { let op = *r.pick(&["..=", "<<=", ">>=", "->", "=>", "::", "==", "&&", "||", "+=", "...", "<-", "!="]); let k = op.len(); o.extend(op.chars().enumerate().map(|(i, c)| tk(T::Punct(c, i + 1 < k)))) }
            5..=7 => { let w = (*r.pick(crate::gen::WORDS)).to_string(); o.push(tk(T::Ident(w))) }
            8 => { o.push(tk(T::Punct('\'', true))); o.push(tk(T::Ident((*r.pick(&["a", "static", "_x", "b2"])).into()))) }
            9..=10 => { let mut g = Gen::new(r, 0); let l = g.lv(&crate::model::G::Lit); let mut t = vec![]; g.lit(&l, &mut t); for x in t { if let GT::Lit(s) = x { o.push(tk(T::Lit(s))) } } }
            11 => { let s = *r.pick(&["\"a\nb\"", "r\"x\n  y\"", "r#\"\"#", "b\"\n\"", "\"\\\n   z\"", "'\\n'", "1_000u64", "0xFFu8", "1.5e-3", "1e10f64", "\"\t\"", "c\"x\"", "2.", "\"\u{1f600}\""]); o.push(tk(T::Lit(s.into()))) }
            _ if depth > 0 => {
                let d = if none != Bare::No && r.chance(1, 4) { D::None } else { *r.pick(&D::REAL) };
                let w = r.range(0, width);
                let mut inner = if r.chance(1, 5) && d != D::None { vec![] } else { stream(r, depth - 1, w, none) };
                if d == D::None && none == Bare::Any {
                    if let Some(Tk { t: T::Punct(_, j), .. }) = inner.last_mut() { *j = false }
                    if let Some(Tk { t: T::Punct(_, j), .. }) = o.last_mut() { *j = false }
                } else if d == D::None {
                    // an undelimited group of nothing, or ending where a line ends, has no layout of its own
                    while matches!(inner.last().map(|t| &t.t), Some(T::Punct(..) | T::Group(..))) { inner.pop(); }
                    if inner.is_empty() { inner.push(tk(T::Ident("n".into()))) }
                    if let Some(Tk { t: T::Punct(_, j), .. }) = o.last_mut() { *j = false }
                }
                o.push(tk(T::Group(d, inner)));
            }
            _ => o.push(tk(T::Ident("w".into()))),
        }
    }
    tidy(&mut o);
    o
}

/// `//`, `/*` are no tokens, and a `'` belongs to its identifier
fn tidy(o: &mut Vec<Tk>) {
    for i in 0..o.len() {
        let next = o.get(i + 1).map(|t| t.t.clone());
        if let T::Punct(c, j) = &mut o[i].t {
            match next {
                Some(T::Punct(d, _)) if *c == '/' && (d == '/' || d == '*') => *j = false,
                Some(T::Group(D::None, _)) if *c != '\'' => *j = false,
                _ => {}
            }
        }
    }
}

pub fn to_stream(t: &[Tk]) -> TokenStream {
    t.iter().map(|t| match &t.t {
        T::Ident(s) => TokenTree::Ident(match s.strip_prefix("r#") { Some(r) => Ident::new_raw(r, Span::call_site()), None => Ident::new(s, Span::call_site()) }),
        T::Punct(c, j) => TokenTree::Punct(Punct::new(*c, if *j { Spacing::Joint } else { Spacing::Alone })),
        T::Lit(s) => TokenTree::Literal(s.parse::<Literal>().unwrap_or_else(|_| panic!("harness: not a literal: {}", s))),
        T::Group(d, i) => TokenTree::Group(Group::new(d.pm(), to_stream(i))),
    }).collect()
}

/// The same tokens with undelimited groups dissolved, and with joint spacing only where it means something.
fn flat(t: &[Tk]) -> Vec<Tk> {
    let mut o = vec![];
    for (i, x) in t.iter().enumerate() {
        match &x.t {
            T::Group(D::None, inner) => o.extend(flat(inner)),
            T::Group(d, inner) => o.push(tk(T::Group(*d, flat(inner)))),
            T::Punct('\'', _) => o.push(x.clone()),
            T::Punct(c, j) => o.push(tk(T::Punct(*c, *j && matches!(t.get(i + 1).map(|t| &t.t), Some(T::Punct(..)))))),
            _ => o.push(x.clone()),
        }
    }
    o
}

const INDENTS: &[&str] = &["    ", "", " ", "\t", "  ", "\t\t", " \t ", "\n", "\r\n", "\u{2003}", "\u{a0}", "\u{3000} ", "          ", "\u{b}", "\u{85}", "\u{2028}", "                                        ", "\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t"];

fn all_modes(ts: &TokenStream, indent: &str) -> Result<Vec<(String, Option<String>, String)>, String> {
    let mut o = vec![];
    let mut s = String::new();
    format_tokens_pretty(ts.clone(), &mut s).map_err(|e| format!("pretty formatting of [{}] failed: {}", ts, e))?;
    o.push(("pretty".to_string(), Some("    ".to_string()), s));
    let mut s = String::new();
    format_tokens_compact(ts.clone(), &mut s).map_err(|e| format!("compact formatting of [{}] failed: {}", ts, e))?;
    o.push(("compact".to_string(), None, s));
    let mut s = String::new();
    let mut f = TokenStreamFormatter::with_indent(indent, &mut s).map_err(|e| format!("indentation {:?} is rejected: {}", indent, e))?;
    f.write(ts.clone()).map_err(|e| format!("formatting of [{}] with indentation {:?} failed: {}", ts, indent, e))?;
    o.push((format!("indentation {:?}", indent), Some(indent.to_string()), s));
    Ok(o)
}

fn any_stream(r: &mut Rng, none: Bare, rec: &mut Rec) -> Option<TokenStream> {
    if r.chance(1, 3) {
        let n = r.range(0, 12);
        let mut g = Gen::new(r, 60);
        let gts: Vec<GT> = (0..n).map(|_| g.soup_tok(4)).collect();
        let l = *r.pick(&LAYOUTS);
        let t = crate::gen::render(&gts, l, r);
        let doc = if r.chance(1, 6) { "/// doc \"x\"\n//! inner\n/** block\n doc */" } else { "" };
        let ts = format!("{}{}", doc, t.s).parse().ok();
        if ts.is_none() { rec.count("text that does not lex") }
        rec.count("lexed streams");
        ts
    } else {
        rec.count("constructed streams");
        let (d, w) = *r.pick(&[(3, 5), (2, 10), (6, 3), (1, 30), (12, 2), (0, 8)]);
        Some(to_stream(&stream(r, d, w, none)))
    }
}

pub fn c14(run: &Run, _: &[Ty]) {
    run.rule("a stream of at least two tokens was formatted in three ways and lexed again");
    run.section("formatted and lexed again", run.n(40_000, 30), |r, rec, _| {
        let Some(ts) = any_stream(r, Bare::Any, rec) else { return Ok(()) };
        let indent = *r.pick(INDENTS);
        let t = lex(ts.clone());
        rec.what = format!("formatting of {}", short(&show(&t, true, false)));
        let want = show(&flat(&t), true, false);
        for (mode, _, s) in all_modes(&ts, indent)? {
            let Some(u) = lex_str(&s) else { return Err(format!("{}: the output for [{}] does not lex: {:?}", mode, short(&show(&t, true, false)), short(&s))) };
            let got = show(&flat(&u), true, false);
            if got != want { return Err(format!("{}: the tokens\n  [{}] became\n  [{}] in {:?}", mode, short(&want), short(&got), short(&s))) }
        }
        rec.add("tokens", count(&t) as u64);
        rec.max("max_tokens", count(&t) as u64);
        rec.case(&show(&t, true, false), count(&t) > 1);
        Ok(())
    });
    // long and deep ones
    let sizes: &[usize] = &run.sizes(&[255, 256, 257, 1000, 4096, 10_000], &[1000, 4096, 20_000, 200_000]);
    run.section("long streams", sizes.len() as u64 * 4, |r, rec, idx| {
        let n = sizes[idx as usize / 4];
        let mut t = vec![];
        while t.len() < n { t.extend(stream(r, if idx % 4 == 0 { 0 } else { 2 }, 6, if idx % 2 == 0 { Bare::Any } else { Bare::No })) }
        tidy(&mut t);
        let ts = to_stream(&t);
        let want = show(&flat(&t), true, false);
        for (mode, _, s) in all_modes(&ts, "  ")? {
            let Some(u) = lex_str(&s) else { return Err(format!("{}: the output for a stream of {} tokens does not lex", mode, n)) };
            if show(&flat(&u), true, false) != want { return Err(format!("{}: a stream of {} tokens is not preserved", mode, n)) }
        }
        rec.max("max_tokens", count(&t) as u64);
        rec.case(&format!("{} tokens #{}", n, idx), true);
        Ok(())
    });
    let depths: &[usize] = &run.sizes(&[10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300], &[10, 50, 64, 100, 128, 256, 500, 1000]);
    run.section_with("deep streams", depths.len() as u64, 1 << 30, 4, |r, rec, idx| {
        let n = depths[idx as usize];
        let ts = to_stream(&deep(r, n));
        let want = show(&flat(&lex(ts.clone())), true, false);
        for (mode, _, s) in all_modes(&ts, "\t")? {
            let Some(u) = lex_str(&s) else { return Err(format!("{}: the output for a stream nested {} deep does not lex", mode, n)) };
            if show(&flat(&u), true, false) != want { return Err(format!("{}: a stream nested {} deep is not preserved", mode, n)) }
        }
        rec.max("max_depth", n as u64);
        rec.case(&format!("{} deep", n), true);
        Ok(())
    });
    run.section("indentations", run.n(20_000, 20), |r, rec, idx| {
        let s: String = match idx {
            i if (i as usize) < INDENTS.len() => INDENTS[i as usize].into(),
            i if i < 13_000 => char::from_u32(i as u32 - INDENTS.len() as u32).map_or(String::new(), |c| c.to_string()),
            _ => {
                let n = r.range(0, 6);
                let mut s: String = (0..n).map(|_| *r.pick(&[' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{a0}', '\u{2003}', '\u{2028}', '\u{85}', '\u{1680}', '\u{205f}'])).collect();
                if r.chance(1, 2) {
                    let c = *r.pick(&['x', '.', '-', '>', '0', '_', '\u{200b}', '\u{feff}', '\0', '|', '\u{2060}', '/', '"', 'é', '\u{8}', '\u{1b}', '\u{1c}', '\u{7f}', '\u{ad}', '\u{180e}', '\u{2800}']);
                    let k = r.below(s.chars().count() + 1);
                    let at = s.char_indices().nth(k).map_or(s.len(), |x| x.0);
                    s.insert(at, c);
                }
                s
            }
        };
        let blank = s.chars().all(char::is_whitespace);
        rec.what = format!("with_indent({:?})", s);
        let mut out = String::new();
        let r = TokenStreamFormatter::with_indent(s.as_str(), &mut out).map(|_| ());
        if r.is_ok() != blank { return Err(format!("the indentation {:?} is {}", s, if blank { format!("rejected: {}", r.unwrap_err()) } else { "accepted, although it is not whitespace".into() })) }
        rec.count(if blank { "whitespace" } else { "not whitespace" });
        rec.case(&format!("indent {:?}", s), true);
        Ok(())
    });
}

fn deep(r: &mut Rng, n: usize) -> Vec<Tk> {
    let mut t = vec![tk(T::Ident("x".into()))];
    for _ in 0..n {
        let mut o = vec![];
        if r.chance(1, 2) { o.push(tk(T::Ident("a".into()))) }
        if r.chance(1, 3) { o.push(tk(T::Punct(',', false))) }
        o.push(tk(T::Group(*r.pick(&D::REAL), t)));
        if r.chance(1, 2) { o.push(tk(T::Punct(*r.pick(&['+', ';', ',']), false))) }
        t = o;
    }
    t
}

/// The layout, stated independently: what separates each token from the one before it.
pub fn layout(t: &[Tk], indent: Option<&str>, level: usize, out: &mut String) {
    let line = |level: usize, out: &mut String| { out.push('\n'); for _ in 0..level { out.push_str(indent.unwrap()) } };
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            match (&t[i - 1].t, indent) {
                (T::Punct(_, true), _) => {}
                (T::Punct(',' | ';', false), Some(_)) => line(level, out),
                (T::Group(d, _), Some(_)) if *d != D::None => line(level, out),
                _ => out.push(' '),
            }
        }
        match &x.t {
            T::Ident(s) | T::Lit(s) => out.push_str(s),
            T::Punct(c, _) => out.push(*c),
            T::Group(D::None, inner) => layout(inner, indent, level, out),
            T::Group(d, inner) => {
                out.push_str(d.open());
                if !inner.is_empty() {
                    if indent.is_some() { line(level + 1, out) }
                    layout(inner, indent, level + 1, out);
                    if indent.is_some() { line(level, out) }
                }
                out.push_str(d.close());
            }
        }
    }
}

fn laid(t: &[Tk], indent: Option<&str>) -> String { let mut s = String::new(); layout(t, indent, 0, &mut s); s }

fn no_minus_gap(s: &str) -> String { s.replace("- ", "-") }

pub fn c15(run: &Run, types: &[Ty]) {
    run.rule("a stream or node of at least two tokens was laid out in every mode");
    run.section("streams", run.n(40_000, 30), |r, rec, _| {
        let Some(ts) = any_stream(r, Bare::Plain, rec) else { return Ok(()) };
        let indent = *r.pick(INDENTS);
        let t = lex(ts.clone());
        rec.what = format!("formatting of {}", short(&show(&t, true, false)));
        for (mode, ind, s) in all_modes(&ts, indent)? {
            let want = laid(&t, ind.as_deref());
            if s != want { return Err(format!("{}: [{}] is written as\n{:?}\n  instead of\n{:?}", mode, short(&show(&t, true, false)), short(&s), short(&want))) }
            if ind.is_none() {
                let lits: usize = newlines_in_literals(&t);
                if s.matches('\n').count() != lits { return Err(format!("compact output has a line break: {:?}", short(&s))) }
            }
        }
        // one formatter, several streams
        let u = lex(to_stream(&stream(r, 2, 4, Bare::No)));
        let mut s = String::new();
        let mut f = TokenStreamFormatter::pretty(&mut s);
        for x in [&ts, &to_stream(&u), &ts] { f.write(x.clone()).map_err(|e| format!("writing failed: {}", e))? }
        let want = format!("{}{}{}", laid(&t, Some("    ")), laid(&u, Some("    ")), laid(&t, Some("    ")));
        if s != want { return Err(format!("three streams written by one formatter:\n{:?}\n  instead of\n{:?}", short(&s), short(&want))) }
        rec.case(&show(&t, true, false), count(&t) > 1);
        Ok(())
    });
    let depths: &[usize] = &run.sizes(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300], &[10, 50, 64, 100, 128, 256, 500, 1000]);
    run.section_with("deep streams", depths.len() as u64, 1 << 30, 4, |r, rec, idx| {
        let t = deep(r, depths[idx as usize]);
        for (mode, ind, s) in all_modes(&to_stream(&t), "\t")? {
            if s != laid(&t, ind.as_deref()) { return Err(format!("{}: layout at depth {} is wrong: {:?}", mode, depths[idx as usize], short(&s))) }
        }
        rec.max("max_depth", depths[idx as usize] as u64);
        rec.case(&format!("{} deep", depths[idx as usize]), true);
        Ok(())
    });
    let sizes: &[usize] = &run.sizes(&[255, 256, 257, 1000, 4096, 10_000], &[1000, 4096, 20_000, 200_000]);
    run.section("long streams", sizes.len() as u64 * 4, |r, rec, idx| {
        let n = sizes[idx as usize / 4];
        let mut t = vec![];
        while t.len() < n { t.extend(stream(r, if idx % 4 == 0 { 0 } else { 2 }, 6, if idx % 2 == 0 { Bare::Plain } else { Bare::No })) }
        tidy(&mut t);
        for (mode, ind, s) in all_modes(&to_stream(&t), "  ")? {
            let want = laid(&t, ind.as_deref());
            if s != want { let k = s.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(20); return Err(format!("{}: a stream of {} tokens is written with {:?} instead of {:?} at byte {}", mode, n, s.get(k..).map(short), want.get(k..).map(short), k)) }
        }
        rec.max("max_tokens", count(&t) as u64);
        rec.case(&format!("{} tokens #{}", n, idx), true);
        Ok(())
    });
    let sel: Vec<&Ty> = types.iter().collect();
    run.section("displayed nodes", run.n(60, 20) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let b = budget(r).min(150);
        let Some((n, _, i)) = accepted(ty, r, rec, b)? else { return Ok(()) };
        displayed(ty, &*n, &i, r, rec)
    });
    scaled(run, "long and deep nodes", |c, i, r, rec| { let n = c.parse(&i)?; displayed(&c.ty, &*n, &i, r, rec) });
}

/// Every way to display a node is laid out as its tokens are.
fn displayed(ty: &Ty, n: &dyn Node, i: &Input, r: &mut Rng, rec: &mut Rec) -> Res {
    let t = lex(n.tokens());
    let bare = literal_only(root(ty.t.g()));
    let (mut w0, mut w1) = (String::new(), String::new());
    n.write(true, &mut w0).map_err(|e| format!("writing failed: {}", e))?;
    n.write(false, &mut w1).map_err(|e| format!("writing failed: {}", e))?;
    let custom = n.format_with(Some("\t")).map_err(|e| format!("writing failed: {}", e))?;
    let (d0, d1) = (n.display(false), n.display(true));
    for (mode, got, ind, lit) in [("Display", &d0, Some("    "), bare), ("alternate Display", &d1, None, bare), ("format_ast_node_pretty", &w0, Some("    "), false), ("format_ast_node_compact", &w1, None, false), ("write_ast_node with tabs", &custom, Some("\t"), false)] {
        let want = laid(&t, ind);
        let ok = if lit { no_minus_gap(got) == no_minus_gap(&want) } else { *got == want };
        if !ok { return Err(format!("{} of {} parsed from {:?} gives\n{:?}\n  instead of\n{:?}", mode, ty.name(), short(&i.s), short(got), short(&want))) }
    }
    // width, precision and the like mean nothing for a tree of tokens
    if !leaf(root(ty.t.g())) { if let Some((f, alt, s)) = n.flagged(r.below(12)) {
        let want = if alt { &d1 } else { &d0 };
        if s != *want { return Err(format!("{} parsed from {:?} displayed by {:?} gives\n{:?}\n  instead of\n{:?}", ty.name(), short(&i.s), f, short(&s), short(want))) }
        rec.count("displayed with further flags");
    } }
    rec.case(&format!("{} <- {}", ty.name(), show(&t, true, true)), count(&t) > 1);
    Ok(())
}

fn newlines_in_literals(t: &[Tk]) -> usize { t.iter().map(|t| match &t.t { T::Lit(s) => s.matches('\n').count(), T::Group(_, i) => newlines_in_literals(i), _ => 0 }).sum() }

/// a literal, or a choice that displays one directly
fn literal_only(g: crate::model::Gr) -> bool {
    use crate::model::G::*;
    match root(g).get() { LitInt | LitFloat | Lit => true, Either(a, b) => literal_only(a) || literal_only(b), _ => false }
}

/// a leaf, or a choice that displays one directly
fn leaf(g: crate::model::Gr) -> bool {
    match root(g).get() { crate::model::G::Either(a, b) => leaf(a) || leaf(b), g => kind(g) & (feat::LIT | feat::WORD | feat::KW | feat::TOK) != 0 }
}

// ------------------------------------------------------------------ failing sinks

/// Fails the call number `at` (and, if `forever`, all after it); `part` writes half of it first.
struct Sink { got: String, calls: usize, at: usize, forever: bool, part: bool, after: usize }

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let k = self.calls;
        self.calls += 1;
        if k > self.at { self.after += 1 }
        if k == self.at || (self.forever && k > self.at) {
            if self.part { let mut h = s.len() / 2; while !s.is_char_boundary(h) { h -= 1 } self.got.push_str(&s[..h]) }
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// Fails when more than `cap` bytes have been written.
struct Full { got: String, cap: usize }

impl Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.got.len() + s.len() > self.cap {
            let mut h = self.cap - self.got.len();
            while !s.is_char_boundary(h) { h -= 1 }
            self.got.push_str(&s[..h]);
            self.cap = self.got.len();
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// A sink behind which one can look: what it got, the last failure, and the bytes it has room for.
#[derive(Clone, Default)]
struct Shared(std::rc::Rc<std::cell::RefCell<(String, String, usize)>>);
impl Write for Shared {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        let mut s = self.0.borrow_mut();
        if t.len() > s.2 { s.2 = 0; return Err(std::fmt::Error) }
        s.2 -= t.len();
        s.0.push_str(t);
        Ok(())
    }
}

/// Every point at which the sink can fail.
fn faults(what: &str, full: &str, mut f: impl FnMut(&mut dyn Write) -> std::fmt::Result, r: &mut Rng, rec: &mut Rec) -> Res {
    let mut s = Sink { got: String::new(), calls: 0, at: usize::MAX, forever: false, part: false, after: 0 };
    let res = f(&mut s);
    if res.is_err() { return Err(format!("{}: reports failure although the sink works", what)) }
    if s.got != full { return Err(format!("{}: writes {:?} instead of {:?}", what, short(&s.got), short(full))) }
    let calls = s.calls;
    let points: Vec<usize> = if calls <= 120 { (0..calls).collect() } else { let mut v: Vec<usize> = (0..120).map(|_| r.below(calls)).collect(); v.extend([0, 1, 2, calls - 2, calls - 1]); v };
    for at in points {
        let (forever, part) = (r.chance(1, 2), r.chance(1, 2));
        let mut s = Sink { got: String::new(), calls: 0, at, forever, part, after: 0 };
        if f(&mut s).is_ok() { return Err(format!("{}: reports success although write {} of {} failed (written: {:?})", what, at, calls, short(&s.got))) }
        if !full.starts_with(&s.got) { return Err(format!("{}: after write {} of {} failed, {:?} was written, which is no prefix of {:?}", what, at, calls, short(&s.got), short(full))) }
        if s.after > 0 { rec.count("writes attempted after a failure") }
        rec.count("failing calls");
    }
    let caps: Vec<usize> = if full.len() <= 160 { (0..full.len()).collect() } else { let mut v: Vec<usize> = (0..100).map(|_| r.below(full.len())).collect(); v.extend([0, 1, full.len() - 1]); v };
    for cap in caps {
        let mut s = Full { got: String::new(), cap };
        if f(&mut s).is_ok() { return Err(format!("{}: reports success although the sink was full after {} of {} bytes", what, cap, full.len())) }
        if !full.starts_with(&s.got) { return Err(format!("{}: with a sink of {} bytes, {:?} was written, which is no prefix of {:?}", what, cap, short(&s.got), short(full))) }
        rec.count("full sinks");
    }
    let mut s = Full { got: String::new(), cap: full.len() };
    if f(&mut s).is_err() { return Err(format!("{}: reports failure although the sink has room for exactly its output", what)) }
    rec.max("max_failure_points", calls as u64);
    Ok(())
}

struct Fm<'a>(&'a TokenStream, bool);
impl std::fmt::Display for Fm<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { if self.1 { parsel::util::format_tokens(self.0.clone(), f) } else { parsel::util::format_ast_node(self.0, f) } } }

pub fn c16(run: &Run, types: &[Ty]) {
    run.rule("a stream or node with at least one token was written to sinks failing at every point");
    run.section("streams", run.n(1200, 30), |r, rec, _| {
        let Some(ts) = any_stream(r, Bare::Any, rec) else { return Ok(()) };
        rec.what = format!("writing {}", short(&ts.to_string()));
        let indent = *r.pick(INDENTS);
        let modes = all_modes(&ts, indent)?;
        let t2 = ts.clone();
        faults("format_tokens_pretty", &modes[0].2, |w| format_tokens_pretty(t2.clone(), w), r, rec)?;
        faults("format_tokens_compact", &modes[1].2, |w| format_tokens_compact(t2.clone(), w), r, rec)?;
        faults("with_indent", &modes[2].2, |w| TokenStreamFormatter::with_indent(indent, w).unwrap().write(t2.clone()), r, rec)?;
        match r.below(4) {
            0 => faults("format_tokens", &modes[0].2, |w| write!(w, "{}", Fm(&t2, true)), r, rec)?,
            1 => faults("format_tokens, alternate", &modes[1].2, |w| write!(w, "{:#}", Fm(&t2, true)), r, rec)?,
            2 => faults("format_ast_node", &modes[0].2, |w| write!(w, "{}", Fm(&t2, false)), r, rec)?,
            _ => faults("write_ast_node", &modes[2].2, |w| TokenStreamFormatter::with_indent(indent, w).unwrap().write_ast_node(&t2), r, rec)?,
        }
        rec.case(&show(&lex(ts.clone()), true, false), !ts.is_empty());
        Ok(())
    });
    // one formatter, many streams, and a sink that fails now and then
    run.section("formatters after a failure", run.n(1500, 30), |r, rec, _| {
        let mut ts = vec![];
        while ts.len() < 6 { if let Some(t) = any_stream(r, Bare::Any, rec) { ts.push(t) } }
        let indent = *r.pick(INDENTS);
        let mode = r.below(3);
        let sink = Shared::default();
        let fresh: Vec<String> = ts.iter().map(|t| all_modes(t, indent).map(|m| m[mode].2.clone())).collect::<std::result::Result<_, _>>()?;
        let w = sink.clone();
        // the constructors differ in the type of the formatter
        let mut pretty; let mut other;
        let f: &mut dyn FnMut(&TokenStream, bool) -> std::fmt::Result = if mode == 0 {
            let mut x = TokenStreamFormatter::pretty(w);
            pretty = move |t: &TokenStream, node: bool| if node { x.write_ast_node(t) } else { x.write(t.clone()) };
            &mut pretty
        } else {
            let mut x = if mode == 1 { None } else { Some(TokenStreamFormatter::with_indent(indent, w.clone()).map_err(|e| format!("rejected: {}", e))?) };
            let mut y = TokenStreamFormatter::compact(w);
            other = move |t: &TokenStream, node: bool| match &mut x { None => if node { y.write_ast_node(t) } else { y.write(t.clone()) }, Some(x) => if node { x.write_ast_node(t) } else { x.write(t.clone()) } };
            &mut other
        };
        for (t, want) in ts.iter().zip(&fresh) {
            rec.what = format!("writing {} after {:?}", short(&t.to_string()), sink.0.borrow().1);
            if r.chance(1, 2) {
                let bytes = r.below(want.len() + 1);
                *sink.0.borrow_mut() = (String::new(), format!("a sink of {} bytes was full", bytes), bytes);
                let res = f(t, r.chance(1, 2));
                let got = sink.0.borrow().0.clone();
                if res.is_ok() != (got.len() == want.len()) || !want.starts_with(&got) { return Err(format!("with a sink of {} bytes: {:?}, and {:?} is written instead of {:?}", bytes, res, short(&got), short(want))) }
                rec.count(if res.is_ok() { "sinks just large enough" } else { "failures" });
            }
            let before = sink.0.borrow().1.clone();
            *sink.0.borrow_mut() = (String::new(), before.clone(), usize::MAX);
            f(t, r.chance(1, 2)).map_err(|_| format!("reports failure although the sink works again ({})", before))?;
            let got = sink.0.borrow().0.clone();
            if got != *want { return Err(format!("after {:?}, a formatter writes {:?} instead of {:?}", before, short(&got), short(want))) }
            rec.count("streams written by used formatters");
        }
        rec.case(&format!("{} {}", mode, ts.iter().map(|t| show(&lex(t.clone()), true, false)).collect::<Vec<_>>().join(" ")), true);
        Ok(())
    });
    let sel: Vec<&Ty> = types.iter().collect();
    run.section("nodes", run.n(12, 30) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let Some((n, _, i)) = accepted(ty, r, rec, 25)? else { return Ok(()) };
        let (a, b) = (n.display(false), n.display(true));
        faults(&format!("Display of {}", ty.name()), &a, |w| n.display_into(false, w), r, rec)?;
        faults(&format!("alternate Display of {}", ty.name()), &b, |w| n.display_into(true, w), r, rec)?;
        let (mut a, mut b) = (String::new(), String::new());
        let _ = n.write(true, &mut a);
        let _ = n.write(false, &mut b);
        faults(&format!("format_ast_node_pretty of {}", ty.name()), &a, |w| n.write(true, w), r, rec)?;
        faults(&format!("format_ast_node_compact of {}", ty.name()), &b, |w| n.write(false, w), r, rec)?;
        rec.case(&format!("{} <- {}", ty.name(), show(&i.tks, true, false)), !i.tks.is_empty());
        Ok(())
    });
}

