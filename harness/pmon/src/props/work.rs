//! C06: work and stack depth, observed by probes inside the item and separator productions.
use crate::eng::*;
use crate::gram::Gram;
use crate::probe::{self, Probe};
use crate::report::{guard, Res, Run};
use crate::rng::Rng;
use crate::zoo::{self, *};
use parsel::ast::*;
use parsel::Parse;

type I<const N: usize> = Probe<LitUint, N>;
type C = Probe<Token![,], 1>;
type Plus = Probe<Token![+], 1>;
type Star = Probe<Token![*], 3>;

type Build = fn(usize, &mut Rng) -> String;
type Go = fn(&str) -> Result<(), String>;

fn go<T: Parse + 'static>(s: &str) -> Result<(), String> {
    let r = parsel::parse_str::<T>(s).map(std::mem::forget).map_err(|e| e.to_string());
    r
}

fn sep(n: usize, s: &str) -> String { (0..n).map(|i| (i % 90).to_string()).collect::<Vec<_>>().join(s) }

/// name, parse, text of size n, item probe ids, separator probe ids, must it be accepted
struct Case(&'static str, Go, Build, &'static [usize], bool);

macro_rules! node { ($($i:item)*) => { $(#[derive(PartialEq, Eq, Hash, Debug, Clone, Parse, ToTokens, FromStr, Display, gram_derive::Gram)] $i)* } }
use parsel::{Display, FromStr, ToTokens};
node! {
    pub enum Alt { A(Probe<kx::A, 0>, Probe<LitUint, 4>), N(Probe<LitUint, 1>), W(Probe<Word, 2>), P(Probe<Paren<LitUint>, 3>) }
    pub struct Two(Word, LitUint);
    pub enum Last { X(Probe<kx::If, 0>), Y(Probe<LitStr, 1>), Z(Probe<Token![;], 2>), U(Probe<LitUint, 3>) }
    pub enum Tree { Leaf(Probe<LitUint, 0>), Node(#[parsel(recursive)] Paren<Separated<Box<Tree>, C>>) }
    pub enum Stm { Block(#[parsel(recursive)] Brace<Any<Box<Stm>>>), Ex(Probe<LitUint, 0>, Token![;]) }
}

fn cases() -> Vec<Case> {
    vec![
        Case("Any", go::<Any<I<0>>>, |n, _| sep(n, " "), &[0], true),
        Case("Any then a tail", go::<TailA>, |n, _| sep(n, " ") + " x x x", &[0, 2], true),
        Case("Many", go::<Many<I<0>>>, |n, _| sep(n, " "), &[0], true),
        Case("Many with a bad end", go::<Many<I<0>>>, |n, _| sep(n, " ") + " x", &[0], false),
        Case("Punctuated", go::<Punctuated<I<0>, C>>, |n, _| sep(n, ", "), &[0, 1], true),
        Case("Punctuated with trailing separator", go::<Punctuated<I<0>, C>>, |n, _| sep(n, ", ") + ",", &[0, 1], true),
        Case("Punctuated with a bad end", go::<Punctuated<I<0>, C>>, |n, _| sep(n, ", ") + ",,", &[0, 1], false),
        Case("Separated", go::<Separated<I<0>, C>>, |n, _| sep(n, ", "), &[0, 1], true),
        Case("Separated with a bad end", go::<Separated<I<0>, C>>, |n, _| sep(n, ", ") + ",", &[0, 1], false),
        Case("LeftAssoc", go::<LeftAssoc<Plus, I<0>>>, |n, _| sep(n, " + "), &[0, 1], true),
        Case("LeftAssoc with a bad end", go::<LeftAssoc<Plus, I<0>>>, |n, _| sep(n, " + ") + " +", &[0, 1], false),
        Case("RightAssoc", go::<RightAssoc<Plus, I<0>>>, |n, _| sep(n, " + "), &[0, 1], true),
        Case("RightAssoc with a bad end", go::<RightAssoc<Plus, I<0>>>, |n, _| sep(n, " + ") + " +", &[0, 1], false),
        Case("LeftAssoc of LeftAssoc", go::<LeftAssoc<Plus, LeftAssoc<Star, I<0>>>>, |n, r| { let mut s = String::from("1"); for _ in 1..n { s += if r.chance(1, 2) { " + 2" } else { " * 3" } } s }, &[0, 1, 3], true),
        Case("RightAssoc of LeftAssoc", go::<RightAssoc<Plus, LeftAssoc<Star, I<0>>>>, |n, r| { let mut s = String::from("1"); for _ in 1..n { s += if r.chance(1, 2) { " + 2" } else { " * 3" } } s }, &[0, 1, 3], true),
        Case("LeftAssoc of RightAssoc", go::<LeftAssoc<Plus, RightAssoc<Star, I<0>>>>, |n, r| { let mut s = String::from("1"); for _ in 1..n { s += if r.chance(1, 2) { " + 2" } else { " * 3" } } s }, &[0, 1, 3], true),
        Case("Any of groups", go::<Any<Paren<I<0>>>>, |n, _| (0..n).map(|_| "(1) ").collect(), &[0], true),
        Case("Any of choices", go::<Any<Alt>>, |n, r| (0..n).map(|_| *r.pick(&["a 1 ", "b ", "2 ", "(3) "])).collect(), &[0, 1, 2, 3, 4], true),
        Case("Any of last choices", go::<Any<Last>>, |n, _| sep(n, " "), &[0, 1, 2, 3], true),
        Case("Many of Either", go::<Many<Either<I<0>, Probe<Word, 1>>>>, |n, r| (0..n).map(|_| *r.pick(&["1 ", "x "])).collect(), &[0, 1], true),
        Case("Separated in Maybe in Any", go::<Any<Maybe<Plus, I<0>>>>, |_, _| String::new(), &[], false),
        Case("Any of pairs", go::<Any<(Pair2)>>, |n, _| (0..n).map(|_| "x 1 ").collect(), &[0, 2], true),
        Case("Tree, wide", go::<Tree>, |n, _| format!("({})", sep(n, ", ")), &[0, 1], true),
        Case("Tree, full", go::<Tree>, |n, r| { let mut s = String::from("("); let mut left = n; let mut d = 1; let mut first = true; while left > 0 { if !first { s += "," } first = false; if d < 6 && r.chance(1, 4) { s += "("; d += 1; first = true; } else { s += "7"; left -= 1; while d > 1 && r.chance(1, 5) { s += ")"; d -= 1 } } } if first { s += "7" } for _ in 0..d { s += ")" } s }, &[0, 1], true),
        Case("Statements", go::<Any<Stm>>, |n, r| { let mut s = String::new(); let mut d = 0; for _ in 0..n { match r.below(4) { 0 if d < 5 => { s += "{ "; d += 1 } 1 if d > 0 => { s += "} "; d -= 1 } _ => s += "1; " } } for _ in 0..d { s += "} " } s }, &[0], true),
    ].into_iter().filter(|c| c.0 != "Separated in Maybe in Any").collect()
}

node! {
    pub struct TailA(Any<I<0>>, Any<Probe<Word, 2>>);
    pub struct Pair2(Probe<Word, 2>, I<0>);
}

macro_rules! nodes_nd { ($($i:item)*) => { $(#[derive(PartialEq, Eq, Hash, Debug, Clone, Parse, ToTokens, gram_derive::Gram)] $i)* } }
type L0 = Probe<LitUint, 0>;
nodes_nd! {
    // one production inside another of the same kind
    pub struct NBody(#[parsel(recursive)] Maybe<Token![-], Box<NBody>>, L0);
    pub struct NBody2 { #[parsel(recursive)] m: Maybe<Token![-], Box<NBody2>>, t: Maybe<Token![!]>, p: Maybe<L0> }
    pub struct NPrefix(#[parsel(recursive)] Maybe<Paren<Box<NPrefix>>, Word>, L0);
    pub struct NPrefix2(#[parsel(recursive)] Maybe<Paren<Box<NPrefix2>>>, L0);
    pub struct NEitherL(#[parsel(recursive)] Either<Paren<Box<NEitherL>>, L0>);
    pub struct NEitherR(#[parsel(recursive)] Either<L0, Paren<Box<NEitherR>>>);
    pub struct NEitherM(#[parsel(recursive)] Either<Either<Word, Either<LitStr, Paren<Box<NEitherM>>>>, L0>);
    pub enum NFirst { P(#[parsel(recursive)] Paren<Box<NFirst>>), L(L0), W(Word) }
    pub enum NLast { W(Word), L(L0), P { #[parsel(recursive)] p: Paren<Box<NLast>> } }
    pub enum NMid { W(Word, Word), P(#[parsel(recursive)] Bracket<Box<NMid>>, Token![;]), L(L0) }
    pub enum NTail { Neg(Token![-], #[parsel(recursive)] Box<NTail>), L(L0) }
    pub enum NTail2 { L(L0), Neg { m: Token![-], #[parsel(recursive)] x: Box<NTail2>, w: Maybe<Token![;]> } }
    pub struct NAny(L0, #[parsel(recursive)] Brace<Any<Box<NAny>>>);
    pub struct NMany(L0, #[parsel(recursive)] Brace<Many<Box<NMany>>>);
    pub struct NPunct(L0, #[parsel(recursive)] Brace<Punctuated<Box<NPunct>, Token![,]>>);
    pub enum NSep { S(#[parsel(recursive)] Paren<Separated<Box<NSep>, Token![,]>>), L(L0) }
    pub struct NSepSep(L0, #[parsel(recursive)] Maybe<Token![!], Paren<Separated<L0, Bracket<Box<NSepSep>>>>>);
    pub enum NLeft { S(#[parsel(recursive)] Paren<LeftAssoc<Token![+], Box<NLeft>>>), L(L0) }
    pub enum NRight { S(#[parsel(recursive)] Paren<RightAssoc<Token![+], Box<NRight>>>), L(L0) }
    pub struct NLeftOp(L0, #[parsel(recursive)] Maybe<Token![!], Paren<LeftAssoc<Bracket<Box<NLeftOp>>, L0>>>);
    pub struct NRightOp(L0, #[parsel(recursive)] Maybe<Token![!], Paren<RightAssoc<Bracket<Box<NRightOp>>, L0>>>);
    pub struct NGroups(#[parsel(recursive)] Maybe<Token![!], Paren<Bracket<Brace<Box<NGroups>>>>>, L0);
    pub struct NAll { #[parsel(recursive)] m: Maybe<Token![-], Either<Paren<Separated<Box<NAll>, Token![,]>>, Brace<Any<Box<NAll>>>>>, p: L0 }
}

struct Nest { name: &'static str, parse: Go, g: crate::model::Gr, text: fn(usize, &mut Rng) -> String }

fn around(n: usize, a: &str, m: &str, b: &str) -> String { format!("{}{}{}", a.repeat(n), m, b.repeat(n)) }

fn nests() -> Vec<Nest> {
    macro_rules! nest { ($($t:ty: $f:expr;)*) => { vec![$(Nest { name: stringify!($t), parse: go::<$t>, g: crate::gram::g::<$t>(), text: $f }),*] } }
    fn all(n: usize, r: &mut Rng) -> String { if n == 0 { "1".into() } else { match r.below(4) { 0 => format!("-({}, 2) 1", all(n - 1, r)), 1 => format!("-{{ 3 {} }} 1", all(n - 1, r)), 2 => format!("-({}) 1", all(n - 1, r)), _ => format!("-{{ {} }} 2", all(n - 1, r)) } } }
    /// Levels of the same kind, each with many items, of which the next level is a random one.
    fn wide(n: usize, r: &mut Rng, open: &str, close: &str, sep: &str, leaf: &str) -> String {
        let (mut a, mut b) = (String::new(), String::new());
        for _ in 0..n {
            let k = *r.pick(&[0, 1, 3, 8, 9, 16, 17, 20, 33]);
            let (i, j) = match r.below(3) { 0 => (k, 0), 1 => (k / 2, k - k / 2), _ => (k, r.below(3)) };
            a += open;
            for _ in 0..i { a += leaf; a += sep }
            let mut t = String::new();
            for _ in 0..j { t += sep; t += leaf }
            t += close;
            b.insert_str(0, &t);
        }
        a + leaf + &b
    }
    nest! {
        NSep: |n, r| wide(n, r, "(", ")", ",", "1"); NLeft: |n, r| wide(n, r, "(", ")", "+", "1"); NRight: |n, r| wide(n, r, "(", ")", "+", "1");
        NAny: |n, r| wide(n, r, "1 {", "}", " ", "1{}"); NMany: |n, r| wide(n, r, "1 {", "}", " ", "1{}"); NPunct: |n, r| wide(n, r, "1 {", "}", ",", "1{}");
        NSepSep: |n, r| wide(n, r, "1!(1[", "]1)", "]1[", "1"); NLeftOp: |n, r| wide(n, r, "1!(1[", "]1)", "]1[", "1"); NRightOp: |n, r| wide(n, r, "1!(1[", "]1)", "]1[", "1");
        NBody: |n, _| around(n, "- ", "1", " 1"); NBody2: |n, _| around(n, "- ", "1", " ! 1");
        NPrefix: |n, _| around(n, "(", "1", ") w 1"); NPrefix2: |n, _| around(n, "(", "1", ") 1");
        NEitherL: |n, _| around(n, "(", "1", ")"); NEitherR: |n, _| around(n, "(", "1", ")"); NEitherM: |n, _| around(n, "(", "1", ")");
        NFirst: |n, _| around(n, "(", "1", ")"); NLast: |n, _| around(n, "(", "1", ")"); NMid: |n, _| around(n, "[", "1", "];");
        NTail: |n, _| around(n, "- ", "1", ""); NTail2: |n, _| around(n, "- ", "1", " ;");
        NAny: |n, _| around(n, "1 { 2 {} ", "3 {}", " 4 {} }"); NMany: |n, _| around(n, "1 { 2 {} ", "3 {}", " 4 {} }"); NPunct: |n, _| around(n, "1 { 2 {}, ", "3 {}", ", 4 {} }");
        NSep: |n, _| around(n, "(1, ", "(2)", ", 3)"); NSepSep: |n, _| around(n, "1 !(2 [", "3", "] 4)");
        NLeft: |n, _| around(n, "(1 + ", "(2)", " + 3)"); NRight: |n, _| around(n, "(1 + ", "(2)", " + 3)"); NLeftOp: |n, _| around(n, "1 !(2 [", "3", "] 4)"); NRightOp: |n, _| around(n, "1 !(2 [", "3", "] 4)");
        NGroups: |n, _| around(n, "!([{", "1", "}]) 1"); NAll: all;
    }
}

pub fn c06(run: &Run, types: &[Ty]) {
    run.rule("a parse of at least 10 items, or a choice that tried at least one alternative");
    let cs = cases();
    let sizes: &[usize] = &run.sizes(&[1, 2, 10, 100, 1000, 3000, 20_000, 70_000], &[1, 2, 3, 10, 100, 1000, 5000, 20_000, 60_000, 200_000]);
    // linear work, constant depth
    run.section_with("attempts and stack depth", (cs.len() * sizes.len()) as u64, 1 << 30, 4, |r, rec, idx| -> Res {
        let c = &cs[idx as usize % cs.len()];
        let n = sizes[idx as usize / cs.len()];
        rec.what = format!("{} with {} items", c.0, n);
        let shape = n.min(2000);
        let depth = |n: usize, r: &mut Rng| -> Result<(usize, Vec<probe::Hits>), String> {
            let s = (c.2)(n, r);
            let tokens = crate::tok::lex_str(&s).map_or(0, |t| crate::tok::count(&t));
            // any linear parse gets along with a handful of attempts per token
            probe::reset(8 * tokens as u64 + 64);
            let got = guard(|| (c.1)(&s));
            let h: Vec<_> = (0..8).map(probe::hits).collect();
            probe::unlimited();
            match got {
                Ok(Ok(())) if c.4 => {}
                Ok(Err(_)) if !c.4 => {}
                Ok(Ok(())) => return Err(format!("{} accepted what it must reject", c.0)),
                Ok(Err(e)) => return Err(format!("{} with {} items was rejected: {}", c.0, n, e)),
                Err(p) if p.contains("PMON-OVERRUN") => return Err(format!("{} with {} items ({} tokens) attempted items more than {} times", c.0, n, tokens, 8 * tokens + 64)),
                Err(p) => return Err(format!("{} with {} items panicked: {}", c.0, n, p)),
            }
            Ok((tokens, h))
        };
        let mut r2 = r.clone();
        let (_, small) = depth(30, &mut r2)?;
        let (tokens, h) = depth(n, r)?;
        let mut total = 0;
        for id in c.3 {
            let x = h[*id];
            total += x.attempts;
            // every item production is tried at most once per token, give or take the end
            if x.attempts > 3 * tokens as u64 + 8 { return Err(format!("{} with {} items ({} tokens): production #{} was attempted {} times", c.0, n, tokens, id, x.attempts)) }
            let flat = !c.0.starts_with("Tree") && !c.0.starts_with("Statements");
            if flat && x.attempts > 1 && small[*id].attempts > 1 {
                let (a, b) = (x.hi - x.lo, small[*id].hi - small[*id].lo);
                rec.max("max_stack_spread_bytes", a as u64);
                if a > b + 512 { return Err(format!("{}: production #{} runs within {} bytes of stack with 30 items, but within {} bytes with {} items", c.0, id, b, a, n)) }
            }
            if !flat && x.attempts > 1 {
                // nesting depth is bounded by construction, so must be the depth of the stack
                let a = x.hi - x.lo;
                rec.max("max_stack_spread_of_nested_bytes", a as u64);
                if a > 64 * 1024 { return Err(format!("{} with {} items uses {} bytes of stack at a nesting of at most 6", c.0, n, a)) }
            }
        }
        rec.add("attempts observed", total);
        rec.max("max_items", n as u64);
        rec.case(&format!("{} n={} ({} tokens, {} attempts)", c.0, n, tokens, total), shape >= 10);
        Ok(())
    });
    // nesting multiplies nothing: the attempts are those of a plain descent, give or take a factor
    let ns = nests();
    let depths: &[usize] = &run.sizes(&[0, 1, 2, 3, 4, 5, 8, 12, 16, 20, 24, 28, 32, 40, 48], &[36, 44, 52, 56]);
    run.section_with("attempts under nesting", (ns.len() * depths.len() * 3) as u64, 1 << 30, 8, |r, rec, idx| -> Res {
        let idx = idx as usize;
        let (c, n, end) = (&ns[idx / 3 % ns.len()], depths[idx / 3 / ns.len()], idx % 3);
        let mut s = (c.text)(n, r);
        // also ones that fail at the very end or in the middle
        match end { 0 => {} 1 => s.push_str(" ?"), _ => if let Some(k) = s.rfind(|c: char| c.is_ascii_digit()) { s.replace_range(k..=k, "=") } }
        let tks = crate::tok::lex_str(&s).expect("harness: nested input does not lex");
        let mut m = crate::model::Model::new(3_000_000);
        let want = match m.full(c.g, &tks) { Ok(_) => true, Err(crate::model::Fail::No) => false, Err(_) => { rec.count("skipped: beyond the budget of the model"); return Ok(()) } };
        let bound = 3 * m.probes.values().sum::<u64>() + 16;
        rec.what = format!("{} nested {} deep: {:?}", c.name, n, s);
        probe::reset(bound);
        let got = guard(|| (c.parse)(&s));
        let h: u64 = (0..8).map(|i| probe::hits(i).attempts).sum();
        probe::unlimited();
        match got {
            Ok(x) if x.is_ok() == want => {}
            Ok(x) => return Err(format!("{} nested {} deep ({:?}) is {}", c.name, n, s, if want { format!("rejected: {}", x.unwrap_err()) } else { "accepted".into() })),
            Err(p) if p.contains("PMON-OVERRUN") => return Err(format!("{} nested {} deep attempts its innermost productions more than {} times, three times what a plain descent needs", c.name, n, bound)),
            Err(p) => return Err(format!("{} nested {} deep panicked: {}", c.name, n, p)),
        }
        rec.add("attempts observed under nesting", h);
        rec.max("max_nesting", n as u64);
        rec.case(&format!("{} nested {} end {} ({} attempts)", c.name, n, end, h), n > 0);
        Ok(())
    });
    // a choice tries each alternative at most once, in order, and none after a success
    run.section("alternatives of a choice", run.n(60_000, 20), |r, rec, idx| -> Res {
        let mut toks = vec![];
        for _ in 0..r.range(0, 3) { toks.push(*r.pick(&["1", "x", "a", "if", "\"s\"", ";", "(1)", "(x)", "+", "a 2", "\"t\" 3"])) }
        let s = toks.join(" ");
        rec.what = format!("choice #{} on {:?}", idx % 6, s);
        probe::reset(10_000);
        probe::record();
        let (name, ok) = on_stream(&s, |p| match idx % 6 {
            0 => ("Alt", p.parse::<Alt>().is_ok()),
            1 => ("Last", p.parse::<Last>().is_ok()),
            2 => ("Either", p.parse::<Either<Probe<LitUint, 0>, Probe<Word, 1>>>().is_ok()),
            3 => ("Either of Either", p.parse::<Either<Either<Probe<Two, 0>, Probe<LitStr, 1>>, Either<Probe<Word, 2>, Probe<LitUint, 3>>>>().is_ok()),
            4 => ("Maybe", p.parse::<Maybe<Probe<Word, 0>>>().is_ok()),
            _ => ("Probed fields", p.parse::<Probe<zoo::Fields, 0>>().is_ok()),
        });
        let log = probe::log();
        probe::unlimited();
        let _ = ok;
        // (probe, tokens left, success): at one position, each alternative once, ascending, none after a success
        let firsts: Vec<_> = log.iter().filter(|(id, ..)| *id != 4).collect();
        for (k, a) in firsts.iter().enumerate() {
            for b in &firsts[..k] {
                if a.1 == b.1 && a.0 == b.0 { return Err(format!("{} on {:?}: alternative #{} was attempted twice at the same position", name, s, a.0)) }
                if a.1 == b.1 && b.2 && b.0 != 0 { return Err(format!("{} on {:?}: alternative #{} was attempted although #{} had succeeded", name, s, a.0, b.0)) }
                if a.1 == b.1 && b.0 > a.0 { return Err(format!("{} on {:?}: alternative #{} was attempted after #{}", name, s, a.0, b.0)) }
            }
        }
        // a success of alternative 0 that is not the prefix of a longer one ends the choice
        if idx % 6 != 0 { if let Some(k) = log.iter().position(|x| x.2) { if k + 1 < log.len() { return Err(format!("{} on {:?}: attempted more after a success: {:?}", name, s, log)) } } }
        rec.add("attempts observed", log.len() as u64);
        rec.case(&format!("{} <- {}", name, s), !log.is_empty());
        Ok(())
    });
    // a repetition or chain tries its item and its separator at most once at a position
    type Once = (&'static str, Go, &'static str);
    let once: [Once; 12] = [
        ("Any", go::<Any<I<0>>>, " "), ("Any then a tail", go::<TailA>, " "), ("Many", go::<Many<I<0>>>, " "), ("Punctuated", go::<Punctuated<I<0>, C>>, ","), ("Separated", go::<Separated<I<0>, C>>, ","),
        ("LeftAssoc", go::<LeftAssoc<Plus, I<0>>>, "+"), ("RightAssoc", go::<RightAssoc<Plus, I<0>>>, "+"), ("LeftAssoc of LeftAssoc", go::<LeftAssoc<Plus, LeftAssoc<Star, I<0>>>>, "+"), ("RightAssoc of RightAssoc", go::<RightAssoc<Plus, RightAssoc<Star, I<0>>>>, "+"),
        ("Separated in LeftAssoc", go::<LeftAssoc<Star, Separated<I<0>, C>>>, ","), ("Either of repetitions", go::<Either<Paren<LitUint>, Many<I<0>>>>, " "), ("Maybe", go::<Maybe<Probe<Token![!], 2>, Separated<I<0>, C>>>, ","),
    ];
    run.section("items of a repetition", run.n(3000, 20), |r, rec, idx| -> Res {
        let (name, parse, sep) = once[idx as usize % once.len()];
        let far = *r.pick(&[30, 30, 300, 1500]);
        let n = r.len(8, far);
        let mut s: String = if name == "Maybe" { "!".into() } else { String::new() };
        for i in 0..n {
            if i > 0 { s += match r.below(9) { 0 if name.contains("Assoc") => *r.pick(&["+", "*", "+", "*", ","]), _ => sep } }
            s += "1 ";
        }
        s += *r.pick(&["", "", "", "+", "*", ",", ", ,", "x", "x y", "+ +", "\"s\"", "(1)", "1 1"]);
        rec.what = format!("{} on {:?}", name, s);
        probe::reset(1_000_000);
        probe::record();
        let ok = guard(|| parse(&s)).map_err(|e| format!("{} on {:?}: {}", name, s, e))?.is_ok();
        let log = probe::log();
        probe::unlimited();
        let mut seen = std::collections::HashSet::new();
        for (id, left, _) in &log { if !seen.insert((*id, *left)) { return Err(format!("{} attempts production #{} twice with {} tokens left of {:?}", name, id, left, s)) } }
        rec.add("attempts observed", log.len() as u64);
        rec.count(if ok { "accepted" } else { "rejected" });
        rec.case(&format!("{} <- {}", name, s), log.len() > 1);
        Ok(())
    });
    // every type, every kind of input: the parse terminates (by the watchdog)
    run.section("termination", run.n(60, 20) * types.len() as u64, |r, rec, idx| -> Res {
        let ty = &types[idx as usize % types.len()];
        let Some(input) = input_for(ty.t.g(), r, rec) else { return Ok(()) };
        rec.what = format!("{} <- {}", ty.name(), input.brief());
        let ok = ty.t.parse_str(&input.s).is_ok();
        let _ = on_stream(&input.s, |p| ty.t.parse_in(p).is_ok());
        rec.count(if ok { "accepted" } else { "rejected" });
        rec.case(&format!("{} <- {}", ty.name(), input.brief()), input.tks.len() > 1);
        Ok(())
    });
}
