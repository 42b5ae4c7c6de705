//! C11: keyword lists.
use crate::kwops::*;
use crate::report::{Rec, Res, Run};
use crate::rng::Rng;
use crate::tok::{lex_str, T};
use parsel::ast::Ident;
use parsel::proc_macro2::TokenTree;
use parsel::{Span, TokenStream};
use std::cmp::Ordering;

const RUST: &[&str] = &["as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen", "union", "default", "auto", "raw", "macro_rules", "static_", "_", "__", "_x", "_1", "x", "str", "u8", "é", "Ω", "ß", "名", "a", "A", "e1", "r", "b", "br", "c", "r#if", "r#x", "r#as", "r#try", "r#foo", "r#_x", "r#é"];
const OTHER: &[&str] = &["", " ", "+", "::", "1", "1u8", "\"foo\"", "'a'", "'a", "b\"x\"", "()", "[]", "{}", "(foo)", "{_}", "foo bar", "foo foo", "foo;", ", foo", "-foo", "foo!", "# foo", "1 foo", "foo 1", "_ _", "$", "foo::bar", "(foo) foo", "'foo foo"];

fn word_for(m: &KwMod, all: &[KwMod], r: &mut Rng) -> String {
    let any = |r: &mut Rng| { let m = r.pick(all); if m.words.is_empty() { "zz".to_string() } else { r.pick(&m.words).to_string() } };
    let own = |r: &mut Rng| if m.words.is_empty() { any(r) } else { r.pick(&m.words).to_string() };
    let flip = |r: &mut Rng, s: String| { let v: Vec<char> = s.chars().collect(); let i = r.below(v.len()); v.iter().enumerate().map(|(j, c)| if j == i { if c.is_uppercase() { c.to_lowercase().to_string() } else { c.to_uppercase().to_string() } } else { c.to_string() }).collect::<String>() };
    match r.below(20) {
        0..=4 => own(r),
        5 => any(r),
        6 => { let w = own(r); flip(r, w) }
        7 => { let w = own(r); format!("{}{}", w, r.pick(&["_", "0", "s", "é", "a", "r"])) }
        8 => { let w = own(r); format!("{}{}", r.pick(&["_", "a", "é", "r", "r#"]), w) }
        9 => { let mut w = own(r); w.pop(); w }
        10 => { let w = own(r); w.chars().skip(1).collect() }
        11 => { let w = own(r); match w.strip_prefix("r#") { Some(x) => x.into(), None => format!("r#{}", w) } }
        12 => { let (a, b) = (own(r), own(r)); format!("{}{}", a, b) }
        13 => { let (a, b) = (own(r), any(r)); format!("{}{}{}", a, r.pick(&[" ", ",", "::", ";", "+"]), b) }
        14 => { let w = own(r); format!("{}{}{}", r.pick(&["(", "[", "{", "+", "1 ", "\"\""]), w, r.pick(&[")", "]", "}", "+", " 1", "!"])) }
        15 => OTHER[r.below(OTHER.len())].to_string(),
        16 => { let n = r.range(1, 7); (0..n).map(|i| *r.pick(if i == 0 { &['a', 'f', 'o', 'i', '_', 'T'][..] } else { &['a', 'f', 'o', 'i', '_', 'T', '1', 'é'][..] })).collect() }
        _ => r.pick(RUST).to_string(),
    }
}

/// A location that is none of the usual ones.
fn some_span(r: &mut Rng) -> Span {
    let n = r.range(0, 40);
    let ts: TokenStream = format!("{}{}a_place", "\n".repeat(r.range(0, 3)), " ".repeat(n)).parse().expect("harness: span");
    ts.into_iter().next().unwrap().span()
}

fn check_obs(what: &str, o: &KwObs, text: &str, at: Option<Span>) -> Res {
    for (n, s) in &o.text { if s != text { return Err(format!("{}: {} is {:?} instead of {:?}", what, n, s, text)) } }
    if let Some(at) = at { if (o.start, o.end) != ends(at) { return Err(format!("{}: it is at {:?}..{:?}, not at {:?}", what, o.start, o.end, ends(at))) } }
    Ok(())
}

fn outcome(what: &str, got: parsel::Result<KwObs>, want: Option<&str>, at: Option<Span>) -> Res {
    match (got, want) {
        (Ok(o), Some(w)) => check_obs(what, &o, w, at),
        (Err(_), None) => Ok(()),
        (Ok(o), None) => Err(format!("{} was accepted as {:?}", what, o.text)),
        (Err(e), Some(_)) => Err(format!("{} was rejected: {}", what, e)),
    }
}

fn one(m: &KwMod, s: &str, r: &mut Rng, rec: &mut Rec) -> Res {
    rec.what = format!("module {} on {:?}", m.name, s);
    let Some(tks) = lex_str(s) else { rec.count("texts that do not lex"); return Ok(()) };
    // exactly one word?
    let word = match &tks[..] { [t] => match &t.t { T::Ident(w) => Some(w.clone()), _ => None }, _ => None };
    let first = || -> TokenTree { s.parse::<TokenStream>().expect("harness: lexes").into_iter().next().expect("harness: a token") };
    let at = || word.as_ref().map(|_| first().span());
    let sp = some_span(r);
    for k in &m.kws {
        let want = word.as_deref().filter(|w| *w == k.word);
        let what = format!("{}::{} (`{}`) on {:?}", m.name, k.name, k.word, s);
        // the position of a token in the text is the same whenever the text is lexed
        outcome(&what, (k.parse)(s), want, at())?;
        outcome(&format!("from_str: {}", what), (k.from_str)(s), want, at())?;
        let ts: TokenStream = s.parse().expect("harness: lexes");
        outcome(&format!("parse2: {}", what), (k.parse2)(ts), want, at())?;
        if want.is_some() {
            outcome(&format!("set_span: {}", what), (k.moved)(s, sp), want, Some(sp))?;
            let (a, b) = (k.made)(sp);
            check_obs(&format!("{}::{}::new", m.name, k.name), &a, k.word, Some(sp))?;
            check_obs(&format!("{}::{}::default", m.name, k.name), &b, k.word, Some(Span::call_site()))?;
            rec.count("keywords accepted");
        } else { rec.count("keywords rejecting") }
        let (eq, cmp) = (k.same)(s);
        if eq != (k.word == s) || cmp != Some(k.word.cmp(s)) { return Err(format!("{} compares as equal {}, {:?}; the texts as {}, {:?}", what, eq, cmp, k.word == s, k.word.cmp(s))) }
        if cmp == Some(Ordering::Equal) { rec.count("equal to its text") }
    }
    let want = word.as_deref().filter(|w| !m.words.contains(w));
    let what = format!("identifier without the keywords of {} ({:?}) on {:?}", m.name, m.words, s);
    outcome(&what, (m.parse)(s), want, at())?;
    outcome(&format!("from_str: {}", what), (m.from_str)(s), want, at())?;
    if let Some(w) = &word {
        let id = || -> Ident { match first() { TokenTree::Ident(i) => i, _ => panic!("harness: not a word") } };
        outcome(&format!("try_from: {}", what), (m.try_from)(id()), want, at())?;
        outcome(&format!("set_span: {}", what), (m.moved)(id(), sp), want, Some(sp))?;
        rec.count(if want.is_some() { "identifiers accepted" } else { "keywords rejected as identifiers" });
        rec.case(&format!("{}: {}", m.name, w), true);
    } else { rec.count("not a word"); rec.case(&format!("{}: {:?}", m.name, s), false) }
    Ok(())
}

pub fn c11(run: &Run, mods: &[KwMod]) {
    run.rule("a single word was offered to every keyword and the identifier type of a module");
    run.section("declared lists", mods.len() as u64, |_, rec, idx| {
        let m = &mods[idx as usize];
        let (mut a, mut b): (Vec<&str>, Vec<&str>) = (m.list.to_vec(), m.words.clone());
        a.sort_unstable(); b.sort_unstable();
        rec.max("max_words", b.len() as u64);
        rec.case(&format!("{}: {:?}", m.name, b), true);
        if a != b { return Err(format!("module {} declares {:?} but lists {:?}", m.name, b, a)) }
        Ok(())
    });
    // every word of every module and of the host language, on every module
    let mut words: Vec<String> = RUST.iter().chain(OTHER).map(|s| s.to_string()).chain(mods.iter().flat_map(|m| m.words.iter().map(|w| w.to_string()))).collect();
    words.sort(); words.dedup();
    run.section("every word on every module", (mods.len() * words.len()) as u64, |r, rec, idx| one(&mods[idx as usize % mods.len()], &words[idx as usize / mods.len()], r, rec));
    run.section("variations of words", run.n(3000, 20) * mods.len() as u64, |r, rec, idx| {
        let m = &mods[idx as usize % mods.len()];
        let w = word_for(m, mods, r);
        let s = match r.below(6) { 0 => format!(" \n {}", w), 1 => format!("{} /* x */", w), 2 => format!("\t{}\r\n", w), _ => w };
        one(m, &s, r, rec)
    });
    // in a sequence: identifiers up to the first keyword or other token
    run.section("words in a sequence", run.n(1000, 20) * mods.len() as u64, |r, rec, idx| {
        let m = &mods[idx as usize % mods.len()];
        let n = r.range(0, 12);
        let ws: Vec<String> = (0..n).map(|_| if r.chance(2, 3) { format!("w{}", r.below(40)) } else { word_for(m, mods, r) }).collect();
        let s = ws.join("  ");
        rec.what = format!("module {} on {:?}", m.name, s);
        let Some(tks) = lex_str(&s) else { rec.count("texts that do not lex"); return Ok(()) };
        let k = tks.iter().take_while(|t| match &t.t { T::Ident(w) => !m.words.contains(&w.as_str()), _ => false }).count();
        let (got, rest) = (m.run)(&s);
        if got.len() != k || rest != crate::tok::show(&tks[k..], true, false) { return Err(format!("identifiers of {} in {:?}: {} accepted instead of {}, and {:?} left", m.name, s, got.len(), k, rest)) }
        for (o, t) in got.iter().zip(&tks) { if let T::Ident(w) = &t.t { check_obs(&format!("identifier in {:?}", s), o, w, None)? } }
        if k < tks.len() { rec.count("stopped at a keyword or another token") }
        rec.case(&format!("{}: {}", m.name, s), k > 0);
        Ok(())
    });
}
