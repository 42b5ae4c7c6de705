//! C08, C09: literals; C10: comparison and hashing.
use crate::eng::*;
use crate::gen::{Gen, GT};
use crate::gram::{lv, mk_lit, Cx, Gram};
use crate::lits::{self, LV};
use crate::model::{lit_model, V, K, G};
use crate::report::{Rec, Res, Run};
use crate::rng::Rng;
use crate::tok::{lex_str, show};
use parsel::ast::*;
use parsel::proc_macro2::{Literal, Span, TokenTree};
use parsel::{NotNan, ToTokens, TokenStream};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

type P = fn(&str) -> Result<LV, String>;
type P2 = fn(TokenStream) -> Result<LV, String>;

fn got<T: Gram>(x: T) -> LV { match x.dump(&mut Cx::default()).k { K::Lit(l) => l, _ => unreachable!() } }
fn p<T: Gram>(s: &str) -> Result<LV, String> { parsel::parse_str::<T>(s).map(got).map_err(|e| e.to_string()) }
fn p2<T: Gram>(t: TokenStream) -> Result<LV, String> { parsel::parse2::<T>(t).map(got).map_err(|e| e.to_string()) }

const KINDS: [(&str, G, P, P2); 9] = [
    ("LitBool", G::LitBool, p::<LitBool>, p2::<LitBool>), ("LitByte", G::LitByte, p::<LitByte>, p2::<LitByte>), ("LitInt", G::LitInt, p::<LitInt>, p2::<LitInt>), ("LitUint", G::LitUint, p::<LitUint>, p2::<LitUint>), ("LitFloat", G::LitFloat, p::<LitFloat>, p2::<LitFloat>),
    ("LitChar", G::LitChar, p::<LitChar>, p2::<LitChar>), ("LitStr", G::LitStr, p::<LitStr>, p2::<LitStr>), ("LitByteStr", G::LitByteStr, p::<LitByteStr>, p2::<LitByteStr>), ("Lit", G::Lit, p::<Lit>, p2::<Lit>),
];

/// Every literal type on this text, against what the text denotes.
fn spelled(s: &str, rec: &mut Rec) -> Res {
    let Some(tks) = lex_str(s) else { rec.count("not lexable"); return Ok(()) };
    rec.what = format!("literals on {:?}", s);
    let mut any = false;
    for (name, g, f, f2) in &KINDS {
        let want = lit_model(g, &tks, 0).and_then(|(v, n)| if n == tks.len() { Some(v) } else { None });
        let ts: TokenStream = s.parse().unwrap();
        for (how, r) in [("text", f(s)), ("tokens", f2(ts))] {
            match (&r, &want) {
                (Ok(a), Some(b)) if a == b => {}
                (Err(_), None) => {}
                (Ok(a), Some(b)) => return Err(format!("{} parsed {:?} ({}) to {:?}, it denotes {:?}", name, s, how, a, b)),
                (Ok(a), None) => return Err(format!("{} accepted {:?} ({}) as {:?}, must be rejected", name, s, how, a)),
                (Err(e), Some(b)) => return Err(format!("{} rejected {:?} ({}): {}; it denotes {:?}", name, s, how, e, b)),
            }
        }
        any |= want.is_some();
    }
    rec.count(if any { "accepted by some kind" } else { "rejected by every kind" });
    rec.case(s, true);
    Ok(())
}

fn spelling(r: &mut Rng) -> String {
    let mut s = match r.below(12) {
        0..=3 => {
            let v: u128 = match r.below(6) {
                0 => u128::from(u64::MAX).wrapping_add(r.below(5) as u128).wrapping_sub(2),
                1 => (1u128 << 63).wrapping_add(r.below(5) as u128).wrapping_sub(2),
                2 => { let k = r.below(128); (1u128 << k).wrapping_add(r.below(3) as u128).wrapping_sub(1) }
                3 => u128::from(lits::u64_any(r)) * u128::from(lits::u64_any(r)).max(1),
                _ => u128::from(lits::u64_any(r)),
            };
            if r.chance(1, 60) { "9".repeat(r.range(38, 60)) } else { lits::spell_int(r, v, true) }
        }
        4..=5 => lits::spell_float(r),
        6 => { let b = r.below(256) as u8; lits::spell_byte(r, b, true) }
        7 => { let c = lits::char_any(r); lits::spell_char(r, c, true) }
        8 => { let c = lits::string_any(r); lits::spell_str(r, &c, true) }
        9 => { let c = lits::bytes_any(r); lits::spell_bytes(r, &c, true) }
        10 => (*r.pick(&["true", "false", "True", "c\"x\"", "c\"\"", "cr\"x\"", "cr#\"a\"b\"#", "r\"\\n\"", "br\"\\x00\"", "\"\\\r\n  x\"", "\"a\r\nb\"", "b\"a\r\nb\"", "r\"a\r\nb\"", "b\"\\\n x\"", "x", "_", "r#true", "()", "+", "''"])).to_string(),
        _ => { let g = *r.pick(&["0", "1", "00", "0x0", "0b0", "0o0", "0_0", "0u8", "0i8", "0x_0", "0.", "1.", "0.0", "0.0f32", "1e5", "1e05", "1e0_5", "1.0e-5", "0xe+1", "0xee", "0b1e1"]); g.to_string() }
    };
    // any token may carry a suffix
    if r.chance(1, 40) && !s.ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '.') { s.push_str(*r.pick(&["u8", "suffix", "_x"])) }
    match r.below(8) { 0 | 1 => format!("-{}", s), 2 => format!("{}-{}{}", r.pick(&["", " "]), r.pick(&[" ", "\n", "/* c */", "  ", "\t"]), s), 3 => format!("+{}", s), 4 => format!("{} {}", s, r.pick(&["1", "-", "x", ",", "u8"])), _ => s }
}

pub fn c08(run: &Run, _: &[Ty]) {
    run.rule("the text is a token sequence that some or none of the nine literal types accepts");
    run.section("spellings", run.n(60_000, 30), |r, rec, _| { let s = spelling(r); spelled(&s, rec) });
    // boundaries of the integer types, in every radix, sign and suffix
    let mut table: Vec<String> = vec![];
    for v in [0u128, 1, 127, 128, 255, 256, i64::MAX as u128 - 1, i64::MAX as u128, i64::MAX as u128 + 1, i64::MAX as u128 + 2, u64::MAX as u128 - 1, u64::MAX as u128, u64::MAX as u128 + 1, u64::MAX as u128 + 2, i128::MAX as u128, i128::MAX as u128 + 1, u128::MAX] {
        for s in [format!("{}", v), format!("0x{:x}", v), format!("0x{:X}", v), format!("0o{:o}", v), format!("0b{:b}", v), format!("000{}", v), format!("{}_", v), format!("0x__{:x}__", v)] {
            for suf in ["", "u8", "i64", "u64", "u128", "isize", "foo"] { for sign in ["", "-", "- ", "+"] { table.push(format!("{}{}{}", sign, s, suf)) } }
        }
    }
    for big in ["340282366920938463463374607431768211456", "99999999999999999999999999999999999999999999", "0xffffffffffffffffffffffffffffffffffff", "0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111"] { for sign in ["", "-"] { table.push(format!("{}{}", sign, big)) } }
    for f in ["0.0", "1.0", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1.79769313486231580793e308", "1.797693134862315807e308", "1.7976931348623158079372897140530341507993413271003782693617377898044496829276475094664901797758720709633028641669288791094655554785194040263065748867150582068190890200070838367627385484581771153176447573027006985557136695962284291481986083493647529271907416844436551070434271155969950809304288017790417449779e308", "17976931348623158e292", "2e308", "1e309", "1e310", "1e1000", "1e99999999999999999999", "0e999999999", "0.000e400", "4.9406564584124654e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1e-323", "1e-400", "1e-99999999999", "2.2250738585072014e-308", "2.2250738585072011e-308", "123456789012345678901234567890.0", "9007199254740993.0", "0.1", "0.30000000000000004", "1e23", "8.5e22", "1.", "1.e5" , "1_0.0_1", "1e1_0", "1_e1", "3.4028236e38f32", "1e39f32"] {
        for suf in ["", "f32", "f64"] { for sign in ["", "-", "- "] { if f.ends_with('.') && !suf.is_empty() { continue } if f.ends_with("f32") && !suf.is_empty() { continue } table.push(format!("{}{}{}", sign, f, suf)) } }
    }
    run.section("boundary values", table.len() as u64, |_, rec, i| spelled(&table[i as usize], rec));
    // all bytes and escapes, all characters
    run.section("every byte and escape", 256, |_, rec, b| {
        let b = b as u8;
        let mut v = vec![format!("b'\\x{:02x}'", b), format!("b'\\x{:02X}'", b), format!("b\"\\x{:02x}\"", b), format!("'\\x{:02x}'", b), format!("\"\\x{:02x}\"", b), format!("\"a\\x{:02X}b\"", b), format!("'\\u{{{:x}}}'", b), format!("b\"z\\x{:02x}y\\x{:02x}\"", b, b)];
        if (0x20..0x7f).contains(&b) { for q in ["'", "\"", "b'", "b\""] { v.push(format!("{}{}{}", q, b as char, &q[q.len() - 1..])); v.push(format!("{}\\{}{}", q, b as char, &q[q.len() - 1..])) } }
        for s in v { spelled(&s, rec)? }
        Ok(())
    });
    let block = 256;
    let blocks: Vec<u32> = if run.thorough() { (0..0x110000 / block).collect() } else { (0..12).chain((0..0x110000 / block).step_by(61)).chain([0xd7, 0xe0, 0xfe, 0xff, 0x10ff]).collect() };
    run.section("characters", blocks.len() as u64, |r, rec, i| {
        for c in blocks[i as usize] * block..(blocks[i as usize] + 1) * block {
            let Some(c) = char::from_u32(c) else { spelled(&format!("'\\u{{{:x}}}'", c), rec)?; continue };
            for s in [lits::spell_char(r, c, false), lits::spell_char(r, c, true), lits::spell_str(r, &c.to_string(), true)] { spelled(&s, rec)? }
        }
        Ok(())
    });
    // literal tokens made by the host library, not by the lexer
    run.section("constructed literal tokens", run.n(8_000, 20), |r, rec, _| {
        let (l, v): (Literal, LV) = match r.below(12) {
            0 => { let x = lits::i64_any(r); (Literal::i64_unsuffixed(x), LV::Int(x)) }
            1 => { let x = lits::i64_any(r); (Literal::i64_suffixed(x), LV::Int(x)) }
            2 => { let x = lits::u64_any(r); (Literal::u64_unsuffixed(x), LV::Uint(x)) }
            3 => { let x = lits::u64_any(r); (Literal::u64_suffixed(x), LV::Uint(x)) }
            4 => { let x = lits::f64_any(r); (Literal::f64_unsuffixed(x), LV::Float(x.to_bits())) }
            5 => { let x = lits::i64_any(r) as i32; (Literal::i32_suffixed(x), LV::Int(x.into())) }
            6 => { let x = lits::char_any(r); (Literal::character(x), LV::Char(x)) }
            7 => { let x = lits::string_any(r); (Literal::string(&x), LV::Str(x)) }
            8 => { let x = lits::bytes_any(r); (Literal::byte_string(&x), LV::Bytes(x)) }
            9 => { let x = r.below(256) as u8; (Literal::u8_suffixed(x), LV::Uint(x.into())) }
            10 => { let x = lits::i64_any(r); (Literal::i128_unsuffixed(i128::from(x)), LV::Int(x)) }
            _ => { let x = lits::u64_any(r); (Literal::usize_unsuffixed(x as usize), LV::Uint(x)) }
        };
        let text = l.to_string();
        rec.what = format!("constructed token {}", text);
        for (name, g, _, f2) in &KINDS {
            let want = match (g, &v) {
                (G::LitInt | G::Lit, LV::Int(x)) if *x < 0 => Some(v.clone()),
                (G::LitInt, LV::Int(x)) => Some(LV::Int(*x)),
                (G::LitInt, LV::Uint(x)) => i64::try_from(*x).ok().map(LV::Int),
                (G::LitUint | G::Lit, LV::Int(x)) => u64::try_from(*x).ok().map(LV::Uint),
                (G::LitUint | G::Lit, LV::Uint(x)) => Some(LV::Uint(*x)),
                (G::LitFloat | G::Lit, LV::Float(_)) | (G::LitChar | G::Lit, LV::Char(_)) | (G::LitStr | G::Lit, LV::Str(_)) | (G::LitByteStr | G::Lit, LV::Bytes(_)) => Some(v.clone()),
                _ => None,
            };
            let got = f2(TokenStream::from(TokenTree::from(l.clone())));
            if got.as_ref().ok() != want.as_ref() { return Err(format!("{} on the literal token {} gives {:?}, expected {:?}", name, text, got, want)) }
        }
        rec.case(&format!("token {}", text), true);
        Ok(())
    });
}

/// A value in, printed in every way, parsed back: the same type and value; and each print is a
/// literal that denotes the value.
fn there_and_back<T: Gram + parsel::Display + Clone + Into<TokenTree>>(v: &LV, denotes: &LV, rec: &mut Rec) -> Res {
    rec.what = format!("{} of {:?}", std::any::type_name::<T>(), v);
    let x = T::build(&V::of(K::Lit(v.clone())));
    let name = std::any::type_name::<T>().rsplit("::").next().unwrap();
    let tokens = x.to_token_stream();
    let (mut pretty, mut compact) = (String::new(), String::new());
    parsel::util::format_ast_node_pretty(&x, &mut pretty).map_err(|_| "cannot format")?;
    parsel::util::format_ast_node_compact(&x, &mut compact).map_err(|_| "cannot format")?;
    for (how, s) in [("display", format!("{}", x)), ("alternate display", format!("{:#}", x)), ("tokens as text", tokens.to_string()), ("pretty", pretty), ("compact", compact)] {
        check_print(name, how, &s, denotes)?;
        match p::<T>(&s) { Ok(w) if w == *v => {} r => return Err(format!("{} of {:?} prints ({}) as {:?}, which parses back to {:?}", name, v, how, s, r)) }
    }
    match p2::<T>(tokens.clone()) { Ok(w) if w == *v => {} r => return Err(format!("{} of {:?} has tokens {}, which parse back to {:?}", name, v, tokens, r)) }
    let tt: TokenTree = x.clone().into();
    match p2::<T>(TokenStream::from(tt.clone())) { Ok(w) if w == *v => {} r => return Err(format!("{} of {:?} converts to the token tree {}, which parses back to {:?}", name, v, tt, r)) }
    rec.case(&format!("{} {:?}", name, v), true);
    Ok(())
}

fn check_print(name: &str, how: &str, s: &str, v: &LV) -> Res {
    let Some(t) = lex_str(s) else { return Err(format!("{} of {:?} prints ({}) as {:?}, which is not a token sequence", name, v, how, s)) };
    let kind = match v { LV::Bool(_) => G::LitBool, LV::Byte(_) => G::LitByte, LV::Int(_) => G::LitInt, LV::Uint(_) => G::LitUint, LV::Float(_) => G::LitFloat, LV::Char(_) => G::LitChar, LV::Str(_) => G::LitStr, LV::Bytes(_) => G::LitByteStr };
    match lit_model(&kind, &t, 0) { Some((w, n)) if w == *v && n == t.len() => Ok(()), o => Err(format!("{} of {:?} prints ({}) as {:?}, which denotes {:?}", name, v, how, s, o)) }
}

fn canonical(v: &LV) -> LV { match v { LV::Int(x) if *x >= 0 => LV::Uint(*x as u64), v => v.clone() } }

fn lit_tree(l: &Lit) -> TokenStream { l.to_token_stream() }

/// any-literal, host library types
fn host(v: &LV, rec: &mut Rec) -> Res {
    let c = canonical(v);
    let l = mk_lit(&c);
    rec.what = format!("Lit of {:?}", c);
    for (how, s) in [("display", format!("{}", l)), ("alternate display", format!("{:#}", l)), ("tokens", lit_tree(&l).to_string())] {
        check_print("Lit", how, &s, &c)?;
        match p::<Lit>(&s) { Ok(w) if w == c => {} r => return Err(format!("Lit of {:?} prints ({}) as {:?}, which parses back to {:?}", c, how, s, r)) }
    }
    match p2::<Lit>(lit_tree(&l)) { Ok(w) if w == c => {} r => return Err(format!("Lit of {:?} has tokens {}, which parse back to {:?}", c, lit_tree(&l), r)) }
    let y: parsel::syn::Lit = l.clone().into();
    let kind_ok = matches!((&y, &c), (parsel::syn::Lit::Bool(_), LV::Bool(_)) | (parsel::syn::Lit::Byte(_), LV::Byte(_)) | (parsel::syn::Lit::Int(_), LV::Int(_) | LV::Uint(_)) | (parsel::syn::Lit::Float(_), LV::Float(_)) | (parsel::syn::Lit::Char(_), LV::Char(_)) | (parsel::syn::Lit::Str(_), LV::Str(_)) | (parsel::syn::Lit::ByteStr(_), LV::Bytes(_)));
    if !kind_ok { return Err(format!("Lit of {:?} converts to syn's {:?}", c, y.to_token_stream().to_string())) }
    match Lit::try_from(y.clone()) { Ok(w) if lv(&w) == c => {} r => return Err(format!("Lit of {:?} through syn::Lit gives {:?}", c, r)) }
    macro_rules! through { ($ty:ident, $syn:ident, $val:expr) => {{
        let a = <$ty>::build(&V::of(K::Lit(v.clone())));
        let b: parsel::syn::$syn = a.clone().into();
        #[allow(unused_variables)] let sv = $val(&b);
        match <$ty>::try_from(b) { Ok(w) => if got(w.clone()) != *v { return Err(format!("{:?} through syn::{} gives {:?}", v, stringify!($syn), got(w))) }, Err(_) => return Err(format!("{:?} through syn::{} fails", v, stringify!($syn))) }
        sv
    }} }
    let agrees = match v {
        LV::Bool(x) => through!(LitBool, LitBool, |b: &parsel::syn::LitBool| b.value()) == *x,
        LV::Byte(x) => through!(LitByte, LitByte, |b: &parsel::syn::LitByte| b.value()) == *x,
        LV::Int(x) => through!(LitInt, LitInt, |b: &parsel::syn::LitInt| b.base10_parse::<i64>().unwrap()) == *x,
        LV::Uint(x) => through!(LitUint, LitInt, |b: &parsel::syn::LitInt| b.base10_parse::<u64>().unwrap()) == *x,
        LV::Float(x) => through!(LitFloat, LitFloat, |b: &parsel::syn::LitFloat| b.base10_parse::<f64>().unwrap()).to_bits() == *x,
        LV::Char(x) => through!(LitChar, LitChar, |b: &parsel::syn::LitChar| b.value()) == *x,
        LV::Str(x) => through!(LitStr, LitStr, |b: &parsel::syn::LitStr| b.value()) == *x,
        LV::Bytes(x) => through!(LitByteStr, LitByteStr, |b: &parsel::syn::LitByteStr| b.value()) == *x,
    };
    if !agrees { return Err(format!("{:?} has another value as a syn literal", v)) }
    rec.case(&format!("Lit {:?}", v), true);
    Ok(())
}

fn round(v: &LV, rec: &mut Rec) -> Res {
    match v {
        LV::Bool(_) => there_and_back::<LitBool>(v, v, rec)?,
        LV::Byte(_) => there_and_back::<LitByte>(v, v, rec)?,
        LV::Int(_) => there_and_back::<LitInt>(v, v, rec)?,
        LV::Uint(_) => there_and_back::<LitUint>(v, v, rec)?,
        LV::Float(_) => there_and_back::<LitFloat>(v, v, rec)?,
        LV::Char(_) => there_and_back::<LitChar>(v, v, rec)?,
        LV::Str(_) => there_and_back::<LitStr>(v, v, rec)?,
        LV::Bytes(_) => there_and_back::<LitByteStr>(v, v, rec)?,
    }
    host(v, rec)
}

pub fn random_round(r: &mut Rng, rec: &mut Rec, i: u64) -> Res { let v = Gen::new(r, 0).lv(&LKINDS[i as usize % 8]); round(&v, rec) }

const LKINDS: [G; 8] = [G::LitBool, G::LitByte, G::LitInt, G::LitUint, G::LitFloat, G::LitChar, G::LitStr, G::LitByteStr];

pub fn c09(run: &Run, _: &[Ty]) {
    run.rule("a value was printed and parsed back in every form");
    run.section("random values", run.n(40_000, 30), |r, rec, i| random_round(r, rec, i));
    let mut table: Vec<LV> = vec![LV::Bool(true), LV::Bool(false)];
    table.extend((0..=255).map(LV::Byte));
    for k in 0..64 { for d in [-1i64, 0, 1] { let x = (1u64 << k).wrapping_add(d as u64); table.push(LV::Uint(x)); table.push(LV::Int(x as i64)); table.push(LV::Int((x as i64).wrapping_neg())) } }
    let mut p10 = 1u64;
    for _ in 0..20 { for d in [-1i64, 0, 1] { let x = p10.wrapping_add(d as u64); table.push(LV::Uint(x)); table.push(LV::Int(x as i64)); table.push(LV::Int((x as i64).wrapping_neg())); table.push(LV::Float((x as f64).to_bits())); table.push(LV::Float((-(x as f64)).to_bits())); table.push(LV::Float((1.0 / x.max(1) as f64).to_bits())) } p10 = p10.wrapping_mul(10) }
    // every exponent
    for e in 0..2047u64 { for m in [0u64, 1, (1 << 52) - 1, 0x8_0000_0000_0000] { table.push(LV::Float(e << 52 | m)); table.push(LV::Float(1 << 63 | e << 52 | m)) } }
    for e in -330..309 { if let Ok(f) = format!("1e{}", e).parse::<f64>() { table.push(LV::Float(f.to_bits())); table.push(LV::Float((-f).to_bits())) } }
    run.section("boundary values", table.len() as u64, |_, rec, i| round(&table[i as usize], rec));
    let block = 256u32;
    let blocks: Vec<u32> = if run.thorough() { (0..0x110000 / block).collect() } else { (0..16).chain((0..0x110000 / block).step_by(23)).chain([0x20, 0x21, 0xd7, 0xe0, 0xfe, 0xff, 0x1f6, 0xe00, 0x10ff]).collect() };
    run.section("characters, alone and in strings", blocks.len() as u64, |_, rec, i| {
        for c in blocks[i as usize] * block..(blocks[i as usize] + 1) * block {
            let Some(c) = char::from_u32(c) else { continue };
            round(&LV::Char(c), rec)?;
            if c as u32 % 4 == 0 || (c as u32) < 0x300 { for s in [format!("{}", c), format!("a{}1", c), format!("\\{}\"", c), format!("{}\n{}", c, c), format!("\0{}7", c)] { round(&LV::Str(s), rec)? } }
            if (c as u32) < 0x100 { let b = c as u32 as u8; for s in [vec![b], vec![b, b'0'], vec![0, b], vec![b, b'\\', b'"'], vec![b'\'', b, 0xff]] { round(&LV::Bytes(s), rec)? } }
        }
        Ok(())
    });
    run.section("long strings", run.n(40, 10), |r, rec, _| {
        let n = r.range(1000, 20_000);
        let s: String = (0..n).map(|_| lits::char_any(r)).collect();
        round(&LV::Str(s), rec)?;
        let b: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
        round(&LV::Bytes(b), rec)
    });
}

// ------------------------------------------------------------------ C10

pub fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

/// Some different source locations.
pub fn spans(r: &mut Rng) -> Vec<Span> {
    let mut s = String::new();
    for _ in 0..12 { s.push_str(*r.pick(&["a ", "\n bb ", "  ű ", "\"x\ny\" "])) }
    let mut v: Vec<Span> = s.parse::<TokenStream>().unwrap().into_iter().map(|t| t.span()).collect();
    v.push(Span::call_site());
    v
}

pub fn loc(s: Span) -> (usize, usize, usize, usize) { (s.start().line, s.start().column, s.end().line, s.end().column) }

/// A value that differs from another one in little, if at all.
trait Near: Clone { fn near(&self, r: &mut Rng) -> Self; }
impl Near for bool { fn near(&self, _: &mut Rng) -> Self { !*self } }
impl Near for u8 { fn near(&self, r: &mut Rng) -> Self { *self ^ (1 << r.below(8)) } }
impl Near for i64 { fn near(&self, r: &mut Rng) -> Self { match r.below(3) { 0 => self.wrapping_neg(), 1 => *self ^ (1 << r.below(64)), _ => self.wrapping_add(1) } } }
impl Near for u64 { fn near(&self, r: &mut Rng) -> Self { match r.below(2) { 0 => *self ^ (1 << r.below(64)), _ => self.wrapping_sub(1) } } }
impl Near for NotNan<f64> { fn near(&self, r: &mut Rng) -> Self { NotNan::new(match r.below(3) { 0 => -**self, 1 => f64::from_bits(self.to_bits() ^ (1 << r.below(64))), _ => f64::from_bits(self.to_bits().wrapping_add(1)) }).unwrap_or(*self) } }
impl Near for char { fn near(&self, r: &mut Rng) -> Self { match r.below(3) { 0 => char::from_u32(*self as u32 ^ (1 << r.below(21))).unwrap_or(*self), 1 => self.to_lowercase().next().unwrap(), _ => self.to_uppercase().next().unwrap() } } }
impl<T: Near> Near for Vec<T> {
    fn near(&self, r: &mut Rng) -> Self {
        let mut v = self.clone();
        let n = v.len();
        if n == 0 { return v }
        // mostly near an end
        let k = match r.below(3) { 0 => n - 1 - r.below(n.min(3)), 1 => r.below(n), _ => 0 };
        match r.below(6) { 0 => v.truncate(k), 1 => v.push(self[k].clone()), 2 => { let x = v[k].near(r); v[k] = x } 3 => v.swap(k, n - 1), 4 => { v.remove(k); } _ => v.insert(k, self[n - 1].clone()) }
        v
    }
}
impl Near for String { fn near(&self, r: &mut Rng) -> Self { match r.below(8) { 0 => self.to_lowercase(), 1 => format!("{} ", self), _ => self.chars().collect::<Vec<_>>().near(r).into_iter().collect() } } }

macro_rules! compare { ($r:expr, $rec:expr, $ty:ident, $raw:ty, $gen:expr, $look:ty) => {{
    let sp = spans($r);
    let a: $raw = $gen($r);
    let b: $raw = match $r.below(6) { 0 | 1 => a.clone(), 2 => a.near($r), _ => $gen($r) };
    let c: $raw = match $r.below(6) { 0 | 1 => b.clone(), 2 => b.near($r), _ => $gen($r) };
    $rec.what = format!("{} of {:?} and {:?}", stringify!($ty), a, b);
    let (s1, s2) = (*$r.pick(&sp), *$r.pick(&sp));
    let x = <$ty>::new(a.clone(), s1);
    let y = <$ty>::new(b.clone(), s2);
    let same = a == b;
    let fail = |m: &str| -> Res { Err(format!("{}: {} for {:?} and {:?}", stringify!($ty), m, a, b)) };
    if (x == y) != same || (y == x) != same || (x != y) == same { return fail("equality of nodes differs from that of their values") }
    if (x == b) != same || (y == a) != same { return fail("equality of a node and a bare value differs from that of values") }
    if x.cmp(&y) != a.cmp(&b) || x.partial_cmp(&y) != Some(a.cmp(&b)) || y.cmp(&x) != b.cmp(&a) { return fail("ordering of nodes differs from that of their values") }
    if x.partial_cmp(&b) != Some(a.cmp(&b)) || (x < b) != (a < b) || (x >= y) != (a >= b) { return fail("ordering of a node and a bare value differs from that of values") }
    if same && hash_of(&x) != hash_of(&y) { return fail("equal nodes hash differently") }
    let l: &$look = Borrow::<$look>::borrow(&x);
    if hash_of(l) != hash_of(&x) { return fail("a node and its borrowed value hash differently") }
    // lookup by a bare value
    let mut hm = HashMap::new(); hm.insert(x.clone(), 1); hm.insert(<$ty>::new(c.clone(), s2), 2);
    let mut bm = BTreeMap::new(); bm.insert(x.clone(), 1); bm.insert(<$ty>::new(c.clone(), s2), 2);
    let want = if c == b { Some(2) } else if same { Some(1) } else { None };
    let key: &$look = Borrow::<$look>::borrow(&y);
    if hm.get(key).copied() != want { return fail("lookup in a hash map by a bare value goes wrong") }
    if bm.get(key).copied() != want { return fail("lookup in a tree map by a bare value goes wrong") }
    if hm.get(&y).copied() != want || bm.get(&y).copied() != want { return fail("lookup by a node at another location goes wrong") }
    let k: Ordering = a.cmp(&b);
    $rec.count(match k { Ordering::Equal => "equal pairs", _ => "different pairs" });
    $rec.case(&format!("{} {:?} {:?}", stringify!($ty), a, b), loc(s1) != loc(s2));
    Ok(())
}} }

fn near(r: &mut Rng, f: fn(&mut Rng) -> u64) -> u64 { let x = f(r); if r.chance(1, 2) { x } else { x.wrapping_add(1) } }

fn short(r: &mut Rng) -> String { if r.chance(1, 2) { lits::string_any(r) } else { (*r.pick(&["", "a", "b", "ab", "aa", "A", "é", "e\u{301}", "a\0", "z", "10", "9"])).to_string() } }

/// equality of values; floats compare as numbers
pub fn veq(a: &V, b: &V) -> bool {
    match (&a.k, &b.k) {
        (K::Lit(LV::Float(x)), K::Lit(LV::Float(y))) => f64::from_bits(*x) == f64::from_bits(*y),
        (K::Seq(x), K::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| veq(a, b)),
        (K::Var(i, x), K::Var(j, y)) => i == j && x.len() == y.len() && x.iter().zip(y).all(|(a, b)| veq(a, b)),
        (K::List(x, p), K::List(y, q)) => x.len() == y.len() && p.len() == q.len() && x.iter().zip(y).all(|(a, b)| veq(a, b)) && p.iter().zip(q).all(|(a, b)| veq(a, b)),
        (K::Just(x), K::Just(y)) => veq(&x.0, &y.0) && veq(&x.1, &y.1),
        (K::Left(x), K::Left(y)) | (K::Right(x), K::Right(y)) | (K::Leaf(x), K::Leaf(y)) => veq(x, y),
        (K::Group(d, x), K::Group(e, y)) => d == e && veq(x, y),
        (K::Bin(s, x), K::Bin(t, y)) => s == t && veq(&x.0, &y.0) && veq(&x.1, &y.1) && veq(&x.2, &y.2),
        (x, y) => x == y,
    }
}

/// Replaces a literal or word, the last one or any.
fn alter(gts: &mut [GT], r: &mut Rng, last: bool) -> bool {
    let n = gts.len();
    if n == 0 { return false }
    let from = if last { n - 1 } else { r.below(n) };
    for d in 0..n {
        let k = if last { from - d } else { (from + d) % n };
        match &mut gts[k] {
            GT::Group(_, x) => if alter(x, r, last) { return true },
            GT::Lit(s) if s.bytes().all(|b| b.is_ascii_digit()) => { *s = format!("{}", s.parse::<u64>().unwrap().wrapping_add(1)); return true }
            GT::Word(s) if s.starts_with(['a', 'c', 'x', 'y']) => { s.push('q'); return true }
            _ => {}
        }
    }
    false
}

pub fn c10(run: &Run, types: &[Ty]) {
    run.rule("two nodes with different source locations were compared");
    run.section("literals", run.n(60_000, 20), |r, rec, i| -> Res {
        match i % 8 {
            0 => compare!(r, rec, LitBool, bool, |r: &mut Rng| r.chance(1, 2), bool),
            1 => compare!(r, rec, LitByte, u8, |r: &mut Rng| r.below(256) as u8, u8),
            2 => compare!(r, rec, LitInt, i64, |r: &mut Rng| if r.chance(1, 3) { r.below(7) as i64 - 3 } else { lits::i64_any(r) }, i64),
            3 => compare!(r, rec, LitUint, u64, |r: &mut Rng| near(r, lits::u64_any), u64),
            4 => compare!(r, rec, LitFloat, NotNan<f64>, |r: &mut Rng| NotNan::new(if r.chance(1, 3) { *r.pick(&[0.0, -0.0, 1.0, -1.0, 1e300, -1e300]) } else { lits::f64_any(r) }).unwrap(), NotNan<f64>),
            5 => compare!(r, rec, LitChar, char, lits::char_any, char),
            6 => { if r.chance(1, 2) { compare!(r, rec, LitStr, String, short, String) } else { compare!(r, rec, LitStr, String, short, str) } }
            _ => { let g = |r: &mut Rng| if r.chance(1, 2) { lits::bytes_any(r) } else { short(r).into_bytes() }; if r.chance(1, 2) { compare!(r, rec, LitByteStr, Vec<u8>, g, Vec<u8>) } else { compare!(r, rec, LitByteStr, Vec<u8>, g, [u8]) } }
        }
    });
    run.section("strings and bytes against unsized values", run.n(20_000, 20), |r, rec, _| -> Res {
        let a = short(r);
        let b = match r.below(6) { 0 => a.clone(), 1 | 2 => a.near(r), _ => short(r) };
        let sp = spans(r);
        let x = LitStr::new(a.clone(), *r.pick(&sp));
        if (x == *b.as_str()) != (a == b) || x.partial_cmp(b.as_str()) != Some(a.cmp(&b)) { return Err(format!("LitStr {:?} compared with the str {:?}", a, b)) }
        let y = LitByteStr::new(a.clone().into_bytes(), *r.pick(&sp));
        if (y == *b.as_bytes()) != (a == b) || y.partial_cmp(b.as_bytes()) != Some(a.as_bytes().cmp(b.as_bytes())) { return Err(format!("LitByteStr {:?} compared with the bytes {:?}", a, b)) }
        rec.case(&format!("{:?} {:?}", a, b), true);
        Ok(())
    });
    run.section("any-literals", run.n(30_000, 20), |r, rec, _| -> Res {
        let mut g = Gen::new(r, 0);
        let a = g.lv(&G::Lit);
        let b = if g.r.chance(1, 3) { a.clone() } else { g.lv(&G::Lit) };
        let sp = spans(r);
        let (mut x, mut y) = (mk_lit(&a), mk_lit(&b));
        x.set_span(*r.pick(&sp)); y.set_span(*r.pick(&sp));
        let same = veq(&V::of(K::Lit(a.clone())), &V::of(K::Lit(b.clone())));
        if (x == y) != same { return Err(format!("Lit {:?} == Lit {:?} is {}", a, b, x == y)) }
        if same && hash_of(&x) != hash_of(&y) { return Err(format!("Lit {:?} and {:?} hash differently", a, b)) }
        rec.case(&format!("{:?} {:?}", a, b), true);
        Ok(())
    });
    run.section("words and keywords", run.n(40_000, 20), |r, rec, _| -> Res {
        let (a, b) = { let mut g = Gen::new(r, 0); let a = g.word(); let b = match g.r.below(6) { 0 | 1 => a.clone(), 2 => { let b = a.near(g.r); if parsel::parse_str::<Word>(&b).map_or(true, |w| w.to_string() != b) { a.clone() } else { b } } _ => g.word() }; (a, b) };
        let sp = spans(r);
        rec.what = format!("words {} and {}", a, b);
        let parse = |s: &str, sp: Span| { let mut w: Word = parsel::parse_str(s).expect("word"); w.set_span(sp); w };
        let (x, y) = (parse(&a, *r.pick(&sp)), parse(&b, *r.pick(&sp)));
        if (x == y) != (a == b) || (x == b.as_str()) != (a == b) || (x == b) != (a == b) { return Err(format!("words {} and {}: equality differs from that of their text", a, b)) }
        if x.cmp(&y) != a.cmp(&b) || x.partial_cmp(&y) != Some(a.cmp(&b)) { return Err(format!("words {} and {}: ordering differs from that of their text", a, b)) }
        if a == b && hash_of(&x) != hash_of(&y) { return Err(format!("equal words {} hash differently", a)) }
        macro_rules! kw { ($($t:ty),*) => { $({
            let (mut k, mut l) = (<$t>::default(), <$t>::new(*r.pick(&sp)));
            k.set_span(*r.pick(&sp)); let t = k.as_str();
            if k != l || k.cmp(&l) != Ordering::Equal || k.partial_cmp(&l) != Some(Ordering::Equal) || hash_of(&k) != hash_of(&l) { return Err(format!("two keyword nodes {} differ", t)) }
            if (k == a.as_str()) != (t == a) || (k == a) != (t == a) || k.partial_cmp(&a) != Some(t.cmp(a.as_str())) || (k < b.as_str()) != (t < b.as_str()) { return Err(format!("keyword {} compared with the text {}", t, a)) }
            l.set_span(Span::call_site());
            if l != k { return Err(format!("two keyword nodes {} differ", t)) }
        })* } }
        use crate::zoo::{kw, kx};
        kw!(kw::Alpha, kw::Beta, kw::Foo, kw::Foobar, kw::Loop, kw::Type, kw::Und, kx::If, kx::A, kx::SelfKw);
        if kw::Foo::default() == kw::Foobar::default() || kw::Alpha::default().partial_cmp(&kw::Beta::default()) != Some(Ordering::Less) || kw::Foobar::default().partial_cmp(&kw::Foo::default()) != Some(Ordering::Greater) { return Err("keywords of different text compared".into()) }
        rec.case(&format!("{} {}", a, b), true);
        Ok(())
    });
    crate::props::scale::scaled_with(run, "long and deep nodes", |c, gts, l, r, rec| {
        let ty = &c.ty;
        let i = lay(gts.clone(), "scaled", l, r).expect("harness: a scaled input does not lex");
        let mut other = gts;
        // change one literal or word, anywhere
        let k = r.below(3);
        if k > 0 { alter(&mut other, r, k == 1); }
        let l2 = *r.pick(&LAYOUTS);
        let Some(j) = lay(other, "altered", l2, r) else { return Ok(()) };
        let x = c.parse(&i)?;
        let Ok(y) = ty.t.parse_str(&j.s) else { return Ok(()) };
        let same = veq(&x.dump(), &y.dump());
        if x.same(&*y) != same || y.same(&*x) != same { return Err(format!("{}: two long nodes compare {}, their contents are {}", ty.name(), if x.same(&*y) { "equal" } else { "different" }, if same { "equal" } else { "different" })) }
        if same && x.hash() != y.hash() { return Err(format!("{}: equal long nodes hash differently", ty.name())) }
        if !x.same(&*x.dup()) || x.hash() != x.dup().hash() { return Err(format!("{}: a long node is not equal to its copy", ty.name())) }
        rec.count(if same { "equal pairs of long or deep nodes" } else { "different pairs of long or deep nodes" });
        rec.case(&format!("{} {} | {}", ty.name(), show(&i.tks, true, false), show(&j.tks, true, false)), true);
        Ok(())
    });
    // whole nodes: equal exactly when their contents are
    let sel: Vec<&Ty> = types.iter().collect();
    run.section("nodes", run.n(150, 20) * sel.len() as u64, |r, rec, idx| -> Res {
        let ty = sel[idx as usize % sel.len()];
        let Some(gts) = sentence_for(ty.t.g(), r, 25) else { return Ok(()) };
        let mut other = gts.clone();
        let mode = r.below(3);
        match mode {
            0 => {}
            1 => { let mut pool = vec![]; crate::gen::flatten_pool(&gts, &mut pool); Gen::new(r, 5).mutate(&mut other, &pool) }
            _ => if let Some(o) = sentence_for(ty.t.g(), r, 25) { other = o },
        }
        let (l1, l2) = (*r.pick(&LAYOUTS), *r.pick(&LAYOUTS));
        let (Some(i), Some(j)) = (lay(gts, "sentence", l1, r), lay(other, "other", l2, r)) else { return Ok(()) };
        rec.what = format!("{} on {:?} and {:?}", ty.name(), i.brief(), j.brief());
        let (Ok(x), Ok(y)) = (ty.t.parse_str(&i.s), ty.t.parse_str(&j.s)) else { return Ok(()) };
        let (a, b) = (x.dump(), y.dump());
        let same = veq(&a, &b);
        if x.same(&*y) != same || y.same(&*x) != same { return Err(format!("{}: nodes parsed from {:?} and {:?} compare {}, their contents are {}", ty.name(), i.s, j.s, if x.same(&*y) { "equal" } else { "different" }, if same { "equal" } else { "different" })) }
        if same && x.hash() != y.hash() { return Err(format!("{}: equal nodes parsed from {:?} and {:?} hash differently", ty.name(), i.s, j.s)) }
        if !x.same(&*x) || !x.same(&*x.dup()) { return Err(format!("{}: a node parsed from {:?} is not equal to its copy", ty.name(), i.s)) }
        rec.count(if same { "equal pairs" } else { "different pairs" });
        rec.case(&format!("{} {} | {}", ty.name(), show(&i.tks, true, false), show(&j.tks, true, false)), i.s != j.s);
        Ok(())
    });
}
