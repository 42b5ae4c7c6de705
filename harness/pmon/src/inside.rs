//! What is seen of parsel inside the compiler, where tokens are the compiler's, and outside.
use crate::eng::{input_for, model, Ty};
use crate::report::{guard, Rec};
use crate::rng::Rng;
use crate::tok::{lex, lex_str, show, T};
use parsel::TokenStream;

const SEP: char = '\u{1}';

/// What is seen of parsing the tokens.
fn seen(t: &dyn crate::ops::TypeOps, ts: TokenStream) -> String {
    let r = guard(|| match t.parse2(ts) {
        Ok(n) => {
            let m = n.dup();
            if !n.same(&*m) || n.hash() != m.hash() { return "accepted, and differs from its copy".into() }
            let _ = (n.debug(), n.span());
            let parts = [format!("{:?}", n.dump()), show(&lex(n.tokens()), true, true), n.display(false), n.display(true), n.format_with(Some("\t ")).unwrap_or_else(|e| e.to_string())];
            format!("accepted{}{}", SEP, parts.join(&SEP.to_string()))
        }
        Err(e) => { let _ = e.to_compile_error(); format!("rejected{}{}", SEP, e) }
    });
    r.unwrap_or_else(|e| format!("panicked{}{}", SEP, e))
}

/// Without what depends on the side: the spelling of literals, and errors, since the compiler has the
/// end of its input at the end of the macro and the fallback at the start.
fn essence(seen: &str) -> Vec<String> {
    let v: Vec<&str> = seen.split(SEP).collect();
    match v[0] {
        "accepted" => v.iter().enumerate().map(|(i, x)| if i < 3 { x.to_string() } else { lex_str(x).map_or_else(|| format!("does not lex: {}", x), |t| show(&t, false, true)) }).collect(),
        "rejected" => vec!["rejected".into(), (!v[1].is_empty()).to_string()],
        _ => v.iter().map(|x| x.to_string()).collect(),
    }
}

pub fn observe(k: usize, ts: TokenStream) -> String {
    thread_local! { static TYPES: Vec<Box<dyn crate::ops::TypeOps>> = crate::zoo::all(); }
    TYPES.with(|t| seen(&*t[k], ts))
}

/// Literals printed and parsed; the failures.
pub fn literals(seed: u64, n: u64) -> String {
    let mut rec = Rec::default();
    for i in 0..n {
        let mut r = Rng::of(seed, "literals inside", i);
        match guard(|| crate::props::lit::random_round(&mut r, &mut rec, i)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return e,
            Err(e) => return format!("panicked: {}", e),
        }
    }
    String::new()
}

/// A program with `n` cases, without some.
pub fn program(prop: &str, seed: u64, n: u64, without: &[u64]) -> String {
    if prop == "C09" {
        return format!("fn main() {{ pmon::inside::judge_literals({}, pmac::literals!({} {})) }}\n", n, seed, n);
    }
    let types: Vec<Ty> = crate::zoo::all().into_iter().map(Ty::new).collect();
    let mut o = String::from("#![allow(warnings, text_direction_codepoint_in_literal, text_direction_codepoint_in_comment)]\nstatic CASES: &[(u64, usize, &str, &str)] = &[\n");
    for i in (0..n).filter(|i| !without.contains(i)) {
        let mut r = Rng::of(seed, "inside", i);
        let k = if (i as usize) < types.len() { i as usize } else { r.below(types.len()) };
        let Some((ty, x)) = (0..20).find_map(|_| {
            let x = input_for(types[k].t.g(), &mut r, &mut Rec::default())?;
            // the compiler takes fewer characters for spaces than `proc_macro2` does
            let odd = x.s.chars().any(|c| c.is_whitespace() && !" \t\n\r".contains(c));
            (x.s.len() < 1500 && !odd && model(types[k].t.g(), &x.tks).is_some()).then_some((k, x))
        }) else { continue };
        // some of the tokens come through another macro
        let through = x.tks.iter().filter_map(|t| Some((match &t.t { T::Lit(s) if s.as_bytes()[0] != b'-' => "literal", T::Ident(s) if s != "_" => "ident", T::Group(..) => "tt", _ => return None }, t.src))).filter(|(_, s)| s.0 < s.1).collect::<Vec<_>>();
        o.push_str(&format!("//# {}\n({}, {}, {:?}, ", i, i, ty, x.s));
        if !through.is_empty() && r.chance(1, 2) {
            let (f, (a, b)) = *r.pick(&through);
            o.push_str(&format!("{{ macro_rules! through {{ ($x:{}) => {{ pmac::observe!{{ {} {}\n$x\n{}\n}} }} }} through!({}) }}),\n", f, ty, &x.s[..a], &x.s[b..], &x.s[a..b]));
        } else {
            o.push_str(&format!("pmac::observe!{{ {} {}\n}}),\n", ty, x.s));
        }
    }
    o.push_str("//# -\n];\nfn main() { pmon::inside::judge(CASES) }\n");
    o
}

/// Compares what was seen inside with what is seen outside.
pub fn judge(cases: &[(u64, usize, &str, &str)]) {
    crate::report::install_hook();
    let (mut acc, mut rej) = (0, 0);
    for (i, k, s, inside) in cases {
        let outside = observe(*k, s.parse().expect("harness: does not lex"));
        if outside.starts_with("accepted") { acc += 1 } else { rej += 1 }
        if outside.contains("panicked") || essence(&outside) != essence(inside) { println!("FAIL {} {} on {:?} in a procedural macro: {:?} instead of {:?}", i, crate::zoo::all()[*k].name(), s, inside, outside) }
    }
    println!("ACCEPTED {}\nREJECTED {}", acc, rej);
}

pub fn judge_literals(n: u64, inside: &str) {
    if inside.is_empty() { println!("ACCEPTED {}", n) } else { println!("FAIL 0 in a procedural macro: {}", inside) }
}
