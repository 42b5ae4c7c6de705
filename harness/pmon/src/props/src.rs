//! C17-C20, C25, C26: locations, errors, hostile inputs, entry points, layouts.
use crate::eng::*;
use crate::gen::{render, Gen, Layout, GT};
use crate::gram::{observe, Cx, StepFields, Steps};
use crate::model::V;
use crate::ops::{err, ErrObs, Node};
use crate::props::fmt::{stream, to_stream, Bare};
use crate::props::scale::{scaled, scaled_with};
use crate::report::{guard, Rec, Res, Run};
use crate::rng::Rng;
use crate::tok::{lex, lex_str, show, D};
use parsel::ast::*;
use parsel::proc_macro2::{Group, Literal, Spacing, TokenTree};
use parsel::syn::parse::ParseStream;
use parsel::util::{SpanDisplay, SpannedExt};
use parsel::{Error, Span, ToTokens, TokenStream};

// ------------------------------------------------------------------ C17

/// line (from 1) and column (characters, from 0) of a byte offset
fn place(s: &str, at: usize) -> (usize, usize) {
    let before = &s[..at];
    let line = 1 + before.matches('\n').count();
    let col = before.rsplit('\n').next().unwrap().chars().count();
    (line, col)
}

/// What the observed ranges must be for the text `src[bom + a..bom + b]`. A byte-order mark is a
/// character of the source like any other.
fn exact(o: &crate::gram::SpanObs, src: &str, bom: usize, a: usize, b: usize) -> Result<(), String> {
    let (a, b) = (a + bom, b + bom);
    let chars = |x: usize| src[..x].chars().count();
    let ((l0, c0), (l1, c1)) = (place(src, a), place(src, b));
    let disp = format!("{}:{}..{}:{}", l0, c0 + 1, l1, c1);
    if o.byte != (a, b) { return Err(format!("byte range {:?} instead of {:?}", o.byte, (a, b))) }
    if o.chars != (chars(a), chars(b)) { return Err(format!("character range {:?} instead of {:?}", o.chars, (chars(a), chars(b)))) }
    if o.sub != src[a..b] { return Err(format!("source text {:?} instead of {:?}", o.sub, &src[a..b])) }
    if o.disp != disp { return Err(format!("display {:?} instead of {:?}", o.disp, disp)) }
    Ok(())
}

fn source(t: &str, r: &mut Rng) -> (String, usize) {
    let mut s = String::new();
    if r.chance(1, 5) { s.push('\u{feff}') }
    let n = s.len();
    s.push_str(t);
    (s, n)
}

pub fn c17(run: &Run, types: &[Ty]) {
    run.rule("a node with at least one token was parsed and every node in it was located");
    let sel: Vec<&Ty> = types.iter().collect();
    run.section("every node of a tree", run.n(200, 20) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let budget = *r.pick(&[12, 12, 12, 40, 40, 120]);
        let Some(gts) = sentence_for(ty.t.g(), r, budget) else { return Ok(()) };
        let l = *r.pick(&[Layout::Wild, Layout::Wild, Layout::Lines, Layout::Spaced, Layout::Tight]);
        let Some(i) = lay(gts, "sentence", l, r) else { rec.count("inputs the lexer does not read as intended"); return Ok(()) };
        located(ty, &i, r, rec)
    });
    scaled(run, "long and deep trees", |c, i, r, rec| if c.deep() || i.tks.len() < 6000 { located(&c.ty, &i, r, rec) } else { Ok(()) });
    // any run of neighbouring tokens is a node, too
    run.section("runs of tokens", run.n(6000, 20), |r, rec, _| {
        let n = r.range(1, 10);
        let mut g = Gen::new(r, 60);
        let gts: Vec<GT> = (0..n).map(|_| g.soup_tok(3)).collect();
        let l = *r.pick(&LAYOUTS);
        let Some(i) = lay(gts, "soup", l, r) else { return Ok(()) };
        let (src, bom) = source(&i.s, r);
        rec.what = format!("tokens of {:?}", src);
        let ts: Vec<TokenTree> = src.parse::<TokenStream>().expect("harness: does not lex").into_iter().collect();
        let a = r.below(ts.len());
        let b = r.range(a, ts.len() - 1);
        let part: TokenStream = ts[a..=b].iter().cloned().collect();
        let o = observe(&part, &src);
        let (x, y) = (i.tks[a].src.0, i.tks[b].src.1);
        exact(&o, &src, bom, x, y).map_err(|e| format!("tokens {}..={} of {:?} have {}", a, b, src, e))?;
        // as a plain location, and by reference
        let sp = SpannedExt::span(&part);
        if SpanDisplay::from(sp).to_string() != o.disp || SpanDisplay::new(sp).to_string() != o.disp || sp.format_span().to_string() != o.disp { return Err(format!("the displays of a location of {:?} disagree", src)) }
        if (&part).byte_range(&src) != (o.byte.0..o.byte.1) || SpannedExt::byte_range(&sp, &src) != (o.byte.0..o.byte.1) || SpannedExt::char_range(&sp, &src) != (o.chars.0..o.chars.1) || SpannedExt::source_substring(&sp, &src) != o.sub { return Err(format!("the ranges of a location of {:?} differ from those of its node", src)) }
        rec.case(&format!("{:?} {}..={}", src, a, b), true);
        Ok(())
    });
    // documentation comments are tokens, too: each of them spans the whole comment
    run.section("documentation comments", run.n(12_000, 20), |r, rec, _| {
        let (mut s, mut at) = (String::new(), vec![]);
        for _ in 0..r.range(1, 7) {
            let a = s.len();
            let text: String = (0..r.below(8)).map(|_| *r.pick(&["a", "é", " ", "  ", "\t", "\u{1f600}", "\u{2028}", "\u{a0}", "#", "\"", "x y", "!", "\\", "(", "//", "\u{0}"])).collect();
            let n = match r.below(6) {
                0 => { s.push_str(&format!("/// {}", text)); 2 }
                1 => { s.push_str(&format!("//! {}", text)); 3 }
                2 => { let nl = *r.pick(&["\n", "\r\n", " \n  "]); s.push_str(&format!("/** {}{}{} */", text.replace("//", "/ /"), nl, text.replace("//", ""))); 2 }
                3 => { s.push_str(&format!("/*! {} /* */ {}*/", text.replace("//", "/ /"), *r.pick(&["", " ", "\n"]))); 3 }
                4 => { s.push_str(*r.pick(&["word", "+", "\"a\n b\"", "'x'", "b'é'", "1_0"])); 1 }
                _ => { s.push_str(*r.pick(&["(", "[ "])); s.push_str(if s.ends_with('(') { "/// \n)" } else { "]" }); 1 }
            };
            let b = s.len();
            at.extend((0..n).map(|_| (a, b)));
            // (to the lexer, the carriage return after a comment of one line belongs to it)
            s.push_str(*r.pick(if s[a..].starts_with("//") { &["\n", "\n\r\n", "\n\n  ", "\n // no \n"] } else { &["\n", "\r\n", "\n\n  ", "\n // no \n"] }));
        }
        let (src, bom) = source(&s, r);
        rec.what = format!("tokens of {:?}", src);
        let Ok(ts) = src.parse::<TokenStream>() else { rec.count("not lexed"); return Ok(()) };
        let ts: Vec<TokenTree> = ts.into_iter().collect();
        if ts.len() != at.len() { rec.count("not lexed as intended"); return Ok(()) }
        let a = r.below(ts.len());
        let b = r.range(a, ts.len() - 1);
        let part: TokenStream = ts[a..=b].iter().cloned().collect();
        exact(&observe(&part, &src), &src, bom, at[a].0, at[b].1).map_err(|e| format!("tokens {}..={} of {:?} have {}", a, b, src, e))?;
        let many: parsel::ast::Many<TokenTree> = match parsel::parse_str(&src) { Ok(x) => x, Err(e) => return Err(format!("{:?} is rejected: {}", src, e)) };
        exact(&observe(&many[a], &src), &src, bom, at[a].0, at[a].1).map_err(|e| format!("token {} of {:?} has {}", a, src, e))?;
        exact(&observe(&many, &src), &src, bom, at[0].0, at[at.len() - 1].1).map_err(|e| format!("all of {:?} has {}", src, e))?;
        rec.case(&format!("{:?} {}..={}", src, a, b), true);
        Ok(())
    });
    // many lines, and long ones
    let lines: &[usize] = &run.sizes(&[1, 2, 3, 9, 10, 11, 99, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1023, 1024, 1025, 32_768, 65_534, 65_536, 70_000], &[1, 2, 255, 256, 257, 1000, 5000, 65_535, 65_536, 65_537, 131_072, 1_000_000]);
    run.section("many and long lines", lines.len() as u64 * 4, |r, rec, idx| {
        let n = lines[idx as usize / 4];
        let fill = match idx % 4 { 0 => "\n".to_string(), 1 => "\r\n".into(), 2 => " ".into(), _ => "é\u{1f600} ".replace('é', "/*é*/").replace('\u{1f600}', "/*\u{1f600}*/") };
        let (pre, bom) = source("", r);
        let src = format!("{}{}foo{}bar \"é\u{1f600}\"{}", pre, fill.repeat(n), fill.repeat(n), fill.repeat(n % 7));
        let s = &src[bom..];
        let x: Pair2 = parsel::parse_str(&src).map_err(|e| format!("rejected: {}", e))?;
        let at = |t: &str| { let a = s.find(t).unwrap(); (a, a + t.len()) };
        for (o, (a, b)) in [(observe(&x.0, &src), at("foo")), (observe(&x.1, &src), at("bar")), (observe(&x.2, &src), at("\"é\u{1f600}\""))] { exact(&o, &src, bom, a, b).map_err(|e| format!("after {} times {:?}: {}", n, fill, e))? }
        exact(&observe(&x, &src), &src, bom, at("foo").0, at("\"é\u{1f600}\"").1).map_err(|e| format!("over {} times {:?}: {}", n, fill, e))?;
        rec.max("max_lines", s.matches('\n').count() as u64);
        rec.case(&format!("{} x {:?}", n, fill), true);
        Ok(())
    });
}

/// Parses a text and locates every node of the tree.
fn located(ty: &Ty, i: &Input, r: &mut Rng, rec: &mut Rec) -> Res {
    let (src, bom) = source(&i.s, r);
    rec.what = format!("{} on {:?}", ty.name(), src);
    let Some(Some(v)) = model(ty.t.g(), &i.tks) else { return Ok(()) };
    let Ok(n) = ty.t.parse_str(&src) else { rec.count("rejected"); return Ok(()) };
    let mut cx = Cx { source: Some(&src), obs: vec![] };
    let d = n.dump_at(&mut cx);
    if d != v { rec.count("parsed to another value"); return Ok(()) }
    let mut pre = vec![];
    v.preorder(&mut pre);
    if pre.len() != cx.obs.len() { return Err(format!("harness: {} nodes, {} observed", pre.len(), cx.obs.len())) }
    for (v, o) in pre.iter().zip(&cx.obs) {
        match (v.src, o) {
            (Some((a, b)), Some(o)) => { exact(o, &src, bom, a, b).map_err(|e| format!("{} in {:?}: the node {} over {:?} has {}", ty.name(), src, brief(v), &i.s[a..b], e))?; rec.count("nodes located") }
            (None, None) => rec.count("empty nodes"),
            (a, b) => return Err(format!("harness: {:?} {:?}", a, b)),
        }
    }
    if bom > 0 { rec.count("sources with a byte-order mark") }
    if src.contains("\r\n") { rec.count("sources with CRLF") }
    if !src[bom..].is_ascii() { rec.count("sources with multi-byte characters") }
    rec.case(&src, !i.tks.is_empty());
    Ok(())
}

#[derive(parsel::Parse, parsel::ToTokens)]
struct Pair2(Word, Word, LitStr);

// ------------------------------------------------------------------ C18, C19

/// Fields one after another; the index of the first failing one with its error.
fn fields(fs: &StepFields, p: ParseStream<'_>) -> Option<(usize, Error)> {
    fs.iter().enumerate().find_map(|(i, (_, s))| s(p).err().map(|e| (i, e)))
}

pub fn c18(run: &Run, types: &[Ty]) {
    run.rule("a choice of at least two alternatives failed and its error was compared with those of all alternatives");
    let sel: Vec<&Ty> = types.iter().filter(|t| matches!(t.t.steps(), Some(Steps::Enum(..)))).collect();
    run.section("failed choices", run.n(500, 20) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let Some(Steps::Enum(name, vs)) = ty.t.steps() else { unreachable!() };
        let Some(i) = choice_input(ty, r, rec) else { return Ok(()) };
        if model(ty.t.g(), &i.tks).is_none() { return Ok(()) }
        rec.what = format!("{} on {:?}", ty.name(), i.brief());
        furthest(ty, name, &vs, &i, rec)
    });
    scaled_with(run, "long and deep choices", |c, mut gts, l, r, rec| {
        let Some(Steps::Enum(name, vs)) = c.ty.t.steps() else { return Ok(()) };
        spoil(&mut gts, r);
        let Some(i) = lay(gts, "spoiled", l, r) else { return Ok(()) };
        furthest(&c.ty, name, &vs, &i, rec)
    });
}

/// Makes a long or deep sentence fail, mostly near its end.
pub fn spoil(gts: &mut Vec<GT>, r: &mut Rng) {
    // into the last group, as far as it goes
    if let Some(GT::Group(_, x)) = gts.last_mut() { if r.chance(19, 20) { return spoil(x, r) } }
    let t = match r.below(4) { 0 => GT::Op((*r.pick(&["?", "=", ";", ",", "@"])).into()), 1 => GT::Lit("'c'".into()), 2 => GT::Word("let".into()), _ => GT::Group(D::Paren, vec![]) };
    let n = gts.len();
    match r.below(3) { 0 if n > 0 => { gts.pop(); } 1 if n > 0 => gts[n - 1] = t, _ => gts.push(t) }
}

/// Whether an error consists of messages of another one, in their order, each maybe in a context.
fn within(e: &ErrObs, of: &ErrObs) -> bool {
    let mut rest = of.parts.iter();
    e.parts.iter().all(|m| rest.any(|n| m.ends_with(n.as_str())))
}

/// The error of a failed choice is that of the alternative that got furthest.
fn furthest(ty: &Ty, name: &str, vs: &[(&str, StepFields)], i: &Input, rec: &mut Rec) -> Res {
    on_stream(&i.s, |p| -> Res {
        let mut cands: Vec<(&str, ErrObs, ErrObs)> = vec![];
        for (v, fs) in vs {
            match fields(fs, &p.fork()) {
                None => { rec.count("an alternative matches"); return Ok(()) }
                Some((k, e)) => {
                    let raw = err(&e);
                    let msg = if name.is_empty() { raw.msg.clone() } else { format!("error parsing {}::{}::{}, caused by:\n{}", name, v, fs[k].0, raw.msg) };
                    cands.push((v, ErrObs { msg, ..raw.clone() }, raw));
                }
            }
        }
        let e = match ty.t.parse_in(&p.fork()) { Ok(n) => return Err(format!("{} parsed the beginning of {:?} as {} although none of its alternatives does", ty.name(), i.s, brief(&n.dump()))), Err(e) => err(&e) };
        if cands.is_empty() { return Ok(()) }
        let best = cands.iter().map(|c| c.1.end).max().unwrap();
        let show = || cands.iter().map(|c| format!("\n    {}: at {:?}..{:?} {:?}", c.0, c.1.start, c.1.end, c.1.msg)).collect::<String>();
        let of: Vec<_> = cands.iter().filter(|c| e.msg == c.1.msg && (e.start, e.end) == (c.1.start, c.1.end)).collect();
        if of.is_empty() {
            // the composition of the message is judged elsewhere; here: whose cause is it?
            let of: Vec<_> = cands.iter().filter(|c| e.msg.ends_with(&c.2.msg) && (e.start, e.end) == (c.1.start, c.1.end)).collect();
            if of.is_empty() { return Err(format!("{} on {:?} reports {:?} at {:?}..{:?}, which is the error of none of its alternatives:{}", ty.name(), i.s, e.msg, e.start, e.end, show())) }
        }
        // an error may consist of several: all of one alternative
        if !cands.iter().any(|c| (e.start, e.end) == (c.1.start, c.1.end) && e.msg.ends_with(&c.2.msg) && within(&e, &c.2)) { return Err(format!("{} on {:?} reports {:?}, not all of which is of one alternative:{}", ty.name(), i.s, e.parts, show())) }
        if e.parts.len() > 1 { rec.count("errors of several messages") }
        if e.end < best { return Err(format!("{} on {:?} reports {:?} at {:?}..{:?}, but another alternative failed further on:{}", ty.name(), i.s, e.msg, e.start, e.end, show())) }
        let ends: std::collections::BTreeSet<_> = cands.iter().map(|c| c.1.end).collect();
        rec.count(match ends.len() { 1 => "all alternatives failed at one place", 2 => "alternatives failed at two places", _ => "alternatives failed at three or more places" });
        if i.s.contains('\n') { rec.count("over several lines") }
        let first = cands.iter().position(|c| c.1.end == best).unwrap();
        if first > 0 && first + 1 < cands.len() { rec.count("the furthest is neither the first nor the last") }
        rec.case(&format!("{} <- {}", ty.name(), i.s), cands.len() > 1);
        Ok(())
    })
}

/// Inputs on which choices fail late: near misses, cut sentences, sentences of one alternative
/// continued like another.
fn choice_input(ty: &Ty, r: &mut Rng, rec: &mut Rec) -> Option<Input> {
    if r.chance(1, 2) { return input_for(ty.t.g(), r, rec) }
    let mut gen = Gen::new(r, 25);
    let v = gen.v(ty.t.g(), 0)?;
    let mut ts = vec![];
    gen.unparse(&v, &mut ts);
    let n = ts.len();
    if n == 0 { return None }
    let k = gen.r.below(n);
    match gen.r.below(4) {
        0 => ts.truncate(k),
        1 => { ts.truncate(k); let t = gen.soup_tok(1); ts.push(t) }
        2 => { let t = gen.soup_tok(1); ts[k] = t }
        _ => { ts.truncate(k); if let Some(w) = gen.v(ty.t.g(), 0) { let mut u = vec![]; gen.unparse(&w, &mut u); ts.extend(u.into_iter().skip(k)) } }
    }
    let l = *r.pick(&[Layout::Wild, Layout::Lines, Layout::Lines, Layout::Spaced]);
    lay(ts, "late failure", l, r)
}

pub fn c19(run: &Run, types: &[Ty]) {
    run.rule("a derived node failed at a field and its message was compared with the field's own error");
    let sel: Vec<&Ty> = types.iter().filter(|t| match t.t.steps() { Some(Steps::Struct(..)) => true, Some(Steps::Enum(n, _)) => !n.is_empty(), None => false }).collect();
    run.section("failed fields", run.n(500, 20) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let Some(i) = choice_input(ty, r, rec) else { return Ok(()) };
        if model(ty.t.g(), &i.tks).is_none() { return Ok(()) }
        rec.what = format!("{} on {:?}", ty.name(), i.brief());
        composed(ty, &i, rec)
    });
    scaled_with(run, "long and deep failures", |c, mut gts, l, r, rec| {
        if !matches!(c.ty.t.steps(), Some(Steps::Struct(..)) | Some(Steps::Enum(..))) { return Ok(()) }
        spoil(&mut gts, r);
        let Some(i) = lay(gts, "spoiled", l, r) else { return Ok(()) };
        composed(&c.ty, &i, rec)
    });
}

/// The error of a failed node is that of its field, put in context.
fn composed(ty: &Ty, i: &Input, rec: &mut Rec) -> Res {
    let steps = ty.t.steps().unwrap();
    on_stream(&i.s, |p| -> Res {
        let mut cands: Vec<(String, ErrObs)> = vec![];
        match &steps {
            Steps::Struct(name, fs) => match fields(fs, &p.fork()) { None => return Ok(()), Some((k, e)) => { let o = err(&e); cands.push((format!("error parsing {}::{}, caused by:\n{}", name, fs[k].0, o.msg), o)) } },
            Steps::Enum(name, vs) => for (v, fs) in vs { match fields(fs, &p.fork()) { None => return Ok(()), Some((k, e)) => { let o = err(&e); cands.push((format!("error parsing {}::{}::{}, caused by:\n{}", name, v, fs[k].0, o.msg), o)) } } },
        }
        let Err(e) = ty.t.parse_in(&p.fork()) else { return Err(format!("{} parsed the beginning of {:?} although one of its fields does not", ty.name(), i.s)) };
        let e = err(&e);
        if cands.is_empty() { return Ok(()) }
        if !cands.iter().any(|(m, o)| *m == e.msg && (o.start, o.end) == (e.start, e.end) && within(&e, o)) {
            return Err(format!("{} on {:?} reports\n{:?} at {:?}..{:?}; its fields fail with{}", ty.name(), i.s, e.parts, e.start, e.end, cands.iter().map(|(m, o)| format!("\n  {:?} at {:?}..{:?}", m, o.start, o.end)).collect::<String>()));
        }
        path(ty, &e.msg).map_err(|x| format!("{} on {:?}: the message {:?} {}", ty.name(), i.s, e.msg, x))?;
        let depth = e.msg.matches("caused by:\n").count();
        rec.count(&format!("chain of {:02}", depth.min(20)));
        rec.max("max_chain", depth as u64);
        rec.case(&format!("{} <- {}", ty.name(), i.s), true);
        Ok(())
    })
}

/// The lines of the message are a path through the grammar, outermost first.
fn path(ty: &Ty, msg: &str) -> Result<(), String> {
    use crate::model::{Gr, G};
    // productions directly inside a grammar node, not counting derived ones in between
    fn inner(g: Gr, out: &mut Vec<Gr>, seen: &mut Vec<usize>) {
        let key = g as *const _ as usize;
        if seen.contains(&key) { return }
        seen.push(key);
        match g.get() { G::Struct(..) | G::Enum(..) => out.push(g), k => for x in kids(k) { inner(x, out, seen) } }
    }
    let mut at: Vec<Gr> = vec![];
    inner(ty.t.g(), &mut at, &mut vec![]);
    for line in msg.lines() {
        let Some(p) = line.strip_prefix("error parsing ").and_then(|l| l.strip_suffix(", caused by:")) else { return Ok(()) };
        let parts: Vec<&str> = p.split("::").collect();
        let mut next = vec![];
        for g in &at {
            match (g.get(), parts.as_slice()) {
                (G::Struct(n, fs), [a, f]) if a == n => for (k, x) in fs { if k == f { inner(x, &mut next, &mut vec![]); next.push(x) } },
                (G::Enum(n, vs), [a, v, f]) if a == n => for (w, fs) in vs { if w == v { for (k, x) in fs { if k == f { inner(x, &mut next, &mut vec![]); next.push(x) } } } },
                _ => {}
            }
        }
        if next.is_empty() { return Err(format!("names {}, which is no production at that place", p)) }
        at = next;
    }
    // the cause itself may be empty
    if msg.ends_with("caused by:\n") { return Ok(()) }
    Err("has no original cause".into())
}

// ------------------------------------------------------------------ C20

fn depth(v: &V) -> usize { 1 + v.kids().into_iter().map(depth).max().unwrap_or(0) }

fn poke(ty: &Ty, n: &dyn Node) {
    let m = n.dup();
    let _ = n.same(&*m);
    let _ = n.hash();
    // (the standard library indents nested debug output in quadratic time and more)
    if depth(&n.dump()) * n.tokens().to_string().len() < 500_000 { let _ = n.debug(); }
    let _ = n.span();
    let ts = n.tokens();
    let a = n.display(false);
    let b = n.display(true);
    let _ = n.write(true, &mut String::new());
    let _ = n.write(false, &mut String::new());
    let _ = n.format_with(Some("\t")).map(|s| s.len());
    let _ = n.dump();
    // what was printed is text again, whether it is accepted or not
    let _ = ty.t.parse2(ts).map(|n| n.hash());
    let _ = ty.t.parse_str(&a).map(|n| n.hash());
    let _ = ty.t.parse_str(&b).map(|n| n.hash());
}

fn poke_err(e: &Error) {
    let _ = (e.to_string(), format!("{:?}", e), e.to_compile_error().to_string(), e.span().format_span().to_string());
    let _ = e.clone().into_iter().count();
}

fn hostile_text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => { let n = r.len(12, 60); (0..n).map(|_| r.range(0x20, 0x7e) as u8 as char).collect() }
        1 => { let n = r.len(8, 30); (0..n).map(|_| *r.pick(&['(', ')', '[', ']', '{', '}', ',', ';', '"', '\'', '\\', '/', '*', '#', 'r', 'b', '0', 'x', '_', '-', '.', ' ', '\n', '\r', '\0', '\u{feff}', 'é', '\u{1f600}', '\u{200e}', '\u{301}', '\u{2028}', '!', '<', '=', 'e', '1', 'c', ':'])).collect() }
        2 => { let n = r.len(6, 20); (0..n).map(|_| crate::lits::char_any(r)).collect() }
        3 => { let n = r.range(1, 8); (0..n).map(|_| *r.pick(&["0x", "0b2", "1e", "1e+", "1.e", "'", "'a", "''", "\"", "r#\"", "b'", "b\"\\x", "/*", "*/", "//", "///", "//!", "/**", "r#", "r#_", "r#self", "_", "-", "- -", "--1", "1..", "..1", "1.f", "9999999999999999999999999999", "1e999999", "0x1p5", "'\\u{110000}'", "'\\u{}'", "\"\\x80\"", "b\"é\"", "c\"\\0\"", "#!", "#![x]", "$crate", "\u{feff}", "a b", " ", ",", "(", ")", "[]", "{}", "\\", "`", "@", "1_", "0_0.0_", "1u", "0o8", "e", "E1", "r\"", "br#\"x\"#", "'r#a", "'_"])).collect() }
        4 => { let n = r.range(1, 90); let d = *r.pick(&D::REAL); format!("{}{}{}", d.open().repeat(n), r.pick(&["", "x", "1", ",", ")"]), d.close().repeat(if r.chance(3, 4) { n } else { r.below(n + 2) })) }
        _ => {
            // a lexable text with characters inserted, removed or replaced
            let n = r.range(0, 9);
            let mut g = Gen::new(r, 40);
            let gts: Vec<GT> = (0..n).map(|_| g.soup_tok(2)).collect();
            let l = *r.pick(&LAYOUTS);
            let mut s: Vec<char> = render(&gts, l, r).s.chars().collect();
            damage(&mut s, r);
            s.into_iter().collect()
        }
    }
}

fn damage(s: &mut Vec<char>, r: &mut Rng) {
    for _ in 0..r.range(0, 3) {
        let c = *r.pick(&['(', ')', '{', '"', '\'', '\\', '-', '.', '_', '#', '0', 'e', '\n', '\u{feff}', 'é', '/', '*', ' ', 'r', 'x', '\0']);
        let n = s.len();
        match r.below(4) { 0 if n > 0 => { let i = r.below(n); s.remove(i); } 1 if n > 0 => { let i = r.below(n); s[i] = c } 2 if n > 1 => { let i = r.below(n); s.truncate(i) } _ => { let i = r.below(n + 1); s.insert(i, c) } }
    }
}

fn hostile_stream(r: &mut Rng) -> TokenStream {
    let mut ts = to_stream(&stream(r, 3, 4, Bare::Any));
    let n = r.below(3);
    for _ in 0..n {
        let t: TokenTree = match r.below(8) {
            0 => Literal::i64_unsuffixed(crate::lits::i64_any(r)).into(),
            1 => Literal::i128_suffixed(i128::MIN).into(),
            2 => Literal::f64_unsuffixed(crate::lits::f64_any(r)).into(),
            3 => Literal::f32_suffixed(-0.0).into(),
            4 => Literal::string(&crate::lits::string_any(r)).into(),
            5 => Literal::byte_string(&crate::lits::bytes_any(r)).into(),
            6 => Group::new(D::None.pm(), to_stream(&stream(r, 2, 3, Bare::Any))).into(),
            _ => Group::new(D::None.pm(), TokenStream::new()).into(),
        };
        if r.chance(1, 2) { ts.extend([t]) } else { ts = [t].into_iter().chain(ts).collect() }
    }
    ts
}

pub fn c20(run: &Run, types: &[Ty]) {
    run.rule("a parse was attempted on a text or stream; accepted nodes and errors were put through every operation");
    let sel: Vec<&Ty> = types.iter().collect();
    let attempt = |ty: &Ty, rec: &mut Rec, what: String, f: &dyn Fn() -> parsel::Result<Box<dyn Node>>| -> Res {
        rec.what = format!("{} on {}", ty.name(), what);
        let r = guard(|| match f() { Ok(n) => { poke(ty, &*n); true } Err(e) => { poke_err(&e); false } });
        match r {
            Ok(ok) => { rec.count(if ok { "accepted" } else { "rejected" }); rec.case(&format!("{} {}", ty.name(), what), true); Ok(()) }
            // the host libraries themselves may be the ones that panic
            Err(m) => Err(format!("{} on {} panicked: {}", ty.name(), what, m)),
        }
    };
    run.section("texts", run.n(150, 30) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let s = hostile_text(r);
        if !lexes(&s) { rec.count("text the lexer itself panics on"); return Ok(()) }
        attempt(ty, rec, format!("the text {:?}", s), &|| ty.t.parse_str(&s))?;
        if r.chance(1, 8) { attempt(ty, rec, format!("the text {:?} by FromStr", s), &|| ty.t.from_str(&s).unwrap_or_else(|| ty.t.parse_str(&s)))? }
        Ok(())
    });
    run.section("the rest of the input as tokens", run.n(2000, 20) * crate::props::rest::N, crate::props::rest::calm);
    run.section("sentences and near misses", run.n(150, 30) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let (gts, _) = tokens_for(ty.t.g(), r);
        let l = *r.pick(&LAYOUTS);
        let mut s: Vec<char> = render(&gts, l, r).s.chars().collect();
        if r.chance(1, 3) { damage(&mut s, r) }
        let s: String = s.into_iter().collect();
        // ambiguity without bound is excluded by the property
        if let Some(t) = lex_str(&s) { if model(ty.t.g(), &t).is_none() { return Ok(()) } }
        if !lexes(&s) { rec.count("text the lexer itself panics on"); return Ok(()) }
        attempt(ty, rec, format!("the text {:?}", s), &|| ty.t.parse_str(&s))
    });
    run.section("streams", run.n(150, 30) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let ts = hostile_stream(r);
        attempt(ty, rec, format!("the tokens {:?}", show(&lex(ts.clone()), true, false)), &|| ty.t.parse2(ts.clone()))
    });
    scaled_with(run, "long and deep inputs", |c, mut gts, l, r, rec| {
        if r.chance(1, 2) { spoil(&mut gts, r) }
        let s = render(&gts, l, r).s;
        attempt(&c.ty, rec, format!("the text {:?}", s), &|| c.ty.t.parse_str(&s))
    });
    // nesting, up to a depth that real sources have
    let depths: &[usize] = &run.sizes(&[10, 50, 100, 128], &[10, 100, 200, 300]);
    run.section_with("nested", (depths.len() * sel.len()) as u64, 512 << 20, 8, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let n = depths[idx as usize / sel.len()];
        let d = *r.pick(&D::REAL);
        // expressions and statements try every alternative at every level: keep those shallow
        let n = if ty.reach & (feat::ENUM | feat::EITHER) != 0 { n.min(8) } else { n };
        let s = format!("{}{}{}", d.open().repeat(n), r.pick(&["", "x", "1", "x, 1", "+"]), d.close().repeat(n));
        attempt(ty, rec, format!("{} levels of {:?}: {:?}", n, d, s), &|| ty.t.parse_str(&s))
    });
}

fn lexes(s: &str) -> bool { guard(|| { let _ = s.parse::<TokenStream>(); }).is_ok() }

// ------------------------------------------------------------------ C25

type Outcome = Result<(Box<dyn Node>, V), ErrObs>;

fn outcome(r: parsel::Result<Box<dyn Node>>) -> Outcome { r.map(|n| { let v = n.dump(); (n, v) }).map_err(|e| err(&e)) }

fn agree(what: &str, a: &Outcome, b: &Outcome, loc: bool) -> Res {
    match (a, b) {
        (Ok((x, v)), Ok((y, w))) => if x.same(&**y) && v == w { Ok(()) } else { Err(format!("{} give different nodes: {} and {}", what, brief(v), brief(w))) },
        (Err(x), Err(y)) => if !loc || x == y { Ok(()) } else { Err(format!("{} give different errors: {:?} and {:?}", what, x, y)) },
        (Ok((_, v)), Err(y)) => Err(format!("{} disagree: accepted as {}, rejected with {:?}", what, brief(v), y)),
        (Err(y), Ok((_, v))) => Err(format!("{} disagree: rejected with {:?}, accepted as {}", what, y, brief(v))),
    }
}

pub fn c25(run: &Run, types: &[Ty]) {
    run.rule("a non-empty input went through every entry point");
    let sel: Vec<&Ty> = types.iter().collect();
    run.section("text, tokens, and leftovers", run.n(200, 20) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let Some(i) = input_for(ty.t.g(), r, rec) else { return Ok(()) };
        if model(ty.t.g(), &i.tks).is_none() { return Ok(()) }
        entries(ty, &i, rec)
    });
    scaled_with(run, "long and deep inputs", |c, mut gts, l, r, rec| {
        if r.chance(1, 2) { spoil(&mut gts, r) }
        let Some(i) = lay(gts, "scaled", l, r) else { return Ok(()) };
        entries(&c.ty, &i, rec)
    });
    run.section("accepted inputs with something added", run.n(100, 20) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let Some(mut gts) = sentence_for(ty.t.g(), r, 20) else { return Ok(()) };
        let mut g = Gen::new(r, 10);
        // separators and terminators above all, as those are what a lenient parser would skip
        let t = match g.r.below(4) { 0 => GT::Op((*g.r.pick(&[",", ";", ".", ":", "?", "_", "..", "!", "#", "|", "-", "*", "&", "::", "=", "=>"])).into()), 1 => GT::Group(*g.r.pick(&D::REAL), vec![]), _ => g.soup_tok(1) };
        let front = g.r.chance(1, 4);
        if front { gts.insert(0, t) } else { gts.push(t) }
        let l = *r.pick(&LAYOUTS);
        let Some(i) = lay(gts, "with something added", l, r) else { return Ok(()) };
        rec.what = format!("{} on {:?}", ty.name(), i.brief());
        let Some(want) = model(ty.t.g(), &i.tks) else { return Ok(()) };
        for (how, got) in [("parse_str", Some(ty.t.parse_str(&i.s))), ("FromStr", ty.t.from_str(&i.s)), ("parse2", Some(ty.t.parse2(i.s.parse().expect("harness"))))] {
            let Some(got) = got else { continue };
            if got.is_ok() != want.is_some() { return Err(format!("{} of {} on {:?} {}", how, ty.name(), i.s, if want.is_some() { "rejects a sentence".to_string() } else { format!("accepts {}", brief(&got.unwrap().dump())) })) }
        }
        rec.count(if want.is_some() { "still a sentence" } else { "no longer a sentence" });
        rec.case(&format!("{} <- {}", ty.name(), show(&i.tks, true, false)), true);
        Ok(())
    });
    // text that is no sentence of anything, or not even tokens
    run.section("damaged and unlexable texts", run.n(120, 20) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let s = if r.chance(1, 2) { hostile_text(r) } else {
            let Some(gts) = sentence_for(ty.t.g(), r, 20) else { return Ok(()) };
            let mut s: Vec<char> = render(&gts, *r.pick(&LAYOUTS), r).s.chars().collect();
            damage(&mut s, r);
            s.into_iter().collect()
        };
        rec.what = format!("{} on {:?}", ty.name(), s);
        // (the lexer itself may fail in other ways than by an error; that is not judged here)
        let Ok(lexed) = guard(|| s.parse::<TokenStream>()) else { rec.count("the lexer panics"); return Ok(()) };
        let a = outcome(ty.t.parse_str(&s));
        if let Some(b) = ty.t.from_str(&s) { agree(&format!("{} on {:?}: the standard trait and the parse function", ty.name(), s), &outcome(b), &a, true)?; rec.count("standard trait") }
        match lexed {
            Err(_) => { if let Ok((_, v)) = &a { return Err(format!("{} accepts {:?}, which is no sequence of tokens, as {}", ty.name(), s, brief(v))) } rec.count("not tokens") }
            Ok(ts) => { agree(&format!("{} on {:?}: tokens and text", ty.name(), s), &outcome(ty.t.parse2(ts)), &a, true)?; rec.count("tokens") }
        }
        rec.case(&format!("{} <- {}", ty.name(), s), !s.is_empty());
        Ok(())
    });
    // what macros substitute comes in groups without delimiters, which mean nothing
    run.section("undelimited groups", run.n(150, 20) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let Some(i) = input_for(ty.t.g(), r, rec) else { return Ok(()) };
        if i.tks.is_empty() || model(ty.t.g(), &i.tks).is_none() { return Ok(()) }
        let ts: TokenStream = i.s.parse().expect("harness: does not lex");
        let mut n = 0;
        let mut wrapped = substituted(ts, r, &mut n);
        for _ in 0..*r.pick(&[0, 0, 1, 2]) { if n < 200 { wrapped = substituted(wrapped, r, &mut n) } }
        if n == 0 { return Ok(()) }
        rec.what = format!("{} on {:?} as {:?}", ty.name(), i.brief(), show(&lex(wrapped.clone()), true, false));
        let (a, b) = (outcome(ty.t.parse_str(&i.s)), outcome(ty.t.parse2(wrapped.clone())));
        agree(&format!("{} on {:?}: with and without groups without delimiters ({})", ty.name(), i.s, show(&lex(wrapped), true, false)), &b, &a, false)?;
        rec.count(if a.is_ok() { "accepted within undelimited groups" } else { "rejected within undelimited groups" });
        rec.max("max_undelimited_groups", n);
        rec.case(&format!("{} <- {}", ty.name(), rec.what.clone()), true);
        Ok(())
    });
    run.section("quote macros", run.n(1500, 20), |r, rec, _| quotes(r, rec));
}

/// Puts runs of tokens into groups without delimiters.
fn substituted(ts: TokenStream, r: &mut Rng, n: &mut u64) -> TokenStream {
    let mut v: Vec<TokenTree> = ts.into_iter().map(|t| match t {
        TokenTree::Group(g) => { let mut h = Group::new(g.delimiter(), substituted(g.stream(), r, n)); h.set_span(g.span()); h.into() }
        t => t,
    }).collect();
    // operators of several characters and lifetimes stay together
    let joint = |t: &TokenTree| matches!(t, TokenTree::Punct(p) if p.spacing() == Spacing::Joint);
    for _ in 0..*r.pick(&[0, 1, 1, 2]) {
        if v.is_empty() { break }
        let a = r.below(v.len());
        let b = if r.chance(1, 2) { a } else { r.range(a, v.len() - 1) };
        if (a > 0 && joint(&v[a - 1])) || joint(&v[b]) { continue }
        let mut g = Group::new(D::None.pm(), v[a..=b].iter().cloned().collect());
        g.set_span(v[a].span());
        v.splice(a..=b, [g.into()]);
        *n += 1;
    }
    v.into_iter().collect()
}

/// All entry points agree, and what is left over is an error.
fn entries(ty: &Ty, i: &Input, rec: &mut Rec) -> Res {
    rec.what = format!("{} on {:?}", ty.name(), i.brief());
    let a = outcome(ty.t.parse_str(&i.s));
    if let Some(b) = ty.t.from_str(&i.s) { agree(&format!("{} on {:?}: the standard trait and the parse function", ty.name(), i.s), &outcome(b), &a, true)?; rec.count("standard trait") }
    let ts: TokenStream = i.s.parse().expect("harness: does not lex");
    agree(&format!("{} on {:?}: tokens and text", ty.name(), i.s), &outcome(ty.t.parse2(ts)), &a, true)?;
    // tokens that were never text
    agree(&format!("{} on {:?}: constructed tokens and text", ty.name(), i.s), &outcome(ty.t.parse2(to_stream(&i.tks))), &a, false)?;
    // whole input: what a node leaves over is an error, and nothing else is
    let (front, left) = on_stream(&i.s, |p| { let n = ty.t.parse_in(p).map(|n| n.dump()); (n, crate::eng::rest(p)) });
    match (&front, &a) {
        (Ok(_), Ok(_)) if !left.is_empty() => return Err(format!("{} accepts {:?} although it leaves [{}]", ty.name(), i.s, left)),
        (Ok(v), Ok((_, w))) if v != w => return Err(format!("{} on {:?} parses to {} in a stream and to {} as a whole", ty.name(), i.s, brief(v), brief(w))),
        (Ok(_), Err(e)) if left.is_empty() && !inside(ty, i) => return Err(format!("{} rejects {:?} ({}) although nothing is left over", ty.name(), i.s, e.msg)),
        (Err(e), Ok(_)) => return Err(format!("{} accepts {:?} as a whole but not in a stream: {}", ty.name(), i.s, e)),
        (Err(e), Err(f)) if e.to_string() != f.msg => return Err(format!("{} on {:?} fails with {:?} in a stream and {:?} as a whole", ty.name(), i.s, e.to_string(), f.msg)),
        _ => {}
    }
    rec.count(match (&front, left.is_empty()) { (Ok(_), true) => "used up", (Ok(_), false) => "left something over", _ => "rejected" });
    rec.case(&format!("{} <- {}", ty.name(), show(&i.tks, true, false)), !i.tks.is_empty());
    Ok(())
}

/// tokens left over inside a delimited group are reported at the end of the whole input
fn inside(ty: &Ty, i: &Input) -> bool { matches!(crate::model::Model::new(steps_for(&i.tks)).p(ty.t.g(), &i.tks, 0), Ok((_, _, true)) | Err(_)) }

type Ex = crate::zoo::Stmt;

fn q1(a: &TokenStream, b: &TokenStream) -> parsel::Result<Any<Lit>> { Ok(parsel::try_parse_quote!(#a #b)) }
fn q2(a: &TokenStream, sp: Span) -> parsel::Result<Ex> { Ok(parsel::try_parse_quote_spanned!(sp => let x = 1 + #a ;)) }
fn q3(a: &TokenStream) -> parsel::Result<Ex> { Ok(parsel::try_parse_quote!(let x = 1 + #a ;)) }
fn q4() -> parsel::Result<Empty> { Ok(parsel::try_parse_quote!()) }
fn q5(sp: Span) -> parsel::Result<Any<Lit>> { Ok(parsel::try_parse_quote_spanned!(sp => 1 "two" '3' 4.0 true b"5" b'6' -7)) }
fn q6(xs: &[TokenStream], sp: Span) -> parsel::Result<Punctuated<Paren<Lit>, Token![,]>> { Ok(parsel::try_parse_quote_spanned!(sp => #( ( #xs ) ),* )) }
fn q7(xs: &[TokenStream]) -> parsel::Result<Separated<Lit, Token![+]>> { let v = parsel::try_parse_quote!( #( #xs )+* ); Ok(v) }

fn ends(s: Span) -> ((usize, usize), (usize, usize)) { let (a, b) = (s.start(), s.end()); ((a.line, a.column), (b.line, b.column)) }

fn quotes(r: &mut Rng, rec: &mut Rec) -> Res {
    // a source to take locations and interpolated tokens from
    let mut g = Gen::new(r, 20);
    let n = g.r.range(1, 4);
    let mut gts: Vec<GT> = vec![GT::Word("anchor".into())];
    for _ in 0..n { let l = g.lv(&crate::model::G::Lit); g.lit(&l, &mut gts) }
    let bad = g.r.chance(1, 4);
    if bad { let t = g.soup_tok(1); gts.push(t) }
    let l = *r.pick(&LAYOUTS);
    let Some(i) = lay(gts, "quoted", l, r) else { return Ok(()) };
    rec.what = format!("quote macros on {:?}", i.s);
    let ts: Vec<TokenTree> = i.s.parse::<TokenStream>().expect("harness: lex").into_iter().collect();
    let sp = ts[0].span();
    let all: TokenStream = ts[1..].iter().cloned().collect();
    let k = r.range(1, ts.len());
    let (a, b): (TokenStream, TokenStream) = (ts[1..k].iter().cloned().collect(), ts[k..].iter().cloned().collect());
    let no_panic = |what: &str, m: String| format!("{} panicked on {:?}: {}", what, i.s, m);
    // interpolation only: the same as parsing the tokens, locations included
    let want = parsel::parse2::<Any<Lit>>(all.clone());
    let got = guard(|| q1(&a, &b)).map_err(|m| no_panic("try_parse_quote!", m))?;
    match (&got, &want) {
        (Ok(x), Ok(y)) => {
            if x != y { return Err(format!("try_parse_quote! of {:?} gives {:?}, parsing gives {:?}", i.s, x, y)) }
            for (p, q) in x.iter().zip(y.iter()) { if ends(p.span()) != ends(q.span()) { return Err(format!("try_parse_quote! moved an interpolated literal of {:?} from {:?} to {:?}", i.s, ends(q.span()), ends(p.span()))) } }
            rec.count("accepted");
        }
        (Err(x), Err(y)) if x.to_string() == y.to_string() => rec.count("rejected"),
        (x, y) => return Err(format!("try_parse_quote! of {:?} gives {:?}, parsing gives {:?}", i.s, x.as_ref().map_err(|e| e.to_string()), y.as_ref().map_err(|e| e.to_string()))),
    }
    // a statement around an expression
    let one: TokenStream = ts[1..2].iter().cloned().collect();
    for spanned in [true, false] {
        let got = guard(|| if spanned { q2(&one, sp) } else { q3(&one) }).map_err(|m| no_panic("a quote macro", m))?;
        let want = parsel::parse_str::<Ex>(&format!("let x = 1 + {} ;", one));
        match (&got, &want) {
            (Ok(x), Ok(y)) => {
                if x != y { return Err(format!("a quoted statement around {:?} is {} instead of {}", one.to_string(), x, y)) }
                // the macro's own tokens are where it says, the interpolated ones where they were
                let here = if spanned { ends(sp) } else { ends(Span::call_site()) };
                let t: Vec<TokenTree> = x.to_token_stream().into_iter().collect();
                let n = t.len();
                for (k, tt) in t.iter().enumerate() {
                    let inter = k > 4 && k < n - 1;
                    // (quote! itself lexes the literals of an unspanned quotation)
                    let want = if inter || !spanned { None } else { Some(here) };
                    if let Some(w) = want { if ends(tt.span()) != w { return Err(format!("the quoted token {} is at {:?}, not at {:?}", tt, ends(tt.span()), w)) } }
                    if inter { let w = ends(ts[1].span()); let e = ends(tt.span()); if e.0 < w.0 || e.1 > ends(ts[ts.len() - 1].span()).1 { return Err(format!("the interpolated token {} is at {:?}, it was at {:?}", tt, e, w)) } }
                }
                if t.len() == 7 { let (e, w) = (ends(t[5].span()), ends(ts[1].span())); if e != w { return Err(format!("the interpolated token {} is at {:?}, it was at {:?}", t[5], e, w)) } }
                rec.count("accepted");
            }
            (Err(_), Err(_)) => rec.count("rejected"),
            (x, y) => return Err(format!("a quoted statement around {:?}: {:?}, parsing: {:?}", one.to_string(), x.as_ref().map_err(|e| e.to_string()), y.as_ref().map_err(|e| e.to_string()))),
        }
    }
    if !guard(q4).map_err(|m| no_panic("try_parse_quote!()", m))?.is_ok() { return Err("try_parse_quote!() does not give Empty".into()) }
    let q = guard(|| q5(sp)).map_err(|m| no_panic("try_parse_quote_spanned!", m))?.map_err(|e| format!("try_parse_quote_spanned! of literals: {}", e))?;
    if q.iter().any(|l| ends(l.span()) != ends(sp)) { return Err(format!("try_parse_quote_spanned! puts literals at {:?}, not at {:?}", q.iter().map(|l| ends(l.span())).collect::<Vec<_>>(), ends(sp))) }
    if show(&lex(q.to_token_stream()), false, true) != show(&lex_str("1 \"two\" '3' 4.0 true b\"5\" b'6' -7").unwrap(), false, true) { return Err(format!("try_parse_quote_spanned! of literals gives {}", q)) }
    // repetitions
    let lits: Vec<TokenStream> = { let p: Any<Lit> = want.unwrap_or_default(); p.iter().map(|l| l.to_token_stream()).collect() };
    let p = guard(|| q6(&lits, sp)).map_err(|m| no_panic("try_parse_quote_spanned!", m))?.map_err(|e| format!("quoted list: {}", e))?;
    if p.len() != lits.len() { return Err(format!("quoted list of {} has {} items", lits.len(), p.len())) }
    for (x, y) in p.iter().zip(&lits) {
        if x.as_ref().to_token_stream().to_string() != y.to_string() { return Err(format!("quoted list item {} instead of {}", x, y)) }
        if ends(x.as_parens().span.join()) != ends(sp) { return Err(format!("quoted parentheses are at {:?} instead of {:?}", ends(x.as_parens().span.join()), ends(sp))) }
        if ends(SpannedExt::span(x.as_ref())) != ends(SpannedExt::span(y)) { return Err("an interpolated list item moved".into()) }
    }
    let s = guard(|| q7(&lits)).map_err(|m| no_panic("try_parse_quote!", m))?;
    match s {
        Ok(s) => if s.len().get() != lits.len() { return Err(format!("quoted sum of {} has {} items", lits.len(), s.len())) },
        Err(e) => if !lits.is_empty() { return Err(format!("quoted sum: {}", e)) },
    }
    rec.case(&i.s, true);
    Ok(())
}

// ------------------------------------------------------------------ C26

pub fn c26(run: &Run, types: &[Ty]) {
    run.rule("one token sequence was parsed in two different layouts");
    let sel: Vec<&Ty> = types.iter().collect();
    run.section("two layouts of one input", run.n(250, 20) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let (gts, kind) = if r.chance(1, 3) { match choice_input(ty, r, rec) { Some(i) => (i.gts, i.kind), None => return Ok(()) } } else { tokens_for(ty.t.g(), r) };
        let la = *r.pick(&LAYOUTS);
        layouts(ty, &gts, kind, la, r, rec)
    });
    scaled_with(run, "long and deep inputs", |c, mut gts, l, r, rec| {
        if r.chance(1, 2) { spoil(&mut gts, r) }
        layouts(&c.ty, &gts, "scaled", l, r, rec)
    });
}

/// Two layouts of the same tokens give the same result.
fn layouts(ty: &Ty, gts: &[GT], kind: &str, la: Layout, r: &mut Rng, rec: &mut Rec) -> Res {
    let (a, b) = (render(gts, la, r), render(gts, Layout::Wild, r));
    let (Some(ta), Some(tb)) = (lex_str(&a.s), lex_str(&b.s)) else { rec.count("text that does not lex"); return Ok(()) };
    // a separate operator may have been joined by its layout
    if show(&ta, true, false) != show(&tb, true, false) { rec.count("layouts with different tokens"); return Ok(()) }
    let flat = |t: &[crate::tok::Tk]| { fn n(t: &[crate::tok::Tk]) -> usize { t.iter().map(|t| match &t.t { crate::tok::T::Group(_, i) => 2 + n(i), _ => 1 }).sum() } n(t) };
    if flat(&ta) != a.pieces.len() || flat(&tb) != b.pieces.len() { rec.count("inputs the lexer does not read as intended"); return Ok(()) }
    if model(ty.t.g(), &ta).is_none() { return Ok(()) }
    rec.what = format!("{} on {:?} and {:?}", ty.name(), a.s, b.s);
    let (x, y) = (ty.t.parse_str(&a.s), ty.t.parse_str(&b.s));
    match (&x, &y) {
        (Ok(x), Ok(y)) => {
            let same = x.same(&**y) && y.same(&**x);
            if !same { return Err(format!("{} parses {:?} and {:?} to different nodes", ty.name(), a.s, b.s)) }
            if x.dump() != y.dump() { return Err(format!("{} parses {:?} and {:?} to different values", ty.name(), a.s, b.s)) }
            if x.hash() != y.hash() { return Err(format!("the nodes of {} from {:?} and {:?} hash differently", ty.name(), a.s, b.s)) }
            if show(&lex(x.tokens()), true, false) != show(&lex(y.tokens()), true, false) || x.display(false) != y.display(false) || x.display(true) != y.display(true) { return Err(format!("the nodes of {} from {:?} and {:?} print differently", ty.name(), a.s, b.s)) }
            rec.count("accepted");
        }
        (Err(x), Err(y)) => {
            let (p, q) = (err(x), err(y));
            if p.msg != q.msg { return Err(format!("{} rejects {:?} with {:?} and {:?} with {:?}", ty.name(), a.s, p.msg, b.s, q.msg)) }
            let (u, v) = (on(&a.s, &a.pieces, &p), on(&b.s, &b.pieces, &q));
            if u != v { return Err(format!("{} rejects {:?} at {:?} and {:?} at {:?} (tokens {:?} and {:?})", ty.name(), a.s, (p.start, p.end), b.s, (q.start, q.end), u, v)) }
            rec.count(if u.is_some() { "rejected at a token" } else { "rejected at the end" });
        }
        _ => return Err(format!("{} {} {:?} but {} {:?}", ty.name(), if x.is_ok() { "accepts" } else { "rejects" }, a.s, if y.is_ok() { "accepts" } else { "rejects" }, b.s)),
    }
    rec.count(&format!("input: {}", kind));
    rec.case(&format!("{} {:?} / {:?}", ty.name(), a.s, b.s), a.s != b.s && !ta.is_empty());
    Ok(())
}

/// The indices of the first and last atomic token that a location covers.
fn on(s: &str, pieces: &[(usize, usize)], e: &ErrObs) -> Option<(usize, usize)> {
    // nowhere (the end of the input)
    if e.start == e.end { return None }
    let off = |(l, c): (usize, usize)| {
        let mut at = 0;
        for (i, line) in s.split_inclusive('\n').enumerate() { if i + 1 == l { return at + line.char_indices().nth(c).map_or(line.len(), |x| x.0) } at += line.len() }
        at
    };
    let (a, b) = (off(e.start), off(e.end));
    let first = pieces.iter().position(|p| p.0 == a)?;
    let last = pieces.iter().position(|p| p.1 == b)?;
    Some((first, last))
}
