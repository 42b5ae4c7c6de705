//! C01-C05, C07: what is accepted, what it yields, and how much of the input it uses.
use crate::eng::*;
use crate::gen::{Layout, GT};
use crate::model::{Fail, Model, K, V};
use crate::gram::{StepFields, Steps};
use crate::props::scale::scaled_with;
use crate::props::src::spoil;
use crate::report::{Rec, Res, Run};
use crate::rng::Rng;
use crate::tok::{show, D};
use parsel::ast::*;
use parsel::syn::parse::discouraged::Speculative;
use parsel::syn::parse::ParseStream;

const DERIVED: u32 = feat::STRUCT | feat::ENUM;

pub fn c01(run: &Run, types: &[Ty]) {
    run.rule("the type is derived and the input is not empty, or it is and the value was compared");
    // types made of derived nodes, leaves and groups only
    let pure: Vec<&Ty> = types.iter().filter(|t| t.reach & DERIVED != 0 && t.reach & (feat::ANY | feat::PUNCT | feat::SEP | feat::CHAIN | feat::MAYBE | feat::EITHER | feat::END) == 0).collect();
    differential(run, "derived nodes against the grammar model", &pure, run.n(250, 20), |_| true);
    let derived: Vec<&Ty> = types.iter().filter(|t| matches!(t.t.steps(), Some(Steps::Struct(..))) || (t.reach & DERIVED != 0 && t.root == feat::ENUM)).collect();
    run.section("derived nodes against their own fields parsed one by one", run.n(120, 20) * derived.len() as u64, |r, rec, idx| {
        let ty = derived[idx as usize % derived.len()];
        let Some(i) = input_for(ty.t.g(), r, rec) else { return Ok(()) };
        by_steps(ty, &i, rec)
    });
    scaled_with(run, "long and deep derived nodes", |c, mut gts, l, r, rec| {
        if c.ty.t.steps().is_none() || c.ty.reach & DERIVED == 0 { return Ok(()) }
        if r.chance(1, 3) { spoil(&mut gts, r) }
        let Some(i) = lay(gts, "scaled", l, r) else { return Ok(()) };
        by_steps(&c.ty, &i, rec)
    });
}

/// value, or the index of the field that failed
fn seq(f: &StepFields, p: ParseStream<'_>) -> Result<Vec<V>, usize> {
    let mut o = vec![];
    for (i, (_, s)) in f.iter().enumerate() { o.push(s(p).map_err(|_| i)?) }
    Ok(o)
}

fn by_steps(ty: &Ty, i: &Input, rec: &mut Rec) -> Res {
    if model(ty.t.g(), &i.tks).is_none() { return Ok(()) }
    rec.what = format!("{} on {:?}", ty.name(), i.brief());
    let Some(steps) = ty.t.steps() else { return Ok(()) };
    let out = on_stream(&i.s, |p| -> Result<bool, String> {
        let f = p.fork();
        let want = match &steps {
            Steps::Struct(_, fs) => seq(fs, &f).ok().map(K::Seq),
            Steps::Enum(_, vs) => {
                let mut got = None;
                for (k, (_, fs)) in vs.iter().enumerate() {
                    let g = f.fork();
                    if let Ok(v) = seq(fs, &g) { f.advance_to(&g); got = Some(K::Var(k, v)); break }
                }
                got
            }
        };
        let real = p.fork();
        let got = ty.t.parse_in(&real);
        match (got, want) {
            (Ok(n), Some(k)) => {
                let d = n.dump();
                if d.k != k { return Err(format!("{} parsed {:?} to {}, but its fields one after another give {}", ty.name(), i.s, brief(&d), brief(&V::of(k)))) }
                let (a, b) = (rest(&real), rest(&f));
                if a != b { return Err(format!("{} on {:?} stops before [{}], its fields stop before [{}]", ty.name(), i.s, a, b)) }
                rec.count("accepted");
                Ok(true)
            }
            (Err(_), None) => { rec.count("rejected"); Ok(true) }
            (Ok(n), None) => Err(format!("{} accepted {:?} as {}, but its fields do not parse", ty.name(), i.s, brief(&n.dump()))),
            (Err(e), Some(k)) => Err(format!("{} rejected {:?} ({}), but its fields give {}", ty.name(), i.s, e, brief(&V::of(k)))),
        }
    })?;
    rec.case(&format!("steps {} <- {}", ty.name(), show(&i.tks, true, false)), out && !i.tks.is_empty());
    Ok(())
}

pub fn c02(run: &Run, types: &[Ty]) {
    run.rule("something was consumed and something was left, or a choice failed on a non-empty input");
    let all: Vec<&Ty> = types.iter().filter(|t| t.reach & (feat::ENUM | feat::EITHER | feat::MAYBE | feat::ANY | feat::SEP | feat::PUNCT | feat::CHAIN | feat::STRUCT | feat::GROUP) != 0).collect();
    run.section("position after parsing against the model", run.n(220, 20) * all.len() as u64, |r, rec, idx| {
        let ty = all[idx as usize % all.len()];
        let Some(i) = input_for(ty.t.g(), r, rec) else { return Ok(()) };
        position(ty, &i, rec)
    });
    crate::props::rest::section(run);
    scaled_with(run, "long and deep inputs", |c, mut gts, l, r, rec| {
        match r.below(4) { 0 => spoil(&mut gts, r), 1 => {} _ => gts.extend([GT::Op("@".into()), GT::Word("rest".into()), GT::Group(D::Paren, vec![])]) }
        let Some(i) = lay(gts, "scaled", l, r) else { return Ok(()) };
        position(&c.ty, &i, rec)
    });
}

/// What is left of the input after parsing.
fn position(ty: &Ty, i: &Input, rec: &mut Rec) -> Res {
    rec.what = format!("{} on {:?}", ty.name(), i.brief());
    let m = Model::new(steps_for(&i.tks)).p(ty.t.g(), &i.tks, 0);
    if matches!(m, Err(Fail::Budget)) { return Ok(()) }
    let nt = on_stream(&i.s, |p| -> Result<bool, String> {
        let got = ty.t.parse_in(p);
        let left = rest(p);
        match (got, m) {
            (Ok(n), Ok((v, at, _))) => {
                let want = show(&i.tks[at..], true, false);
                if left != want { return Err(format!("after {} parsed {:?}, the rest is [{}] instead of [{}]", ty.name(), i.s, left, want)) }
                let d = n.dump();
                if d != v { return Err(format!("{} parsed the beginning of {:?} to {} instead of {}", ty.name(), i.s, brief(&d), brief(&v))) }
                rec.count("accepted a prefix");
                if at < i.tks.len() { rec.count("accepted with tokens left") }
                Ok(at > 0)
            }
            (Err(_), Err(_)) => {
                rec.count("rejected");
                if ty.root & (feat::ENUM | feat::EITHER) != 0 {
                    let want = show(&i.tks, true, false);
                    if left != want { return Err(format!("{} failed on {:?} but moved the input to [{}]", ty.name(), i.s, left)) }
                    rec.count("choice failed, position checked");
                    Ok(!i.tks.is_empty())
                } else { Ok(false) }
            }
            (Ok(n), Err(_)) => Err(format!("{} parsed the beginning of {:?} as {} although its grammar rejects it", ty.name(), i.s, brief(&n.dump()))),
            (Err(e), Ok((v, ..))) => Err(format!("{} rejected the beginning of {:?} ({}) although its grammar accepts it as {}", ty.name(), i.s, e, brief(&v))),
        }
    })?;
    rec.case(&format!("{} <- {}", ty.name(), show(&i.tks, true, false)), nt);
    Ok(())
}

fn with(types: &[Ty], f: u32) -> Vec<&Ty> { types.iter().filter(|t| t.reach & f != 0).collect() }

fn list_len(v: &V) -> usize {
    let mut m = 0;
    let mut st = vec![v];
    while let Some(v) = st.pop() { if let K::List(a, b) = &v.k { m = m.max(a.len() + b.len()) } st.extend(v.kids()) }
    m
}

/// Long inputs for one type: `n` items with separators, without changing the shape.
fn sized<T: crate::ops::Full + parsel::Display + parsel::FromStr<Err = parsel::Error>>(name: &str) -> Ty { Ty::new(crate::ops::ty::<T>(name)) }

fn small_int(r: &mut Rng) -> GT { GT::Lit(r.below(100).to_string()) }

fn big(run: &Run, label: &str, types: Vec<(Ty, fn(&mut Rng) -> Vec<GT>, fn(&mut Rng) -> Vec<GT>, u8)>, sizes: &[usize]) {
    // flag: 0 = no trailing separator allowed, 1 = allowed, 2 = there are no separators
    let n = (types.len() * sizes.len() * 3) as u64;
    run.section_with(label, n, 512 << 20, 8, |r, rec, idx| {
        let idx = idx as usize;
        let (ty, item, sep, flag) = &types[idx / 3 % types.len()];
        let size = sizes[idx / 3 / types.len()];
        let mut gts = vec![];
        for k in 0..size { if k > 0 && *flag != 2 { gts.extend(sep(r)) } gts.extend(item(r)) }
        match idx % 3 { 0 => {} 1 => if *flag != 2 { gts.extend(sep(r)) } _ => gts.push(GT::Op("?".into())) }
        let l = if r.chance(1, 2) { Layout::Spaced } else { Layout::Lines };
        let i = lay(gts, "long", l, r).expect("harness: long input does not lex");
        rec.what = format!("{} on {} items", ty.name(), size);
        let got = ty.t.parse_str(&i.s);
        let want = match Model::new(usize::MAX).full(ty.t.g(), &i.tks) { Ok(v) => Some(v), Err(_) => None };
        let ok = match (&got, &want) {
            (Ok(n), Some(v)) => same_long(&n.dump(), v),
            (Err(_), None) => true,
            _ => false,
        };
        rec.max("max_items", size as u64);
        rec.case(&format!("{} with {} items, ending {}", ty.name(), size, idx % 3), true);
        let bad = if ok { Ok(()) } else {
            Err(format!("{} on {} items (ending {}): {}", ty.name(), size, ["as they are", "with a separator", "with a stray token"][idx % 3], match (&got, &want) { (Ok(_), Some(_)) => "wrong value".into(), (Ok(_), None) => "accepted, must be rejected".into(), (Err(e), Some(_)) => format!("rejected: {}", e), _ => String::new() }))
        };
        // printing gives it back
        let bad = bad.and_then(|()| {
            let Ok(n) = &got else { return Ok(()) };
            let t = crate::tok::lex(n.tokens());
            let (a, b) = (show(&t, false, true), show(&i.tks, false, true));
            if a == b { return Ok(()) }
            let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
            Err(format!("{} on {} items (ending {}) prints {} tokens instead of {}; they differ after {} bytes", ty.name(), size, idx % 3, crate::tok::count(&t), crate::tok::count(&i.tks), k))
        });
        // deep chains are dropped recursively; not our concern here
        std::mem::forget(want);
        std::mem::forget(got);
        bad
    });
}

/// equality without recursion along operator chains
fn same_long(a: &V, b: &V) -> bool {
    let (mut x, mut y) = (a, b);
    loop {
        match (&x.k, &y.k) {
            (K::Bin(false, p), K::Bin(false, q)) => { if p.1 != q.1 || p.2 != q.2 { return false } x = &p.0; y = &q.0 }
            (K::Bin(true, p), K::Bin(true, q)) => { if p.1 != q.1 || p.0 != q.0 { return false } x = &p.2; y = &q.2 }
            _ => return x == y,
        }
    }
}

fn comma(_: &mut Rng) -> Vec<GT> { vec![GT::Op(",".into())] }
fn int(r: &mut Rng) -> Vec<GT> { vec![small_int(r)] }
fn pair(r: &mut Rng) -> Vec<GT> { vec![GT::Word(["ab", "cd", "x1"][r.below(3)].into()), small_int(r)] }
fn grp(r: &mut Rng) -> Vec<GT> { vec![GT::Group(D::Paren, (0..r.below(3)).map(|_| GT::Word("w".into())).collect())] }
fn addop(r: &mut Rng) -> Vec<GT> { vec![GT::Op(["+", "-", "+="][r.below(3)].into())] }
fn seq2(_: &mut Rng) -> Vec<GT> { vec![GT::Op(",".into()), GT::Op(";".into())] }

pub fn c03(run: &Run, types: &[Ty]) {
    run.rule("a repetition with at least one item or separator was parsed, or a non-empty input was rejected");
    let sel = with(types, feat::ANY | feat::PUNCT | feat::SEP);
    differential(run, "repetitions against the grammar model", &sel, run.n(200, 20), |v| list_len(v) > 0);
    // every short sequence over a small alphabet
    let alpha: Vec<GT> = vec![GT::Lit("1".into()), GT::Op(",".into()), GT::Word("a".into()), GT::Op(";".into()), GT::Group(D::Paren, vec![])];
    let tys: Vec<Ty> = vec![
        sized::<Any<LitUint>>("Any<LitUint>"), sized::<Many<LitUint>>("Many<LitUint>"), sized::<Punctuated<LitUint, Token![,]>>("Punctuated<LitUint, ,>"), sized::<Separated<LitUint, Token![,]>>("Separated<LitUint, ,>"),
        sized::<Punctuated<Either<LitUint, Word>, crate::zoo::SepEither>>("Punctuated<Either<LitUint, Word>, SepEither>"), sized::<Separated<crate::zoo::Maybe2, Token![,]>>("Separated<Maybe2, ,>"), sized::<Any<Paren<Empty>>>("Any<Paren<Empty>>"),
        sized::<Punctuated<crate::zoo::Item2, crate::zoo::SepAB>>("Punctuated<Item2, SepAB>"), sized::<Separated<crate::zoo::Item2, crate::zoo::SepAB>>("Separated<Item2, SepAB>"), sized::<Any<crate::zoo::Item2>>("Any<Item2>"),
    ];
    let max = if run.thorough() { 7 } else { 6 };
    enumerate(run, "every short sequence of items and separators", &tys, &alpha, max);
    big(run, "long repetitions", vec![
        (sized::<Any<LitUint>>("Any<LitUint>"), int, comma, 2), (sized::<Many<crate::zoo::Item2>>("Many<Item2>"), pair, comma, 2), (sized::<Any<Paren<Any<Word>>>>("Any<Paren<Any<Word>>>"), grp, comma, 2),
        (sized::<Punctuated<LitUint, Token![,]>>("Punctuated<LitUint, ,>"), int, comma, 1), (sized::<Punctuated<crate::zoo::Item2, crate::zoo::SepAB>>("Punctuated<Item2, SepAB>"), pair, seq2, 1),
        (sized::<Separated<LitUint, Token![,]>>("Separated<LitUint, ,>"), int, comma, 0), (sized::<Separated<crate::zoo::Item2, crate::zoo::SepAB>>("Separated<Item2, SepAB>"), pair, seq2, 0),
    ], &run.sizes(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 1025, 4096, 4097, 12_000, 65_536, 70_000], &[255, 256, 257, 1000, 1024, 4096, 5000, 16384, 65535, 65536, 65537, 100_000]));
}

fn k_layout(idx: u64) -> bool { (idx / 7) % 3 == 0 }

/// All sequences of up to `max` tokens over `alpha`.
fn enumerate(run: &Run, label: &str, tys: &[Ty], alpha: &[GT], max: usize) {
    enumerate_in(run, label, tys, alpha, max, 1);
    enumerate_in(run, &format!("{}, in many layouts", label), tys, alpha, 3, if alpha.len() > 7 { 3 } else { 16 });
}

fn enumerate_in(run: &Run, label: &str, tys: &[Ty], alpha: &[GT], max: usize, times: u64) {
    let mut per = 0u64;
    for k in 0..=max { per += (alpha.len() as u64).pow(k as u32) }
    run.section(label, per * times * tys.len() as u64, |r, rec, idx| {
        let ty = &tys[(idx % tys.len() as u64) as usize];
        let mut k = idx / tys.len() as u64 / times;
        let (mut len, mut block) = (0, 1);
        while k >= block { k -= block; len += 1; block *= alpha.len() as u64 }
        let mut gts = vec![];
        for _ in 0..len { gts.push(alpha[(k % alpha.len() as u64) as usize].clone()); k /= alpha.len() as u64 }
        let i = lay(gts, "enumerated", if times == 1 && k_layout(idx) { Layout::Spaced } else { *r.pick(&[Layout::Tight, Layout::Lines, Layout::Wild]) }, r).expect("harness: does not lex");
        if let Out::Skip = diff(ty, &i, rec)? { return Err("harness: budget".into()) }
        rec.case(&format!("{} <- {}", ty.name(), i.s), len > 0);
        Ok(())
    });
}

pub fn c04(run: &Run, types: &[Ty]) {
    run.rule("an optional, either-choice or end marker was decided, or a non-empty input was rejected");
    let sel = with(types, feat::MAYBE | feat::EITHER | feat::END);
    differential(run, "optionals, choices and end markers against the grammar model", &sel, run.n(250, 20), |v| has(v, &|v| matches!(v.k, K::Just(_) | K::Nothing | K::Left(_) | K::Right(_) | K::Unit)));
    let alpha: Vec<GT> = vec![GT::Op("+".into()), GT::Lit("1".into()), GT::Word("a".into()), GT::Op(",".into()), GT::Group(D::Paren, vec![]), GT::Group(D::Paren, vec![GT::Lit("2".into())])];
    use crate::zoo::*;
    let tys: Vec<Ty> = vec![
        sized::<Maybe<Token![+], LitUint>>("Maybe<+, LitUint>"), sized::<MaybeBody>("MaybeBody"), sized::<MaybeMulti>("MaybeMulti"), sized::<MaybeGroup>("MaybeGroup"), sized::<Maybe<LitUint>>("Maybe<LitUint>"), sized::<Maybe<SepPlus, Maybe<Token![,], Word>>>("Maybe<SepPlus, Maybe<,, Word>>"),
        sized::<EitherSeq>("EitherSeq"), sized::<EitherDeep>("EitherDeep"), sized::<Ends>("Ends"), sized::<NotEnd>("NotEnd"), sized::<Eof>("Eof"), sized::<NotEof>("NotEof"), sized::<Empty>("Empty"), sized::<Either<Paren<LitUint>, Paren<Empty>>>("Either<Paren<LitUint>, Paren<Empty>>"), sized::<Either<PreAB, Either<crate::zoo::kx::A, LitUint>>>("Either<PreAB, Either<A, LitUint>>"),
        sized::<Maybe<Paren<Eof>, Maybe<Paren<NotEof>>>>("Maybe<Paren<Eof>, Maybe<Paren<NotEof>>>"), sized::<Any<Paren<NotEof>>>("Any<Paren<NotEof>>"), sized::<Any<Either<Paren<Eof>, Paren<Either<NotEnd, Either<Eof, LitUint>>>>>>("Any<Either<Paren<Eof>, Paren<Either<NotEnd, Either<Eof, LitUint>>>>>"),
    ];
    enumerate(run, "every short token sequence", &tys, &alpha, if run.thorough() { 6 } else { 5 });
    let tys: Vec<Ty> = vec![
        sized::<Maybe<Eof>>("Maybe<Eof>"), sized::<Maybe<NotEof, Word>>("Maybe<NotEof, Word>"), sized::<Maybe<Empty, Any<Word>>>("Maybe<Empty, Any<Word>>"), sized::<Maybe<Any<Token![+]>, LitUint>>("Maybe<Any<+>, LitUint>"), sized::<Maybe<Maybe<Token![+]>, Maybe<NotEof, LitUint>>>("Maybe<Maybe<+>, Maybe<NotEof, LitUint>>"),
        sized::<Maybe<Either<Eof, Token![+]>, Maybe<LitUint>>>("Maybe<Either<Eof, +>, Maybe<LitUint>>"), sized::<Maybe3>("Maybe3"), sized::<Paren<Maybe<Eof>>>("Paren<Maybe<Eof>>"), sized::<Maybe<Paren<Maybe<Eof>>, Maybe<Eof, Empty>>>("Maybe<Paren<Maybe<Eof>>, Maybe<Eof, Empty>>"),
        sized::<Separated<Word, NotEof>>("Separated<Word, NotEof>"), sized::<Separated<Word, Maybe<Token![,]>>>("Separated<Word, Maybe<,>>"), sized::<LeftAssoc<NotEof, Either<Word, LitUint>>>("LeftAssoc<NotEof, Either<Word, LitUint>>"), sized::<Punctuated<Word, Maybe<Token![,]>>>("Punctuated<Word, Maybe<,>>"),
    ];
    enumerate(run, "every short token sequence, with prefixes and separators that can be empty", &tys, &alpha, if run.thorough() { 6 } else { 5 });
    // markers consume and print nothing, and are decided inside the current group
    run.section("markers print nothing", 3, |_, rec, idx| {
        let (n, s): (&str, [String; 3]) = match idx { 0 => ("Eof", prints(&Eof::new())), 1 => ("NotEof", prints(&NotEof::new())), _ => ("Empty", prints(&Empty::new())) };
        rec.case(n, true);
        if s.iter().any(|s| !s.is_empty()) { return Err(format!("{} prints {:?}", n, s)) }
        Ok(())
    });
}

fn prints<T: parsel::Display + parsel::ToTokens>(x: &T) -> [String; 3] { [format!("{}", x), format!("{:#}", x), x.to_token_stream().to_string()] }

pub fn c05(run: &Run, types: &[Ty]) {
    run.rule("a chain with at least one operator was parsed, or a non-empty input was rejected");
    let sel = with(types, feat::CHAIN);
    differential(run, "operator chains against the grammar model", &sel, run.n(400, 20), |v| has(v, &|v| matches!(v.k, K::Bin(..))));
    // printing gives the chain back
    run.section("printing gives the chain back", run.n(150, 20) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let Some(gts) = sentence_for(ty.t.g(), r, 40) else { return Ok(()) };
        let Some(i) = lay(gts, "sentence", Layout::Spaced, r) else { return Ok(()) };
        if let Out::Acc(n, v) = diff(ty, &i, rec)? {
            let t = crate::tok::lex(n.tokens());
            // the spacing of the last character of an operator may depend on what follows in the source
            let (a, b) = (show(&t, false, true), show(&i.tks, false, true));
            if a != b { return Err(format!("{} parsed from {:?} prints as {:?}", ty.name(), i.s, n.tokens().to_string())) }
            rec.case(&format!("print {} <- {}", ty.name(), b), has(&v, &|v| matches!(v.k, K::Bin(..))));
        }
        Ok(())
    });
    let alpha: Vec<GT> = vec![GT::Lit("1".into()), GT::Op("+".into()), GT::Op("*".into()), GT::Word("a".into()), GT::Op("-".into())];
    use crate::zoo::*;
    let tys: Vec<Ty> = vec![
        sized::<LeftAssoc<AddOp, LitUint>>("LeftAssoc<AddOp, LitUint>"), sized::<RightAssoc<AddOp, LitUint>>("RightAssoc<AddOp, LitUint>"), sized::<LeftAssoc<AddOp, LeftAssoc<MulOp, Operand>>>("LeftAssoc<AddOp, LeftAssoc<MulOp, Operand>>"), sized::<RightAssoc<AddOp, RightAssoc<MulOp, Operand>>>("RightAssoc<AddOp, RightAssoc<MulOp, Operand>>"),
        sized::<LeftAssoc<AddOp, RightAssoc<MulOp, Operand>>>("LeftAssoc<AddOp, RightAssoc<MulOp, Operand>>"), sized::<RightAssoc<MulOp, LeftAssoc<AddOp, Operand>>>("RightAssoc<MulOp, LeftAssoc<AddOp, Operand>>"),
    ];
    enumerate(run, "every short sequence of operands and operators", &tys, &alpha, if run.thorough() { 7 } else { 6 });
    big(run, "long chains", vec![
        (sized::<LeftAssoc<AddOp, LitUint>>("LeftAssoc<AddOp, LitUint>"), int, addop, 0), (sized::<RightAssoc<AddOp, LitUint>>("RightAssoc<AddOp, LitUint>"), int, addop, 0),
        (sized::<LeftAssoc<SepAB, Item2>>("LeftAssoc<SepAB, Item2>"), pair, seq2, 0), (sized::<RightAssoc<SepAB, Item2>>("RightAssoc<SepAB, Item2>"), pair, seq2, 0),
    ], &run.sizes(&[2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 8000, 33_000, 66_000], &[2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 2048, 4096, 10_000, 30_000]));
}

pub fn c07(run: &Run, types: &[Ty]) {
    run.rule("a group was parsed, or a non-empty input was rejected");
    let sel = with(types, feat::GROUP);
    differential(run, "delimited nodes against the grammar model", &sel, run.n(250, 20), |v| has(v, &|v| matches!(v.k, K::Group(..))));
    // groups with everything that may be wrong around them
    use crate::zoo::*;
    let tys: Vec<Ty> = vec![
        sized::<Paren<LitUint>>("Paren<LitUint>"), sized::<Bracket<LitUint>>("Bracket<LitUint>"), sized::<Brace<LitUint>>("Brace<LitUint>"), sized::<Paren<Any<LitUint>>>("Paren<Any<LitUint>>"), sized::<Bracket<Maybe<LitUint>>>("Bracket<Maybe<LitUint>>"), sized::<Brace<Empty>>("Brace<Empty>"), sized::<Paren<Paren<Maybe<LitUint>>>>("Paren<Paren<Maybe<LitUint>>>"),
        sized::<DelimChoice>("DelimChoice"), sized::<Any<Paren<LitUint>>>("Any<Paren<LitUint>>"), sized::<Maybe<Paren<LitUint>, Any<Bracket<Any<LitUint>>>>>("Maybe<Paren<LitUint>, Any<Bracket<Any<LitUint>>>>"), sized::<Either<Paren<LitUint>, Paren<Any<LitUint>>>>("Either<Paren<LitUint>, Paren<Any<LitUint>>>"),
    ];
    let one = || GT::Lit("1".into());
    let mut alpha = vec![one()];
    for d in D::REAL { alpha.push(GT::Group(d, vec![])); alpha.push(GT::Group(d, vec![one()])); alpha.push(GT::Group(d, vec![one(), one()])); }
    alpha.push(GT::Group(D::Paren, vec![GT::Group(D::Paren, vec![one()])]));
    alpha.push(GT::Group(D::Paren, vec![GT::Group(D::Paren, vec![]), one()]));
    enumerate(run, "every short sequence of groups", &tys, &alpha, if run.thorough() { 4 } else { 3 });
    // printing
    run.section("printed delimiters", run.n(100, 20) * sel.len() as u64, |r, rec, idx| {
        let ty = sel[idx as usize % sel.len()];
        let Some(gts) = sentence_for(ty.t.g(), r, 40) else { return Ok(()) };
        let Some(i) = lay(gts, "sentence", Layout::Spaced, r) else { return Ok(()) };
        if let Out::Acc(n, v) = diff(ty, &i, rec)? {
            let t = crate::tok::lex(n.tokens());
            let (a, b) = (show(&t, false, true), show(&i.tks, false, true));
            if a != b { return Err(format!("{} parsed from {:?} prints as {:?}", ty.name(), i.s, n.tokens().to_string())) }
            rec.case(&format!("print {} <- {}", ty.name(), b), has(&v, &|v| matches!(v.k, K::Group(..))));
        }
        Ok(())
    });
}

/// Part of C24: the derived types behave as they are declared.
pub fn c24(run: &Run, types: &[Ty]) {
    run.rule("derived types of every shape, parsed and printed; a case is a distinct input of a type, non-trivial if it is not empty");
    let sel: Vec<&Ty> = types.iter().filter(|t| t.root & (feat::STRUCT | feat::ENUM) != 0).collect();
    differential(run, "declared shapes", &sel, run.n(150, 20), |_| true);
}
