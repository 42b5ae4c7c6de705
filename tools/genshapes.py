#!/usr/bin/env python3
"""Writes the program of declared shapes: genshapes.py SEED OUT.rs [N]

Every shape of harness/shapes/static.rs, and N random ones, become a module with a function `run`.
Also importable: shapes(seed, n) -> {name: source}, program({name: source}) -> text."""
import os, random, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
DIR = os.path.join(HERE, "..", "harness", "shapes")
USE = "    #[allow(unused)] use crate::support::*; #[allow(unused)] use crate::{impls, same}; #[allow(unused)] use %s::{Parse, ToTokens, FromStr, Display}; #[allow(unused)] use ::parsel::ast::*; #[allow(unused)] use ::parsel::syn::{token, Token};\n"
ALLOW = "#[allow(dead_code, unused_variables, unused_macros, non_camel_case_types, non_snake_case, uncommon_codepoints, mixed_script_confusables, deprecated, unused_must_use, private_interfaces, private_bounds, unused_imports, nonstandard_style, trivial_bounds)]\n"

def static():
    text = open(os.path.join(DIR, "static.rs"), encoding="utf-8").read()
    return {m.group(1): m.group(2) for m in re.finditer(r"^shape! \{ (\w+)\n(.*?)^\}", text, re.S | re.M)}

ARGS = {"LitUint": (1, 1), "OnlyParse": (1, 0), "OnlyTokens": (0, 1), "Neither": (0, 0), "Box<LitUint>": (1, 1), "IfParse<Neither>": (0, 1), "IfTokens<OnlyParse>": (1, 0), "Maybe<token::Comma, OnlyParse>": (1, 0)}

def random_shape(r, i):
    """A generic declaration; the derived impls must exist exactly where the types of the fields have them."""
    ps = ["T", "U", "V", "W"][: r.randint(1, 4)]
    if r.random() < .3: ps = r.sample(["Parse2", "input", "tokens", "Output", "S", "E", "Tokens", "P", "Q", "F", "H", "err"], len(ps))
    enum = r.random() < .5
    name = r.choice(["G", "Node", "r#gen", "Input"])
    # a type: (text, the function of the arguments that tells whether it is (parsed, printed))
    def ty(d):
        s, f = ty_(d)
        # the same type, written differently
        return r.choice(["%s"] * 5 + ["(%s)", "((%s))", "same!(%s)", "same![(%s)]", "<%s as Same>::Out", "SameAs<%s>", "(same!{ %s })", "<SameAs<(%s)> as crate::support::Same>::Out"]) % s, f
    def ty_(d):
        k = r.randint(0, 9)
        if d == 0 or k < 3:
            if r.random() < .15: return r.choice(["LitUint", "Word", "Token![,]"]), lambda a: (1, 1)
            p = r.choice(ps); return p, lambda a: a[p]
        s, f = ty(d - 1)
        return {3: ("Box<%s>" % s, f), 4: ("Maybe<token::Comma, %s>" % s, f), 5: ("Any<%s>" % s, f), 6: ("Ph<%s>" % s, lambda a: (1, 1)),
                7: ("IfParse<%s>" % s, lambda a: (f(a)[0], 1)), 8: ("IfTokens<%s>" % s, lambda a: (1, f(a)[1])),
                9: r.choice([("Paren<%s>" % s, f), ("Many<%s>" % s, f), ("Bracket<Box<%s>>" % s, f), ("Separated<%s, token::Comma>" % s, f), ("Punctuated<%s, token::Semi>" % s, f), ("::parsel::ast::Brace<%s>" % s, f)])}[k]
    me = "%s<%s>" % (name, ", ".join(ps))
    conds = []
    # attributes of others, in any place
    other = lambda: "".join(r.choice(['#[allow(dead_code)] ', '#[doc = "x"] ', "#[cfg(all())] ", "#[cfg_attr(any(), parsel(wrong))] ", "#[cfg_attr(all(), allow(unused))] ", "#[allow(deprecated)] ", "#[doc(hidden)] "]) for _ in range(r.choice([0, 0, 0, 0, 1, 1, 2, 3])))
    def field():
        if r.random() < .05: return other() + "#[cfg(any())] " + other() + "NoSuchType"
        if r.random() < .2:
            s = r.choice(["Ph<%s>" % r.choice(ps), "Maybe<token::Comma, Box<%s>>" % me, "Paren<Any<%s>>" % me, "LitUint", "Bracket<Box<Self>>"])
            return r.choice(["#[parsel(recursive)] ", "#[parsel(recursive = true)] ", "#[cfg_attr(all(), parsel(recursive))] "]).join([other(), other()]) + s
        s, f = ty(r.randint(0, 3)); conds.append(f)
        return r.choice(["", "", "", "#[parsel(recursive = false)] ", "#[parsel(recursive = false)] ", "#[parsel()] ", "#[parsel()] "]).join([other(), other()]) + s
    def body(fs, named):
        if named: return "{ " + ", ".join(re.sub(r"^((?:#\[[^]]*\] )*)", lambda m: m.group(1) + "f%d: " % j, f) for j, f in enumerate(fs)) + " }"
        return "(" + ", ".join(fs) + ")"
    # every parameter is mentioned
    def some(): return [field() for _ in range(r.randint(1, 4))]
    decl = ", ".join(p + r.choice(["", "", "", ": Sized", ": Any2 + Sized", " = LitUint" if p == ps[-1] else ""]) for p in ps)
    where = r.choice(["", "", " where %s: Sized" % ps[0], " where %s: Any2, Ph<%s>: Sized" % (ps[-1], ps[0]), " where for<'x> Ph<&'x %s>: Sized" % ps[0]])
    all_ = "Ph<(%s,)>" % ", ".join(ps)
    if enum:
        vs = []
        for v in range(r.randint(1, 4)):
            k = r.randint(0, 3)
            vs.append(("V%d" % v) + ("" if k == 0 else " " + body(some(), True) if k == 1 else body(some(), False)))
        vs.append("Last(%s)" % all_)
        item = "pub enum %s<%s>%s { %s }" % (name, decl, where, ", ".join(vs))
    elif r.random() < .5: item = "pub struct %s<%s>%s %s" % (name, decl, where, body(some() + [all_], True))
    else: item = "pub struct %s<%s>%s%s;" % (name, decl, body(some() + [all_], False), where)
    out = "    pub trait Any2 {} impl<T: ?Sized> Any2 for T {}\n    #[derive(Parse, ToTokens, FromStr, Display)] %s\n    pub fn run() -> Res {\n" % item
    for _ in range(10):
        pick = [r.choice(list(ARGS)) if r.random() < .5 else "LitUint" for _ in ps]
        a = dict(zip(ps, (ARGS[p] for p in pick)))
        p, t = all(f(a)[0] for f in conds), all(f(a)[1] for f in conds)
        t_ = "%s<%s>" % (name, ", ".join(pick)); b = lambda x: "true" if x else "false"
        out += "        is(\"the traits of %s\", (impls!(%s: parsel::Parse), impls!(%s: parsel::ToTokens), impls!(%s: std::str::FromStr), impls!(%s: std::fmt::Display)), (%s, %s, %s, %s))?;\n" % (t_, t_, t_, t_, t_, b(p), b(t), b(p), b(t))
    return out + "        Ok(())\n    }\n"

def shapes(seed, n):
    out = static(); r = random.Random("shapes %s" % seed)
    for i in range(n): out["random%d" % i] = random_shape(r, i)
    return out

# words for the keyword lists, and names for their types, which may coincide with names in the generated code
WORDS = ["select", "from", "where", "SELECT", "From", "a", "b", "ab", "abc", "__", "_a", "a_", "if", "else", "self", "Self", "crate", "super", "true", "false", "fn", "r#fn", "r#type", "type", "struct", "async", "await", "dyn", "union", "try", "yield", "macro_rules", "é", "été", "ßx", "long_keyword_name_number_1", "r#a", "r#union", "x1", "x", "X", "u8", "i64", "str", "mod", "kw", "abstract", "r#abstract", "raw", "T", "H", "span", "name", "Keywords", "vis", "expr", "ident", "static", "default", "r#loop", "gen", "auto", "safe"]
KWTYPES = ["T", "H", "K", "U", "S", "A", "Hash", "Hasher", "Clone", "Copy", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Debug", "Display", "FromStr", "Parse", "ToTokens", "Ident", "Span", "TokenStream", "TokenTree", "Err", "Ok", "Error", "Result", "Option", "Some", "None", "Ordering", "Formatter", "str", "String", "u8", "Sized", "KeywordList", "r#type", "r#fn", "é", "lowercase", "core", "parsel", "span", "Keyword", "AsRef", "From", "Box", "Iterator", "Vec", "Send", "Drop", "Fn", "Token", "ParseStream", "syn", "quote", "proc_macro2", "string", "raw", "ident", "message", "kw", "Output", "State", "Other", "bool", "usize", "ToString", "Into", "IdentExt", "TokenStreamExt", "UPPER_CASE", "std", "alloc", "Self_"]

def keyword_module(words, names, vis="pub ", body=None):
    """A module of keywords with the checks of all its keywords against many words."""
    body = body or "::parsel::define_keywords! { %smod kw { %s } }" % (vis, " ".join("%s => %s;" % p for p in zip(words, names)))
    quoted = ", ".join('"%s"' % w for w in words)
    out = "    %s\n    pub fn run() -> Res {\n        let declared: &[&str] = &[%s];\n" % (body, quoted)
    out += '        is("the list", { let mut k = <kw::Keywords as KeywordList>::KEYWORDS.to_vec(); k.sort_unstable(); k }, { let mut k = declared.to_vec(); k.sort_unstable(); k })?;\n'
    out += "        keyword_list::<kw::Keywords>(declared)?;\n"
    for w, n in zip(words, names): out += '        keyword::<kw::%s>("%s")?; is("as_str", kw::%s::default().as_str(), "%s")?;\n' % (n, w, n, w)
    return out + "        Ok(())\n    }\n"

def keywords(seed, n):
    """{name: source} of modules of keywords: fixed and random ones."""
    out, r = {}, random.Random("keywords %s" % seed)
    out["all_types"] = keyword_module(["w%d" % i for i in range(len(KWTYPES))], KWTYPES)
    out["all_words"] = keyword_module(WORDS + ["_"], ["K%d" % i for i in range(len(WORDS) + 1)])
    out["own_names"] = keyword_module(["T", "H", "Hash", "str", "Span", "é"], ["T", "H", "Hash", "str", "Span", "é"])
    out["none"] = keyword_module([], [])
    out["underscore"] = keyword_module(["_"], ["T"])
    out["many"] = keyword_module(["k%d" % i for i in range(130)], ["K%d" % i for i in range(130)], "pub(crate) ")
    out["nested_vis"] = keyword_module(["a", "if"], ["A", "If"], "pub(in super) ", None)
    out["from_a_macro"] = keyword_module(["a", "fn", "_"], ["A", "T", "U"], body="macro_rules! make { ($m:ident: $($a:ident $b:ident),*; $u:ident) => { ::parsel::define_keywords! { pub mod $m { $($a => $b;)* _ => $u; } } } } make!(kw: a A, fn T; U);")
    out["shadowed"] = keyword_module(["a", "fn"], ["A", "T"], body="pub struct Option; pub struct Result; pub mod core {} pub trait AsRef {} pub mod parsel {} #[allow(unused)] macro_rules! stringify { ($($t:tt)*) => { compile_error!(\"shadowed\") } } #[allow(unused)] macro_rules! concat { ($($t:tt)*) => { compile_error!(\"shadowed\") } } ::parsel::define_keywords! { pub mod kw { a => A; fn => T; } }")
    for i in range(n):
        ws = r.sample(WORDS, r.choice([1, 2, 3, 5, 8, 13]))
        if r.random() < .3: ws.append("_")       # the underscore is declared last
        out["random%d" % i] = keyword_module(ws, r.sample(KWTYPES, len(ws)), r.choice(["pub ", "pub(crate) ", "", "pub(super) ", "pub(self) "]))
    return out

def program(shapes, derives="::parsel", run=True):
    """derives: the crate the derive macros are from; run: whether the shapes' checks are included."""
    out = "#![allow(uncommon_codepoints, mixed_script_confusables)]\n"
    out += open(os.path.join(DIR, "support.rs"), encoding="utf-8").read()
    for name, body in shapes.items():
        if not run: body = re.sub(r"^    pub fn run\(\).*", "", body, flags=re.S | re.M)
        if derives != "::parsel": body = re.sub(r"#\[derive\(([^)]*)\)\]", lambda m: "#[derive(%s)]" % re.sub(r"(?:::)?parsel::", derives + "::", m.group(1)), body)
        out += ALLOW + "pub mod %s {\n" % name + USE % derives + body + "}\n"
    out += "fn main() {\n    let all: Vec<(&str, fn() -> support::Res)> = vec![%s];\n" % (", ".join("(%r, %s::run as fn() -> support::Res)" % (n, n) for n in shapes).replace("'", '"') if run else "")
    out += '''    std::panic::set_hook(Box::new(|_| {}));
    for (name, run) in all {
        match std::panic::catch_unwind(run) {
            Ok(Ok(())) => println!("OK {}", name),
            Ok(Err(e)) => println!("FAIL {} {:?}", name, e),
            Err(e) => println!("FAIL {} {:?}", name, format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
        }
    }
    println!("CHECKS {}", support::CHECKS.load(std::sync::atomic::Ordering::Relaxed));
}
'''
    return out

if __name__ == "__main__":
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 30
    open(sys.argv[2], "w", encoding="utf-8").write(program(shapes(int(sys.argv[1]), n)))
