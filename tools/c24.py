"""C24, the part that is about declarations: compiles declared and random shapes against the crates and
runs the result; declarations that have to be rejected are given to the compiler one by one.

Nothing here depends on the other harness crates, since a defective derive may keep those from compiling."""
import json, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import genshapes

STRIP = lambda s: re.sub(r"#\[parsel\b(?:[^\[\]]|\[[^\]]*\])*\]\s*", "", s)

class Inconclusive(Exception): pass

NULL = '''extern crate proc_macro; use proc_macro::TokenStream;
#[proc_macro_derive(Parse, attributes(parsel))] pub fn a(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(ToTokens, attributes(parsel))] pub fn b(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(FromStr)] pub fn c(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(Display)] pub fn d(_: TokenStream) -> TokenStream { TokenStream::new() }
'''

class Shapes:
    def __init__(self, target, cargo_build, seed, n, log):
        """cargo_build(dir, name) -> (ok, [messages])"""
        self.target, self.seed, self.n, self.log = target, seed, n, log
        self.cargo_build = cargo_build
        self.scratch = os.path.join(target, "c24"); os.makedirs(self.scratch, exist_ok=True)
        self.rlib = None

    def rustc(self, src, name, extra=()):
        path = os.path.join(self.scratch, name + ".rs")
        open(path, "w", encoding="utf-8").write(src)
        cmd = ["rustc", "--edition", "2021", "--crate-name", re.sub(r"\W", "_", name), "--emit=metadata", "--out-dir", self.scratch, "--cap-lints", "allow", "--error-format=json",
               "--extern", "parsel=" + self.rlib, "-L", "dependency=" + os.path.join(self.target, "debug", "deps"), path, *extra]
        try: p = subprocess.run(cmd, capture_output=True, text=True, timeout=200)
        except subprocess.TimeoutExpired: raise Inconclusive("rustc did not end on %s" % path)
        msgs = []
        for l in p.stderr.splitlines():
            try: m = json.loads(l)
            except ValueError: msgs.append({"level": "error", "message": l, "rendered": l, "code": None}); continue
            if m.get("level", "").startswith("error") and "rendered" in m: msgs.append(m)
        if p.returncode < 0 or "internal compiler error" in p.stderr: raise Inconclusive("rustc crashed on %s" % path)
        return p.returncode == 0, msgs

    def null_derives(self):
        """Derives that add nothing, to see whether a declaration is in order by itself."""
        so = os.path.join(self.scratch, "libnull_derives.so")
        if not os.path.exists(so):
            src = os.path.join(self.scratch, "null_derives.rs"); open(src, "w").write(NULL)
            p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "proc-macro", "--crate-name", "null_derives", "--out-dir", self.scratch, src], capture_output=True, text=True)
            if p.returncode: raise Inconclusive("the empty derives do not compile: " + p.stderr)
        return ["--extern", "null_derives=" + so]

    def in_order(self, name, body):
        """Whether the shape's declarations compile with empty derives."""
        ok, _ = self.rustc(genshapes.program({name: body}, derives="::null_derives", run=False), "null_" + name, self.null_derives())
        return ok

    def build(self, name, text):
        d = os.path.join(self.target, "gen", name); os.makedirs(os.path.join(d, "src"), exist_ok=True)
        open(os.path.join(d, "src", "main.rs"), "w", encoding="utf-8").write(text)
        ok, msgs = self.cargo_build(d, name)
        for m in msgs:
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "parsel" and "lib" in m["target"]["kind"]:
                self.rlib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
        if self.rlib is None: raise Inconclusive("parsel itself does not compile")
        return ok, msgs

    def positives(self, crate="shapes", shapes=None, derived=True):
        """[(what, replay)] of violations, and counters."""
        shapes = shapes or genshapes.shapes(self.seed, self.n)
        ok, msgs = self.build(crate, genshapes.program(shapes))
        if not ok: return self.blame(shapes, derived), {"shapes": len(shapes), "shape checks": 0}
        exe = os.path.join(self.target, "debug", crate)
        try: p = subprocess.run([exe], capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired: raise Inconclusive("the shapes did not end")
        lines = p.stdout.splitlines(); bad = []
        ran = [l.split()[1] for l in lines if l.startswith(("OK ", "FAIL "))]
        for l in lines:
            if l.startswith("FAIL "):
                _, name, what = l.split(" ", 2); bad.append(("shape %s: %s" % (name, what), {"shape": name, "source": shapes[name], "message": what}))
        if p.returncode != 0 or len(ran) != len(shapes):
            at = [n for n in shapes if n not in ran][:1]
            if p.returncode in (-6, -11) and at: bad.append(("shape %s: the process died with signal %d" % (at[0], -p.returncode), {"shape": at[0], "source": shapes[at[0]], "message": "signal"}))
            elif not bad: raise Inconclusive("the shapes ended with %d: %s" % (p.returncode, p.stderr[-500:]))
        checks = sum(int(l.split()[1]) for l in lines if l.startswith("CHECKS "))
        return bad, {"shapes": len(ran), "shape checks": checks}

    def blame(self, shapes, derived):
        """The program does not compile: which shapes do not, although their declarations are in order?"""
        ok, msgs = self.rustc(genshapes.program({}), "support_only")
        if not ok: raise Inconclusive("the support code does not compile: " + msgs[0]["message"])
        def one(item):
            name, body = item
            ok, msgs = self.rustc(genshapes.program({name: body}), "only_" + name)
            return name, body, ok, msgs
        bad = []
        if derived: self.null_derives()
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, shapes.items()))
        for name, body, ok, msgs in res:
            if ok: continue
            if derived and not self.in_order(name, body): raise Inconclusive("shape %s does not compile even with empty derives" % name)
            bad.append(("shape %s does not compile: %s" % (name, msgs[0]["message"] if msgs else "?"), {"shape": name, "source": body, "message": "".join(m["rendered"] for m in msgs)[:4000]}))
            if len(bad) == 5: break
        if not bad: raise Inconclusive("the shapes do not compile together, but each compiles by itself")
        return bad

    def negatives(self):
        lines = [l for l in open(os.path.join(genshapes.DIR, "bad.txt"), encoding="utf-8").read().splitlines() if l and not l.startswith("#")]
        derives, decls = lines[0].split("|"), lines[1:]
        head = "#[allow(unused)] use ::parsel::{Parse, ToTokens}; #[allow(unused)] use ::parsel::ast::*; #[allow(unused)] use ::parsel::syn::{token, Token};\n#[allow(dead_code)] pub struct NotANode;\n#[allow(dead_code)]\n"
        def one(t):
            i, decl = t; out = []
            ok, msgs = self.rustc(head + STRIP(decl) + "\nfn main() {}\n", "plain%d" % i)
            if not ok: raise Inconclusive("%s does not compile by itself: %s" % (decl, msgs[0]["message"]))
            for d in derives:
                ok, msgs = self.rustc(head + "#[derive(%s)] " % d + decl + "\nfn main() {}\n", "bad%d%s" % (i, d))
                text = "\n".join(m["message"] + (m.get("rendered") or "") for m in msgs)
                why = None
                if ok: why = "is accepted by #[derive(%s)]" % d
                elif "panicked" in text: why = "makes #[derive(%s)] panic instead of being rejected with a diagnostic" % d
                elif not msgs: why = "is rejected by #[derive(%s)] without a diagnostic" % d
                if why: out.append(("%s %s" % (decl, why), {"declaration": decl, "derive": d, "message": why}))
            return out
        with ThreadPoolExecutor(8) as ex: res = [b for r in ex.map(one, enumerate(decls)) for b in r]
        return res, {"rejected declarations": len(decls) * len(derives)}, decls

    def clean(self): shutil.rmtree(self.scratch, ignore_errors=True)
