#!/usr/bin/env python3
"""Random node types (and keyword lists) for the monitors: gentypes.py SEED OUT.rs [N]

Writes a Rust program whose main hands the types to the runner. Every declaration is one that the
documentation of the library supports: no left recursion, no repetition of something that may
consume nothing, recursion only inside delimiters and marked as such.
"""
import random, sys

TOKS = ['+', '-', ',', ';', ':', '::', '->', '=', '==', '=>', '<', '<=', '<<', '*', '..', '.', '|', '||', '&', '!', '!=', '@', '?', '#', '-=', '+=', '..=']
WORDS = ['if', 'let', 'fn', 'type', 'self', 'in', 'as']
LITS = ['LitUint', 'LitInt', 'LitStr', 'LitBool', 'LitChar', 'LitFloat', 'LitByte', 'LitByteStr', 'Lit']
FNAMES = ['a', 'b', 'c', 'x', 'y', 'value', 'input', 'tokens', 'error', 'result', 'cause', 'ast_node', 'err', 'r#type', 'r#fn', 'r#match', 'self_', '_x', '__', 'formatter', 'string', 'parsel', 'syn', 'f0', 'élan', 'CamelField', 'fork', 'parse', 'to_tokens', 'span', 'T', 'Ok', 'tokens_', 'body', 'name', 'index', 'parsel_field_0']
VNAMES = ['A', 'B', 'C', 'Ok', 'Err', 'Some', 'None', 'Option', 'Result', 'Parse', 'ToTokens', 'Error', 'Input', 'lower', 'r#type', 'r#struct', 'Café', 'X1', 'Self_', 'Box', 'TokenStream', '_U', 'Left', 'Right', 'Item', 'input', 'tokens', 'error', 'Vec', 'String', 'Default', 'Iterator', 'result']
TNAMES = ['Node', 'Result', 'Option', 'Parse', 'ToTokens', 'Error', 'Vec', 'Expr', 'String', 'TokenStream', 'Box', 'ok', 'r#struct', 'Ünïcode', 'Display', 'FromStr', 'Self_', 'T', 'Ok_', 'Either', 'Maybe', 'Paren', 'X', 'snake_case', 'Span', 'Err_', 'Data']

P = '::parsel::ast::'
NAMES = {'+': 'Plus', '-': 'Minus', ',': 'Comma', ';': 'Semi', ':': 'Colon', '::': 'PathSep', '->': 'RArrow', '=': 'Eq', '==': 'EqEq', '=>': 'FatArrow', '<': 'Lt', '<=': 'Le', '<<': 'Shl', '*': 'Star', '..': 'DotDot', '.': 'Dot', '|': 'Or', '||': 'OrOr', '&': 'And', '!': 'Not', '!=': 'Ne', '@': 'At', '?': 'Question', '#': 'Pound', '-=': 'MinusEq', '+=': 'PlusEq', '..=': 'DotDotEq', 'if': 'If', 'let': 'Let', 'fn': 'Fn', 'type': 'Type', 'self': 'SelfValue', 'in': 'In', 'as': 'As'}
DERIVES = '#[derive(::core::cmp::PartialEq, ::core::cmp::Eq, ::core::hash::Hash, ::core::fmt::Debug, ::core::clone::Clone, ::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display, ::gram_derive::Gram)]'


class Ty:
    def __init__(self, src, nullable, display=True, rec=False):
        self.src, self.nullable, self.display, self.rec = src, nullable, display, rec


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.decls = []      # (module, text)
        self.named = []      # Ty, usable as fields
        self.roots = []      # (expr, has display)
        self.generic = []    # (path, nparams, nullable if params are not nullable)
        self.n = 0
        self.plain = False
        self.alphabet()

    def alphabet(self):
        r = self.r
        self.toks = r.sample(TOKS, r.randint(2, 6))
        self.lits = r.sample(LITS, r.randint(1, 3))

    def tok(self, t):
        # in a generic type, the derives of the standard library refuse macros
        if self.plain or self.r.random() < 0.5:
            return Ty('::parsel::ast::token::' + NAMES[t], False, False)
        return Ty('::parsel::syn::Token![%s]' % t, False, False)

    def leaf(self):
        t = self.leaf2()
        # a part of which the errors say odd things
        if self.r.random() < 0.06:
            return Ty('::pmon::probe::Vex<%s>' % t.src, t.nullable, False)
        return t

    def leaf2(self):
        r = self.r
        k = r.random()
        if k < 0.45:
            return self.tok(r.choice(self.toks))
        if k < 0.70:
            return Ty(P + r.choice(self.lits), False)
        if k < 0.78:
            return Ty('::parsel::ast::Word', False)
        if k < 0.84:
            return Ty('::parsel::ast::Ident', False, False)
        if k < 0.90:
            return Ty('::pmon::zoo::Id', False)
        if k < 0.96:
            return Ty('::pmon::zoo::kw::' + r.choice(['Alpha', 'Foo', 'Foobar', 'Type', 'Und', 'Loop']), False)
        return self.tok(r.choice(WORDS))

    def solid(self, depth, rec=None):
        """a type that always consumes"""
        for _ in range(20):
            t = self.ty(depth, rec)
            if not t.nullable:
                return t
        return self.leaf()

    def ty(self, depth, rec=None):
        r = self.r
        if depth <= 0:
            if self.named and r.random() < 0.3:
                return r.choice(self.named)
            return self.leaf()
        k = r.randrange(17)
        d = depth - 1
        mk = lambda fmt, nullable, *ts: Ty(P + fmt % tuple(t.src for t in ts), nullable, True, any(t.rec for t in ts))
        if k in (0, 1, 2):
            return self.leaf()
        if k in (3, 4) and self.named:
            return r.choice(self.named)
        if k == 5:
            return mk('Any<%s>', True, self.solid(d))
        if k == 6:
            t, p = self.ty(d), self.solid(0)
            if not t.nullable and r.random() < 0.12:
                p = self.light()
            return mk('Separated<%s, %s>', t.nullable, t, p)
        if k == 7:
            o, t = self.solid(min(d, 1)), self.ty(d)
            if not t.nullable and r.random() < 0.12:
                o = self.light()
            return mk('%sAssoc<%%s, %%s>' % r.choice(['Left', 'Right']), t.nullable, o, t)
        if k == 8:
            if r.random() < 0.3:
                return mk('Maybe<%s>', True, self.solid(d))
            p, t = self.solid(min(d, 1)), self.ty(d)
            if not t.rec and r.random() < 0.12:
                p = self.light() if r.random() < 0.5 else self.ty(0)
            return mk('Maybe<%s, %s>', True, p, t)
        if k in (9, 10):
            a, b = self.ty(d), self.ty(d)
            t = mk('Either<%s, %s>', a.nullable or b.nullable, a, b)
            t.display = a.display and b.display
            return t
        if k in (11, 12, 13):
            g = r.choice(['Paren', 'Bracket', 'Brace'])
            j = r.randrange(6)
            if j == 0:
                i = self.ty(d)
                p = self.light() if not i.nullable and r.random() < 0.12 else self.solid(0)
                i = mk('Punctuated<%s, %s>', True, i, p)
            elif j == 1:
                i = mk('Many<%s>', True, self.solid(d))
            elif j == 2:
                i = Ty(P + r.choice(['Empty', 'Eof', 'Eof', 'NotEof', 'Either<%sNotEof, %sEof>' % (P, P), 'Either<%sEof, %s>' % (P, self.leaf().src)]), True)
            else:
                i = self.ty(d)
            t = mk(g + '<%s>', False, i)
            return t
        if k == 14:
            t = self.ty(d)
            return Ty('::std::boxed::Box<%s>' % t.src, t.nullable, False, t.rec)
        if k == 15 and self.generic:
            path, n, nullable = r.choice(self.generic)
            ts = [self.solid(min(d, 1)) for _ in range(n)]
            return Ty('%s<%s>' % (path, ', '.join(t.src for t in ts)), nullable, True)
        if k == 16 and r.random() < 0.4:
            return Ty(P + r.choice(['NotEof', 'Empty', 'Eof']), True)
        return self.leaf()

    def light(self):
        """what consumes nothing, or not always something, as a separator, operator or prefix"""
        r = self.r
        k = r.randrange(5)
        if k < 2:
            return Ty(P + 'NotEof', True)
        if k == 2:
            return Ty(P + 'Empty', True)
        if k == 3:
            return Ty(P + 'Maybe<%s>' % self.tok(r.choice(self.toks)).src, True)
        return Ty(P + r.choice(['Either<%s, %sNotEof>' % (self.tok(r.choice(self.toks)).src, P), 'Any<%s>' % self.tok(r.choice(self.toks)).src]), True, False)

    def fields(self, style, ts, rec_srcs=()):
        """the text of fields of these types"""
        r = self.r
        out = []
        names = r.sample(FNAMES, len(ts)) if len(ts) <= len(FNAMES) // 2 else ['f_%d' % i for i in range(len(ts))]
        for i, t in enumerate(ts):
            a = ''
            if r.random() < 0.1:
                a += r.choice(['/// A field.\n', '#[allow(dead_code)] ', '#[cfg(all())] ', '#[doc(hidden)] '])
            if t.rec:
                a += r.choice(['#[parsel(recursive)] ', '#[parsel(recursive = true)] '])
            elif r.random() < 0.04:
                a += r.choice(['#[parsel(recursive = false)] ', '#[parsel()] '])
            vis = '' if style in ('vn', 'vt') else r.choice(['', '', 'pub ', 'pub(crate) '])
            if style in ('n', 'vn'):
                out.append('%s%s%s: %s' % (a, vis, names[i], t.src))
            else:
                out.append('%s%s%s' % (a, vis, t.src))
        return ', '.join(out) + (r.choice(['', ',']) if out else '')

    def shape(self, ts, is_variant):
        r = self.r
        style = r.choice('nt')
        if not ts:
            style = r.choice('ntu')
        if style == 'u':
            return '' if is_variant else ';'
        f = self.fields(('v' if is_variant else '') + style, ts)
        if style == 'n':
            return ' { %s }' % f
        return '(%s)%s' % (f, '' if is_variant else ';')

    def recursive(self, path):
        """a field type that mentions the type being declared"""
        r = self.r
        g = r.choice(['Paren', 'Bracket', 'Brace'])
        b = '::std::boxed::Box<%s>' % path
        i = r.choice([
            '%s', P + 'Any<%s>' if False else '%s', P + 'Punctuated<%s, ::parsel::syn::Token![,]>', P + 'Separated<%s, ::parsel::syn::Token![;]>',
            P + 'Maybe<::parsel::syn::Token![?], %s>', P + 'Either<::parsel::syn::Token![_], %s>', P + 'LeftAssoc<::parsel::syn::Token![^], %s>', P + 'RightAssoc<::parsel::syn::Token![^], %s>'])
        return g, Ty(P + '%s<%s>' % (g, i % b), False, True, True)

    def module(self):
        self.n += 1
        return 'm%d' % self.n

    def struct(self, width=None):
        r = self.r
        m = self.module()
        name = r.choice(TNAMES)
        w = width if width is not None else r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7])
        ts = [self.ty(2 if width is None else 0) for _ in range(w)]
        if width is None and r.random() < 0.25:
            ts.insert(r.randint(0, len(ts)), Ty(P + r.choice(['NotEof', 'NotEof', 'Eof', 'Empty']), True))
        nullable = all(t.nullable for t in ts)
        text = '%s pub struct %s%s' % (DERIVES, name, self.shape(ts, False))
        self.add(m, name, text, nullable)

    def enum(self, width=None):
        r = self.r
        m = self.module()
        name = r.choice(TNAMES)
        path = 'crate::%s::%s' % (m, name)
        if width is None:
            w = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
            names = r.sample(VNAMES, w)
            if r.random() < 0.15 and name not in names:
                names[r.randrange(w)] = name
            # variants share beginnings
            stem = [self.solid(1) for _ in range(3)]
            vs = []
            for _ in range(w):
                ts = stem[:r.choice([0, 0, 1, 1, 2, 3])] + [self.ty(2) for _ in range(r.choice([0, 1, 1, 2, 3]))]
                r.random() < 0.2 and r.shuffle(ts)
                vs.append(ts)
        else:
            w = width
            names = ['V%d' % i for i in range(w)]
            letters = ['+', ',', '-', ';']
            seen, vs = set(), []
            while len(vs) < w:
                s = tuple(r.choice(letters) for _ in range(r.choice([1, 2, 3, 4, 4, 5])))
                if s in seen:
                    continue
                seen.add(s)
                vs.append([self.tok(c) for c in s])
        recs = {}
        if width is None and r.random() < 0.45:
            for _ in range(r.choice([1, 1, 2, 3])):
                g, t = self.recursive(path)
                recs[g] = t
            for g, t in recs.items():
                v = r.choice(vs)
                v.insert(r.randint(0, len(v)), t)
        # not every variant of a recursive type may be recursive
        if recs and all(any(t.rec for t in v) for v in vs):
            vs[r.randrange(len(vs))] = [self.leaf()]
        nullable = any(all(t.nullable for t in v) for v in vs)
        body = ', '.join(r.choice(['', '', '', '/// V.\n', '#[allow(dead_code)] ']) + n + self.shape(v, True) for n, v in zip(names, vs))
        text = '%s pub enum %s { %s }' % (DERIVES, name, body)
        self.add(m, name, text, nullable)

    def wide(self):
        """wide variants that begin alike"""
        r = self.r
        m = self.module()
        name = r.choice(TNAMES)
        stem = [self.solid(r.choice([0, 0, 0, 1])) for _ in range(r.randint(14, 26))]
        cuts = sorted({len(stem), len(stem) - 1, r.randint(2, len(stem) - 2), r.randint(2, len(stem) - 2)}, reverse=True)
        vs = []
        for c in cuts:
            ts = stem[:c]
            if r.random() < 0.5:
                ts = ts[:-1] + [self.leaf()]
            vs.append(ts)
        vs.append([self.leaf()])
        if r.random() < 0.3:
            vs.append(vs.pop(0))
        body = ', '.join(n + self.shape(v, True) for n, v in zip(r.sample(VNAMES, len(vs)), vs))
        self.add(m, name, '%s pub enum %s { %s }' % (DERIVES, name, body), False)

    def tower(self):
        """types in types, many levels deep"""
        r = self.r
        inner = [self.leaf(), self.leaf()]
        m = self.module()
        text, path, path0 = '', None, None
        for k in range(r.randint(12, 24)):
            name = 'L%d' % k
            ts = list(inner)
            if path:
                x = Ty(path, False)
                w = r.random()
                if w < 0.15:
                    x = Ty(P + 'Paren<%s>' % path, False)
                elif w < 0.25:
                    x = Ty('::std::boxed::Box<%s>' % path, False)
                elif w < 0.35:
                    x = Ty(P + 'Separated<%s, ::parsel::syn::Token![,]>' % path, False)
                ts = r.choice([[x], [self.leaf(), x], [x, self.leaf()]])
            if path and r.random() < 0.4:
                vs = [[self.leaf(), self.leaf()], ts]
                r.shuffle(vs)
                text += '%s pub enum %s { A%s, B%s }\n' % (DERIVES, name, self.shape(vs[0], True), self.shape(vs[1], True))
            else:
                text += '%s pub struct %s%s\n' % (DERIVES, name, self.shape(ts, False))
            path = 'crate::%s::%s' % (m, name)
        self.add(m, name, text, False)

    def mutual(self):
        """two types that mention each other"""
        r = self.r
        m = self.module()
        a, b = r.sample(TNAMES, 2)
        pa, pb = 'crate::%s::%s' % (m, a), 'crate::%s::%s' % (m, b)
        g1, g2 = r.sample(['Paren', 'Bracket', 'Brace'], 2)
        base = self.solid(1)
        one = [('Base', [base]), ('Rec', [Ty(P + '%s<%sPunctuated<::std::boxed::Box<%s>, ::parsel::syn::Token![,]>>' % (g1, P, pb), False, True, True)])]
        if r.random() < 0.5:
            one.reverse()
        ta = '%s pub enum %s { %s }' % (DERIVES, a, ', '.join(n + self.shape(v, True) for n, v in one))
        ts = [self.ty(1), Ty(P + 'Maybe<%s%s<::std::boxed::Box<%s>>>' % (P, g2, pa), True, True, True), self.leaf()]
        tb = '%s pub struct %s%s' % (DERIVES, b, self.shape(ts, False))
        self.decls.append((m, ta + '\n' + tb))
        for p in (pa, pb):
            self.named.append(Ty(p, False))
            self.roots.append((p, True))

    def generics(self):
        r = self.r
        self.plain = True
        m = self.module()
        name = r.choice(TNAMES)
        n = r.choice([1, 1, 2, 3])
        ps = r.sample(['T', 'U', 'V', 'Parse', 'F', 'E', 'Item', 'L'], n)
        if name in ps:
            name = 'Gen'
        ts = [Ty(p, False) for p in ps]
        more = []
        for _ in range(r.randint(0, 3)):
            t = r.choice(ts)
            more.append(r.choice([
                lambda: Ty(P + 'Maybe<::parsel::ast::token::Comma, %s>' % t.src, True),
                lambda: Ty(P + 'Any<%s>' % t.src, True),
                lambda: Ty(P + 'Paren<%s>' % t.src, False),
                lambda: Ty('::std::boxed::Box<%s>' % t.src, False),
                lambda: Ty(P + 'Separated<%s, ::parsel::ast::token::Semi>' % t.src, False),
                lambda: Ty(P + 'Either<%s, %s>' % (t.src, r.choice(ts).src), False),
                lambda: self.leaf(),
            ])())
        params = ', '.join(p + (r.choice(['', '', ': ::core::clone::Clone', ': ::core::fmt::Debug + \'static'])) for p in ps)
        where = ''
        if r.random() < 0.3:
            where = ' where %s: ::core::clone::Clone' % ps[0] + r.choice(['', ',', ', %s: ::core::marker::Sized' % ps[-1]])
        if r.random() < 0.5:
            fs = ts + more
            r.shuffle(fs)
            s = self.shape(fs, False)
            text = 'pub struct %s<%s>' % (name, params) + (s[:-1] + where + ';' if s.endswith(';') else where + s)
            nullable = False
        else:
            groups = [[t] for t in ts] + [more]
            r.shuffle(groups)
            nullable = any(all(t.nullable for t in g) for g in groups)
            names = r.sample(['A', 'B', 'C', 'Ok', 'Err', 'Some', 'Other', 'Last'], len(groups))
            text = 'pub enum %s<%s>%s { %s }' % (name, params, where, ', '.join(v + self.shape(g, True) for v, g in zip(names, groups)))
        self.plain = False
        self.decls.append((m, DERIVES + ' ' + text))
        path = 'crate::%s::%s' % (m, name)
        self.generic.append((path, n, nullable))
        for _ in range(2):
            args = [self.solid(1) for _ in ps]
            self.roots.append(('%s<%s>' % (path, ', '.join(t.src for t in args)), True))

    def add(self, m, name, text, nullable):
        self.decls.append((m, text))
        path = 'crate::%s::%s' % (m, name)
        self.named.append(Ty(path, nullable))
        self.roots.append((path, True))

    def keywords(self, k):
        r = self.r
        pool = ['select', 'from', 'where', 'SELECT', 'From', 'a', 'b', 'ab', 'abc', '_', '__', '_a', 'a_', 'if', 'else', 'self', 'Self', 'crate', 'super', 'true', 'false', 'fn', 'r#fn', 'r#type', 'type', 'struct', 'async', 'await', 'dyn', 'union', 'try', 'yield', 'macro_rules', 'é', 'été', 'ßx', 'long_keyword_name_number_1', 'r#a', 'r#union', 'x1', 'x2', 'x', 'X', 'u8', 'i64', 'str', 'mod', 'kw', 'Keywords_', 'abstract', 'r#abstract', 'raw']
        ws = sorted(r.sample(pool, r.choice([1, 2, 3, 5, 8, 13, 20])), key=lambda w: w == '_')   # the underscore is declared last
        pairs = [(w, 'K%d' % i) for i, w in enumerate(ws)]
        m = 'kwm%d' % k
        vis = r.choice(['pub ', 'pub(crate) ', ''])
        text = '::parsel::define_keywords! { %smod %s { %s } }\n' % (vis, m, ' '.join('%s => %s;' % p for p in pairs))
        return m, pairs, text


def main():
    seed, out = int(sys.argv[1]), sys.argv[2]
    count = int(sys.argv[3]) if len(sys.argv) > 3 else 40
    g = Gen(random.Random('types %d' % seed))
    while len(g.decls) < count:
        k = g.r.random()
        if g.r.random() < 0.25:
            g.alphabet()
        if k < 0.40:
            g.enum()
        elif k < 0.78:
            g.struct()
        elif k < 0.9:
            g.generics()
        else:
            g.mutual()
    g.struct(g.r.randint(28, 40))
    g.struct(g.r.randint(66, 90))
    g.enum(g.r.randint(120, 180))
    g.enum(g.r.randint(257, 300))
    for _ in range(3):
        g.wide()
    for _ in range(2):
        g.tower()
    # compositions of library types alone
    for _ in range(count // 4):
        t = g.ty(3)
        g.roots.append((t.src, t.display))
    kws = [g.keywords(i) for i in range(6)]
    s = ['#![allow(warnings)]']
    for m, text in g.decls:
        s.append('pub mod %s { %s }' % (m, text))
    for _, _, text in kws:
        s.append(text)
    s.append('fn main() {\n    let mut t: Vec<Box<dyn pmon::ops::TypeOps>> = vec![];')
    seen = set()
    for e, disp in g.roots:
        if e in seen:
            continue
        seen.add(e)
        s.append('    t.push(pmon::ops::%s::<%s>(%s));' % ('ty' if disp else 'tx', e, '"' + e.replace('::parsel::ast::', '').replace('::parsel::syn::', '').replace('::std::boxed::', '').replace('crate::', '').replace('::pmon::zoo::', '') + '"'))
    s.append('    let mut k = vec![];')
    for m, pairs, _ in kws:
        s.append('    k.push(pmon::keyword_ops!(%s: %s));' % (m, ', '.join('"%s" => %s' % p for p in pairs)))
    s.append('    pmon::cli::main(t, k)\n}')
    open(out, 'w').write('\n'.join(s) + '\n')


main()
