//! Plain token trees: what the lexer (proc_macro2, trusted) says the tokens of a text are.
use parsel::proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum D { Paren, Bracket, Brace, None }

impl D {
    pub const REAL: [D; 3] = [D::Paren, D::Bracket, D::Brace];
    pub fn of(d: Delimiter) -> D {
        match d {
            Delimiter::Parenthesis => D::Paren,
            Delimiter::Bracket => D::Bracket,
            Delimiter::Brace => D::Brace,
            Delimiter::None => D::None,
        }
    }
    pub fn pm(self) -> Delimiter {
        match self {
            D::Paren => Delimiter::Parenthesis,
            D::Bracket => Delimiter::Bracket,
            D::Brace => Delimiter::Brace,
            D::None => Delimiter::None,
        }
    }
    pub fn open(self) -> &'static str { match self { D::Paren => "(", D::Bracket => "[", D::Brace => "{", D::None => "" } }
    pub fn close(self) -> &'static str { match self { D::Paren => ")", D::Bracket => "]", D::Brace => "}", D::None => "" } }
}

/// One token tree, with the byte range of the source text it came from, when known.
#[derive(Clone, Debug)]
pub struct Tk { pub t: T, pub src: (usize, usize) }

#[derive(Clone, Debug)]
pub enum T {
    Ident(String),
    Punct(char, bool),
    Lit(String),
    Group(D, Vec<Tk>),
}

pub fn lex(ts: TokenStream) -> Vec<Tk> {
    ts.into_iter()
        .map(|tt| Tk {
            src: (0, 0),
            t: match tt {
                TokenTree::Ident(i) => T::Ident(i.to_string()),
                TokenTree::Punct(p) => T::Punct(p.as_char(), p.spacing() == Spacing::Joint),
                TokenTree::Literal(l) => T::Lit(l.to_string()),
                TokenTree::Group(g) => T::Group(D::of(g.delimiter()), lex(g.stream())),
            },
        })
        .collect()
}

pub fn lex_str(s: &str) -> Option<Vec<Tk>> {
    s.parse::<TokenStream>().ok().map(lex)
}

/// Gives every token its source range, from the ranges of the atomic pieces of the text.
pub fn assign(tks: &mut [Tk], pieces: &[(usize, usize)]) -> bool {
    fn go(tks: &mut [Tk], p: &[(usize, usize)], i: &mut usize) -> bool {
        for tk in tks {
            let Some(first) = p.get(*i) else { return false };
            *i += 1;
            if let T::Group(_, inner) = &mut tk.t {
                if !go(inner, p, i) { return false }
                let Some(last) = p.get(*i) else { return false };
                *i += 1;
                tk.src = (first.0, last.1);
            } else {
                tk.src = *first;
            }
        }
        true
    }
    let mut i = 0;
    go(tks, pieces, &mut i) && i == pieces.len()
}

/// Canonical text of a token list: exact spelling and spacing. `values` normalises literals.
pub fn show(tks: &[Tk], spacing: bool, values: bool) -> String {
    fn go(tks: &[Tk], sp: bool, va: bool, out: &mut String) {
        for tk in tks {
            match &tk.t {
                T::Ident(s) => { out.push('i'); out.push_str(s) }
                T::Punct(c, j) => { out.push('p'); out.push(*c); if sp && *j { out.push('~') } }
                T::Lit(s) => {
                    out.push('l');
                    if va { out.push_str(&crate::lits::norm(s)) } else { out.push_str(s) }
                }
                T::Group(d, inner) => {
                    out.push_str(match d { D::Paren => "g(", D::Bracket => "g[", D::Brace => "g{", D::None => "g<" });
                    out.push(' ');
                    go(inner, sp, va, out);
                    out.push('g');
                    out.push_str(match d { D::Paren => ")", D::Bracket => "]", D::Brace => "}", D::None => ">" });
                }
            }
            out.push(' ');
        }
    }
    let mut s = String::new();
    go(tks, spacing, values, &mut s);
    s
}

pub fn count(tks: &[Tk]) -> usize {
    tks.iter().map(|t| match &t.t { T::Group(_, i) => 1 + count(i), _ => 1 }).sum()
}
