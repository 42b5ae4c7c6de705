//! Runs parsel inside the compiler.
extern crate proc_macro;
use pmon::inside;
use proc_macro::{Literal, TokenStream, TokenTree};

/// `observe!(7 tokens ...)` is what is seen of parsing the tokens into the type with that number.
#[proc_macro]
pub fn observe(ts: TokenStream) -> TokenStream {
    let mut i = ts.into_iter();
    let k: usize = i.next().expect("no number").to_string().parse().expect("no number");
    text(&inside::observe(k, i.collect::<TokenStream>().into()))
}

/// `literals!(SEED N)` is what is seen of printing and parsing that many literals.
#[proc_macro]
pub fn literals(ts: TokenStream) -> TokenStream {
    let v: Vec<u64> = ts.into_iter().map(|t| t.to_string().parse().expect("no number")).collect();
    text(&inside::literals(v[0], v[1]))
}

fn text(s: &str) -> TokenStream { TokenTree::Literal(Literal::string(s)).into() }
