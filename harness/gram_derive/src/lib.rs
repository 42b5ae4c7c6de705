//! `#[derive(Gram)]`: describes the *declared* shape of a type to the monitors (what grammar the
//! declaration denotes), independently of what the derive macros under test generate from it.
use proc_macro2::TokenStream;
use quote::{quote, format_ident};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(Gram, attributes(parsel))]
pub fn gram(ts: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let item = parse_macro_input!(ts as DeriveInput);
    expand(item).unwrap_or_else(|e| e.into_compile_error()).into()
}

fn fname(i: usize, f: &syn::Field) -> String {
    f.ident.as_ref().map_or_else(|| i.to_string(), |x| x.to_string())
}

fn def_fields(fields: &Fields) -> TokenStream {
    let it = fields.iter().enumerate().map(|(i, f)| {
        let n = fname(i, f);
        let t = &f.ty;
        quote!((#n, ::pmon::gram::g::<#t>()))
    });
    quote!(vec![#(#it),*])
}

fn step_fields(fields: &Fields) -> TokenStream {
    let it = fields.iter().enumerate().map(|(i, f)| {
        let n = fname(i, f);
        let t = &f.ty;
        quote!((#n, ::pmon::gram::step::<#t> as ::pmon::gram::StepFn))
    });
    quote!(vec![#(#it),*])
}

fn binds(fields: &Fields) -> (TokenStream, Vec<syn::Ident>) {
    let vars: Vec<_> = (0..fields.len()).map(|i| format_ident!("gram_f{}", i)).collect();
    let pat = match fields {
        Fields::Unit => quote!(),
        Fields::Named(n) => {
            let names = n.named.iter().map(|f| f.ident.as_ref().unwrap());
            quote!({ #(#names: #vars),* })
        }
        Fields::Unnamed(_) => quote!(( #(#vars),* )),
    };
    (pat, vars)
}

fn build(path: TokenStream, fields: &Fields) -> TokenStream {
    match fields {
        Fields::Unit => quote!(#path),
        Fields::Named(n) => {
            let it = n.named.iter().enumerate().map(|(i, f)| {
                let id = f.ident.as_ref().unwrap();
                quote!(#id: ::pmon::gram::Gram::build(&gram_fs[#i]))
            });
            quote!(#path { #(#it),* })
        }
        Fields::Unnamed(n) => {
            let it = (0..n.unnamed.len()).map(|i| quote!(::pmon::gram::Gram::build(&gram_fs[#i])));
            quote!(#path( #(#it),* ))
        }
    }
}

fn expand(item: DeriveInput) -> syn::Result<TokenStream> {
    let name = &item.ident;
    let name_s = name.to_string();
    let mut generics = item.generics.clone();
    for p in generics.type_params_mut() {
        p.bounds.push(syn::parse_quote!(::pmon::gram::Gram));
    }
    let (ig, tg, wc) = generics.split_for_impl();
    let (def, steps, dump, bld) = match &item.data {
        Data::Struct(d) => {
            let df = def_fields(&d.fields);
            let sf = step_fields(&d.fields);
            let (pat, vars) = binds(&d.fields);
            let b = build(quote!(Self), &d.fields);
            (
                quote!(::pmon::model::G::Struct(#name_s, #df)),
                quote!(::pmon::gram::Steps::Struct(#name_s, #sf)),
                quote!({ let Self #pat = self; ::pmon::model::K::Seq(vec![#(::pmon::gram::Gram::dump(#vars, cx)),*]) }),
                quote!({ let gram_fs = v.fields(); let _ = gram_fs; #b }),
            )
        }
        Data::Enum(d) => {
            let dv = d.variants.iter().map(|v| {
                let n = v.ident.to_string();
                let f = def_fields(&v.fields);
                quote!((#n, #f))
            });
            let sv = d.variants.iter().map(|v| {
                let n = v.ident.to_string();
                let f = step_fields(&v.fields);
                quote!((#n, #f))
            });
            let arms = d.variants.iter().enumerate().map(|(i, v)| {
                let id = &v.ident;
                let (pat, vars) = binds(&v.fields);
                quote!(Self::#id #pat => ::pmon::model::K::Var(#i, vec![#(::pmon::gram::Gram::dump(#vars, cx)),*]))
            });
            let barms = d.variants.iter().enumerate().map(|(i, v)| {
                let id = &v.ident;
                let b = build(quote!(Self::#id), &v.fields);
                quote!(#i => #b)
            });
            let dump = if d.variants.is_empty() { quote!(match *self {}) } else { quote!(match self { #(#arms),* }) };
            (
                quote!(::pmon::model::G::Enum(#name_s, vec![#(#dv),*])),
                quote!(::pmon::gram::Steps::Enum(#name_s, vec![#(#sv),*])),
                dump,
                quote!({ let (gram_i, gram_fs) = v.variant(); let _ = gram_fs; match gram_i { #(#barms,)* _ => panic!("harness: no such variant") } }),
            )
        }
        Data::Union(_) => return Err(syn::Error::new_spanned(&item, "no unions")),
    };
    Ok(quote! {
        #[allow(warnings)]
        impl #ig ::pmon::gram::Gram for #name #tg #wc {
            fn def() -> ::pmon::model::G { #def }
            fn steps() -> ::core::option::Option<::pmon::gram::Steps> { ::core::option::Option::Some(#steps) }
            fn dump_kind(&self, cx: &mut ::pmon::gram::Cx<'_>) -> ::pmon::model::K { #dump }
            fn build(v: &::pmon::model::V) -> Self { #bld }
        }
    })
}
