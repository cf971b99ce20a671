//! Stand-in for derive_more: `Display` with `#[display(fmt = "…")]`.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, LitStr};

fn text(attrs: &[syn::Attribute]) -> Option<LitStr> {
    let mut out = None;
    for a in attrs {
        if a.path().is_ident("display") {
            let _ = a.parse_nested_meta(|m| {
                if m.path.is_ident("fmt") {
                    out = Some(m.value()?.parse()?);
                }
                Ok(())
            });
        }
    }
    out
}

#[proc_macro_derive(Display, attributes(display))]
pub fn display(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let n = &input.ident;
    let Data::Enum(e) = &input.data else { panic!("only enums") };
    let arms = e.variants.iter().map(|v| {
        let id = &v.ident;
        let t = text(&v.attrs).unwrap_or_else(|| LitStr::new(&id.to_string(), id.span()));
        match &v.fields {
            Fields::Unit => quote! { #n::#id => write!(f, #t) },
            Fields::Named(fs) => {
                let names: Vec<_> = fs.named.iter().map(|x| x.ident.clone().unwrap()).collect();
                quote! { #n::#id { #(#names),* } => { #(let _ = #names;)* write!(f, #t) } }
            }
            Fields::Unnamed(fs) => {
                let names: Vec<_> = (0..fs.unnamed.len()).map(|i| quote::format_ident!("_{}", i)).collect();
                quote! { #n::#id ( #(#names),* ) => { #(let _ = #names;)* write!(f, #t) } }
            }
        }
    });
    quote! {
        impl ::std::fmt::Display for #n {
            #[allow(unused)]
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                match self { #(#arms),* }
            }
        }
    }
    .into()
}
