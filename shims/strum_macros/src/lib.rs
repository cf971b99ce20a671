//! Stand-in for the strum derives used by witnet (field-less enums; `serialize_all = "snake_case"`).
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, LitStr};

fn parts(input: &DeriveInput) -> (Vec<syn::Ident>, Vec<String>) {
    let mut style = None;
    for a in &input.attrs {
        if a.path().is_ident("strum") {
            a.parse_nested_meta(|m| {
                let s: LitStr = m.value()?.parse()?;
                if m.path.is_ident("serialize_all") {
                    style = Some(s.value());
                }
                Ok(())
            })
            .unwrap();
        }
    }
    let v: Vec<_> = match &input.data {
        Data::Enum(e) => e.variants.iter().map(|v| v.ident.clone()).collect(),
        _ => panic!("enums only"),
    };
    let s = v
        .iter()
        .map(|i| {
            let i = i.to_string();
            match style.as_deref() {
                None => i,
                Some("snake_case") => {
                    let mut o = String::new();
                    for (k, c) in i.chars().enumerate() {
                        if c.is_uppercase() && k > 0 {
                            o.push('_')
                        }
                        o.extend(c.to_lowercase())
                    }
                    o
                }
                Some(x) => panic!("style {x}"),
            }
        })
        .collect();
    (v, s)
}
#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let n = &input.ident;
    let (v, _) = parts(&input);
    quote! {
        impl ::strum::IntoEnumIterator for #n {
            type Iterator = ::std::vec::IntoIter<#n>;
            fn iter() -> Self::Iterator { vec![#( #n::#v ),*].into_iter() }
        }
    }
    .into()
}
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let n = &input.ident;
    let (v, s) = parts(&input);
    quote! {
        impl ::std::str::FromStr for #n {
            type Err = ::strum::ParseError;
            fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> {
                match s { #( #s => Ok(#n::#v), )* _ => Err(::strum::ParseError::VariantNotFound) }
            }
        }
        impl ::std::convert::TryFrom<&str> for #n {
            type Error = ::strum::ParseError;
            fn try_from(s: &str) -> ::std::result::Result<Self, Self::Error> { s.parse() }
        }
    }
    .into()
}
#[proc_macro_derive(Display, attributes(strum))]
pub fn display(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let n = &input.ident;
    let (v, s) = parts(&input);
    quote! {
        impl ::std::fmt::Display for #n {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                f.pad(match self { #( #n::#v => #s, )* })
            }
        }
    }
    .into()
}
#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static_str(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let n = &input.ident;
    let (v, s) = parts(&input);
    quote! {
        impl From<#n> for &'static str { fn from(e: #n) -> &'static str { match e { #( #n::#v => #s, )* } } }
        impl<'a> From<&'a #n> for &'static str { fn from(e: &'a #n) -> &'static str { match e { #( #n::#v => #s, )* } } }
    }
    .into()
}
