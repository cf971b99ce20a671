//! Stand-in for num_enum: `IntoPrimitive` and `TryFromPrimitive` for field-less `#[repr(int)]` enums.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};

fn repr(input: &DeriveInput) -> syn::Ident {
    for a in &input.attrs {
        if a.path().is_ident("repr") {
            return a.parse_args().expect("repr(int)");
        }
    }
    panic!("needs #[repr(..)]")
}
fn variants(input: &DeriveInput) -> Vec<syn::Ident> {
    match &input.data {
        Data::Enum(e) => e.variants.iter().map(|v| v.ident.clone()).collect(),
        _ => panic!("enums only"),
    }
}
#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into_primitive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let (n, r) = (&input.ident, repr(&input));
    quote! { impl From<#n> for #r { #[inline] fn from(e: #n) -> #r { e as #r } } }.into()
}
#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from_primitive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let (n, r, v) = (&input.ident, repr(&input), variants(&input));
    let name = n.to_string();
    quote! {
        impl ::std::convert::TryFrom<#r> for #n {
            type Error = ::std::string::String;
            #[inline]
            fn try_from(x: #r) -> ::std::result::Result<Self, Self::Error> {
                #( if x == #n::#v as #r { return Ok(#n::#v); } )*
                Err(format!("No discriminant in enum `{}` matches the value `{}`", #name, x))
            }
        }
        impl #n {
            #[doc(hidden)]
            pub fn try_from_primitive(x: #r) -> ::std::result::Result<Self, ::std::string::String> {
                <Self as ::std::convert::TryFrom<#r>>::try_from(x)
            }
        }
    }
    .into()
}
