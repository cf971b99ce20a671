//! Stand-in for the `ProtobufConvert` derive of protobuf-convert 0.4.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Fields, LitStr};

fn source(attrs: &[Attribute]) -> Option<syn::Path> {
    let mut out = None;
    for a in attrs {
        if a.path().is_ident("protobuf_convert") {
            a.parse_nested_meta(|m| {
                if m.path.is_ident("source") {
                    let s: LitStr = m.value()?.parse()?;
                    out = Some(s.parse::<syn::Path>()?);
                }
                Ok(())
            })
            .unwrap();
        }
    }
    out
}
fn skip(attrs: &[Attribute]) -> bool {
    let mut out = false;
    for a in attrs {
        if a.path().is_ident("protobuf_convert") {
            a.parse_nested_meta(|m| {
                if m.path.is_ident("skip") {
                    out = true;
                }
                Ok(())
            })
            .unwrap();
        }
    }
    out
}

#[proc_macro_derive(ProtobufConvert, attributes(protobuf_convert))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let src = source(&input.attrs).expect("source");
    match &input.data {
        Data::Struct(s) => {
            let fields: Vec<_> = match &s.fields {
                Fields::Named(f) => f.named.iter().collect(),
                Fields::Unit => vec![],
                Fields::Unnamed(_) => panic!("tuple structs are not supported"),
            };
            let (skipped, used): (Vec<_>, Vec<_>) = fields.into_iter().partition(|f| skip(&f.attrs));
            let used: Vec<_> = used.iter().map(|f| f.ident.clone().unwrap()).collect();
            let skipped: Vec<_> = skipped.iter().map(|f| f.ident.clone().unwrap()).collect();
            let set: Vec<_> = used.iter().map(|f| format_ident!("set_{}", f)).collect();
            let get: Vec<_> = used.iter().map(|f| format_ident!("get_{}", f)).collect();
            quote! {
                impl ProtobufConvert for #name {
                    type ProtoStruct = #src;
                    #[allow(unused_mut)]
                    fn to_pb(&self) -> Self::ProtoStruct {
                        let mut msg = Self::ProtoStruct::new();
                        #( msg.#set(ProtobufConvert::to_pb(&self.#used).into()); )*
                        msg
                    }
                    #[allow(unused_variables)]
                    fn from_pb(pb: Self::ProtoStruct) -> std::result::Result<Self, ::anyhow::Error> {
                        Ok(Self {
                            #( #used: ProtobufConvert::from_pb(pb.#get().to_owned())?, )*
                            #( #skipped: Default::default(), )*
                        })
                    }
                }
            }
        }
        Data::Enum(e) => {
            let oneof = {
                let mut p = src.clone();
                let last = p.segments.last_mut().unwrap();
                last.ident = format_ident!("{}_oneof_kind", last.ident);
                p
            };
            let vars: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            let set: Vec<_> = vars.iter().map(|f| format_ident!("set_{}", f)).collect();
            quote! {
                impl ProtobufConvert for #name {
                    type ProtoStruct = #src;
                    fn to_pb(&self) -> Self::ProtoStruct {
                        let mut msg = Self::ProtoStruct::new();
                        match self {
                            #( #name::#vars(v) => msg.#set(ProtobufConvert::to_pb(v).into()), )*
                        }
                        msg
                    }
                    fn from_pb(pb: Self::ProtoStruct) -> std::result::Result<Self, ::anyhow::Error> {
                        match pb.kind {
                            #( Some(#oneof::#vars(v)) => Ok(#name::#vars(ProtobufConvert::from_pb(v)?)), )*
                            None => Err(::anyhow::anyhow!("Failed to decode #name from protobuf")),
                        }
                    }
                }
            }
        }
        _ => panic!("unions"),
    }
    .into()
}
