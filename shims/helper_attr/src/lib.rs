//! A derive that generates nothing: it only makes the `protobuf_convert` attribute legal on a struct.
use proc_macro::TokenStream;
#[proc_macro_derive(PbDummy, attributes(protobuf_convert))]
pub fn pb(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
