use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Index};
fn fields(d: &Data) -> (Vec<proc_macro2::TokenStream>, bool) {
    match d { Data::Struct(s) => match &s.fields {
        Fields::Named(f) => (f.named.iter().map(|x| { let i = x.ident.as_ref().unwrap(); quote!(#i) }).collect(), true),
        Fields::Unnamed(f) => ((0..f.unnamed.len()).map(|i| { let i = Index::from(i); quote!(#i) }).collect(), false),
        Fields::Unit => (vec![], true) }, _ => panic!("structs only") }
}
#[proc_macro_derive(CanonicalSerialize)]
pub fn ser(t: TokenStream) -> TokenStream {
    let d = parse_macro_input!(t as DeriveInput); let n = &d.ident; let (ig, tg, wc) = d.generics.split_for_impl(); let (f, _) = fields(&d.data);
    quote!(impl #ig ark_serialize::CanonicalSerialize for #n #tg #wc {
        fn serialize_with_mode<W: ark_serialize::Write>(&self, mut w: W, c: ark_serialize::Compress) -> ::core::result::Result<(), ark_serialize::SerializationError> { #(ark_serialize::CanonicalSerialize::serialize_with_mode(&self.#f, &mut w, c)?;)* Ok(()) }
        fn serialized_size(&self, c: ark_serialize::Compress) -> usize { 0 #(+ ark_serialize::CanonicalSerialize::serialized_size(&self.#f, c))* }
    }).into()
}
#[proc_macro_derive(CanonicalDeserialize)]
pub fn de(t: TokenStream) -> TokenStream {
    let d = parse_macro_input!(t as DeriveInput); let n = &d.ident; let (ig, tg, wc) = d.generics.split_for_impl(); let (f, _) = fields(&d.data);
    quote!(impl #ig ark_serialize::CanonicalDeserialize for #n #tg #wc {
        fn deserialize_with_mode<R: ark_serialize::Read>(mut r: R, c: ark_serialize::Compress, v: ark_serialize::Validate) -> ::core::result::Result<Self, ark_serialize::SerializationError> { Ok(Self { #(#f: ark_serialize::CanonicalDeserialize::deserialize_with_mode(&mut r, c, v)?,)* }) }
    }).into()
}
