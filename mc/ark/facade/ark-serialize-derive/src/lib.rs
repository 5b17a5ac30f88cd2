//! Stand-in for the derives of ark-serialize: every field in turn.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Index, Member};
fn fields(i: &DeriveInput) -> Vec<(Member, syn::Type)> {
    let fs = match &i.data {
        Data::Struct(s) => &s.fields,
        _ => panic!("only structs are supported"),
    };
    match fs {
        Fields::Unit => vec![],
        _ => fs
            .iter()
            .enumerate()
            .map(|(n, f)| (f.ident.clone().map(Member::Named).unwrap_or(Member::Unnamed(Index::from(n))), f.ty.clone()))
            .collect(),
    }
}
#[proc_macro_derive(CanonicalSerialize)]
pub fn ser(t: TokenStream) -> TokenStream {
    let i = parse_macro_input!(t as DeriveInput);
    let n = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    let f: Vec<_> = fields(&i).into_iter().map(|x| x.0).collect();
    quote! {
        impl #ig ::ark_serialize::CanonicalSerialize for #n #tg #wc {
            fn serialize<W: ::ark_serialize::Write>(&self, mut writer: W) -> Result<(), ::ark_serialize::SerializationError> {
                #( ::ark_serialize::CanonicalSerialize::serialize(&self.#f, &mut writer)?; )*
                Ok(())
            }
            fn serialized_size(&self) -> usize { 0 #( + ::ark_serialize::CanonicalSerialize::serialized_size(&self.#f) )* }
            fn serialize_uncompressed<W: ::ark_serialize::Write>(&self, mut writer: W) -> Result<(), ::ark_serialize::SerializationError> {
                #( ::ark_serialize::CanonicalSerialize::serialize_uncompressed(&self.#f, &mut writer)?; )*
                Ok(())
            }
            fn uncompressed_size(&self) -> usize { 0 #( + ::ark_serialize::CanonicalSerialize::uncompressed_size(&self.#f) )* }
        }
    }
    .into()
}
#[proc_macro_derive(CanonicalDeserialize)]
pub fn de(t: TokenStream) -> TokenStream {
    let i = parse_macro_input!(t as DeriveInput);
    let n = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    let (f, ty): (Vec<_>, Vec<_>) = fields(&i).into_iter().unzip();
    quote! {
        impl #ig ::ark_serialize::CanonicalDeserialize for #n #tg #wc {
            fn deserialize<R: ::ark_serialize::Read>(mut reader: R) -> Result<Self, ::ark_serialize::SerializationError> {
                Ok(#n { #( #f: <#ty as ::ark_serialize::CanonicalDeserialize>::deserialize(&mut reader)?, )* })
            }
            fn deserialize_uncompressed<R: ::ark_serialize::Read>(mut reader: R) -> Result<Self, ::ark_serialize::SerializationError> {
                Ok(#n { #( #f: <#ty as ::ark_serialize::CanonicalDeserialize>::deserialize_uncompressed(&mut reader)?, )* })
            }
            fn deserialize_unchecked<R: ::ark_serialize::Read>(mut reader: R) -> Result<Self, ::ark_serialize::SerializationError> {
                Ok(#n { #( #f: <#ty as ::ark_serialize::CanonicalDeserialize>::deserialize_unchecked(&mut reader)?, )* })
            }
        }
    }
    .into()
}
