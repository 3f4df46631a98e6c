//! Stand-in for Expander's `serdes_derive`: structs field by field, enums by variant index (u8).
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(ExpSerde)]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let (ser, de) = match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => {
                let n: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                let t: Vec<_> = f.named.iter().map(|f| f.ty.clone()).collect();
                (
                    quote! { #(serdes::ExpSerde::serialize_into(&self.#n, &mut writer)?;)* Ok(()) },
                    quote! { Ok(Self { #(#n: <#t as serdes::ExpSerde>::deserialize_from(&mut reader)?,)* }) },
                )
            }
            Fields::Unnamed(f) => {
                let i: Vec<_> = (0..f.unnamed.len()).map(syn::Index::from).collect();
                let t: Vec<_> = f.unnamed.iter().map(|f| f.ty.clone()).collect();
                (
                    quote! { #(serdes::ExpSerde::serialize_into(&self.#i, &mut writer)?;)* Ok(()) },
                    quote! { Ok(Self ( #(<#t as serdes::ExpSerde>::deserialize_from(&mut reader)?,)* )) },
                )
            }
            Fields::Unit => (quote! { let _ = &mut writer; Ok(()) }, quote! { let _ = &mut reader; Ok(Self) }),
        },
        Data::Enum(e) => {
            let mut sa = vec![];
            let mut da = vec![];
            for (k, v) in e.variants.iter().enumerate() {
                let k = k as u8;
                let vn = &v.ident;
                match &v.fields {
                    Fields::Named(f) => {
                        let n: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                        let t: Vec<_> = f.named.iter().map(|f| f.ty.clone()).collect();
                        sa.push(quote! { Self::#vn { #(#n,)* } => { serdes::ExpSerde::serialize_into(&#k, &mut writer)?; #(serdes::ExpSerde::serialize_into(#n, &mut writer)?;)* } });
                        da.push(quote! { #k => Ok(Self::#vn { #(#n: <#t as serdes::ExpSerde>::deserialize_from(&mut reader)?,)* }), });
                    }
                    Fields::Unnamed(f) => {
                        let n: Vec<_> = (0..f.unnamed.len()).map(|i| format_ident!("f{}", i)).collect();
                        let t: Vec<_> = f.unnamed.iter().map(|f| f.ty.clone()).collect();
                        sa.push(quote! { Self::#vn ( #(#n,)* ) => { serdes::ExpSerde::serialize_into(&#k, &mut writer)?; #(serdes::ExpSerde::serialize_into(#n, &mut writer)?;)* } });
                        da.push(quote! { #k => Ok(Self::#vn ( #(<#t as serdes::ExpSerde>::deserialize_from(&mut reader)?,)* )), });
                    }
                    Fields::Unit => {
                        sa.push(quote! { Self::#vn => { serdes::ExpSerde::serialize_into(&#k, &mut writer)?; } });
                        da.push(quote! { #k => Ok(Self::#vn), });
                    }
                }
            }
            (
                quote! { match self { #(#sa)* } Ok(()) },
                quote! { let tag = <u8 as serdes::ExpSerde>::deserialize_from(&mut reader)?; match tag { #(#da)* _ => Err(serdes::SerdeError::DeserializeError) } },
            )
        }
        _ => panic!("union"),
    };
    quote! {
        impl #ig serdes::ExpSerde for #name #tg #wc {
            fn serialize_into<W: std::io::Write>(&self, mut writer: W) -> serdes::SerdeResult<()> { #ser }
            fn deserialize_from<R: std::io::Read>(mut reader: R) -> serdes::SerdeResult<Self> { #de }
        }
    }
    .into()
}
