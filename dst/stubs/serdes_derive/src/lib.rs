use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Index};

#[proc_macro_derive(ExpSerde)]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let Data::Struct(s) = &input.data else { panic!("ExpSerde is derived for structs only") };
    let (ser, de) = match &s.fields {
        Fields::Named(f) => {
            let n: Vec<_> = f.named.iter().map(|x| x.ident.clone().unwrap()).collect();
            (
                quote! { #( serdes::ExpSerde::serialize_into(&self.#n, &mut writer)?; )* },
                quote! { Ok(Self { #( #n: serdes::ExpSerde::deserialize_from(&mut reader)?, )* }) },
            )
        }
        Fields::Unnamed(f) => {
            let n: Vec<Index> = (0..f.unnamed.len()).map(Index::from).collect();
            let m = n.iter().map(|_| quote! { serdes::ExpSerde::deserialize_from(&mut reader)? });
            (
                quote! { #( serdes::ExpSerde::serialize_into(&self.#n, &mut writer)?; )* },
                quote! { Ok(Self( #( #m, )* )) },
            )
        }
        Fields::Unit => (quote! {}, quote! { Ok(Self) }),
    };
    quote! {
        impl #ig serdes::ExpSerde for #name #tg #wc {
            #[allow(unused_mut, unused_variables)]
            fn serialize_into<W_: std::io::Write>(&self, mut writer: W_) -> serdes::SerdeResult<()> {
                #ser
                Ok(())
            }
            #[allow(unused_mut, unused_variables)]
            fn deserialize_from<R_: std::io::Read>(mut reader: R_) -> serdes::SerdeResult<Self> {
                #de
            }
        }
    }
    .into()
}
