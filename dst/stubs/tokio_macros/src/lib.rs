use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, ItemFn};

/// `#[tokio::main]`
#[proc_macro_attribute]
pub fn main(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    f.sig.asyncness = None;
    let body = &f.block;
    let new = quote! {{
        let body = async move #body;
        tokio::runtime::Runtime::new().unwrap().block_on(body)
    }};
    f.block = syn::parse2(new).unwrap();
    quote!(#f).into()
}
