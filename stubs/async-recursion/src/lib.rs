//! `#[async_recursion(?Send)]` for functions with owned or 'static arguments.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, parse_quote, ItemFn, ReturnType};

#[proc_macro_attribute]
pub fn async_recursion(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    let out = match &f.sig.output {
        ReturnType::Default => quote!(()),
        ReturnType::Type(_, t) => quote!(#t),
    };
    f.sig.asyncness = None;
    f.sig.output = parse_quote!(-> ::core::pin::Pin<::std::boxed::Box<dyn ::core::future::Future<Output = #out>>>);
    let body = f.block.clone();
    f.block = parse_quote!({ ::std::boxed::Box::pin(async move #body) });
    quote!(#f).into()
}
