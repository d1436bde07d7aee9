use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn time_profiler(_a: TokenStream, item: TokenStream) -> TokenStream { item }
