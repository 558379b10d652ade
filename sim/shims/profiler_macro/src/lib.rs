//! Stands in for github.com/ChengYueJia/profiler-rs (a git dependency that is not available
//! offline): its attribute only prints timings, so passing the item through keeps behaviour.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn time_profiler(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
