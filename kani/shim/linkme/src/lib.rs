//! Stand-in for linkme's link-time slices. The declaration
//! `static X: [T] = [..];` becomes a `vshim::DistSlice<T>`, whose contract is
//! "dereferences to the slice of all elements linked in"; which slice that is
//! is chosen by the harness. Element declarations stay plain statics.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn distributed_slice(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let text = item.to_string();
    // `pub static NAME : [T] = [..] ;`
    if let Some(at) = text.rfind("[..]") {
        let head = &text[..at];
        let colon = head.find(": [").or_else(|| head.find(":[")).expect("declaration");
        let open = head[colon..].find('[').unwrap() + colon;
        let close = head.rfind(']').unwrap();
        let ty = &head[open + 1..close];
        let out = format!(
            "{}: ::vshim::DistSlice<{ty}> = ::vshim::DistSlice::new();",
            &head[..colon]
        );
        return out.parse().unwrap();
    }
    item
}
