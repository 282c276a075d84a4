//! Stand-in for the attribute of this name: numbers the variants of the enum in order.
#[proc_macro_attribute]
pub fn bitflags(_: proc_macro::TokenStream, i: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let e: syn::ItemEnum = syn::parse(i).unwrap();
    let (n, vs): (_, Vec<_>) = (&e.ident, e.variants.iter().map(|v| &v.ident).collect());
    quote::quote! { #e impl enumflags2::Flag for #n { const LIST: &'static [Self] = &[#(#n::#vs),*]; fn bit(self) -> u64 { 1u64 << Self::LIST.iter().position(|x| *x == self).unwrap() } } }.into()
}
