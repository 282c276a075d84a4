use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_derive(Sequence)]
pub fn sequence(i: TokenStream) -> TokenStream {
    let d = syn::parse_macro_input!(i as syn::DeriveInput);
    let n = &d.ident;
    let syn::Data::Enum(e) = &d.data else { panic!("enum-iterator stand-in: enums only") };
    let v: Vec<_> = e.variants.iter().map(|v| { assert!(v.fields.is_empty(), "enum-iterator stand-in: unit variants only"); &v.ident }).collect();
    quote!(impl ::enum_iterator::Sequence for #n { const ALL: &'static [Self] = &[#(#n::#v),*]; }).into()
}
