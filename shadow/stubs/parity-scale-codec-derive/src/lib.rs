//! derive(Encode) / derive(Decode) of the offline stand-in.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::*;

struct Attrs { index: Option<Expr>, compact: bool, skip: bool }

fn attrs(a: &[Attribute]) -> Attrs {
    let mut r = Attrs { index: None, compact: false, skip: false };
    for at in a {
        if at.path().is_ident("codec") {
            at.parse_nested_meta(|m| {
                if m.path.is_ident("index") {
                    r.index = Some(m.value()?.parse()?);
                } else if m.path.is_ident("compact") {
                    r.compact = true;
                } else if m.path.is_ident("skip") {
                    r.skip = true;
                } else {
                    return Err(m.error("codec stand-in: unsupported attribute"));
                }
                Ok(())
            }).expect("codec attribute");
        }
    }
    r
}

fn mentions(t: &Type, names: &[Ident]) -> bool {
    struct V<'a>(&'a [Ident], bool);
    impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
        fn visit_ident(&mut self, i: &'b Ident) { if self.0.contains(i) { self.1 = true } }
    }
    let mut v = V(names, false);
    syn::visit::Visit::visit_type(&mut v, t);
    v.1
}

fn bounds(d: &DeriveInput, b: TokenStream2) -> Generics {
    let mut g = d.generics.clone();
    let names: Vec<_> = g.type_params().map(|t| t.ident.clone()).collect();
    let all: Vec<Field> = match &d.data {
        Data::Struct(s) => s.fields.iter().cloned().collect(),
        Data::Enum(e) => e.variants.iter().flat_map(|v| v.fields.iter().cloned().collect::<Vec<_>>()).collect(),
        _ => vec![],
    };
    let w = g.make_where_clause();
    for f in all {
        if attrs(&f.attrs).skip || !mentions(&f.ty, &names) { continue; }
        let t = &f.ty;
        w.predicates.push(parse_quote!(#t: #b));
    }
    g
}
type TokenStream2 = proc_macro2::TokenStream;

fn fields(f: &Fields) -> Vec<(Member, Field)> {
    f.iter().enumerate().map(|(i, f)| (match &f.ident { Some(i) => Member::Named(i.clone()), None => Member::Unnamed(i.into()) }, f.clone())).collect()
}

#[proc_macro_derive(Encode, attributes(codec))]
pub fn encode(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let g = bounds(&d, quote!(::parity_scale_codec::Encode));
    let (ig, tg, w) = g.split_for_impl();
    let _ = tg;
    let (_, tg, _) = d.generics.split_for_impl();
    let n = &d.ident;
    let enc = |f: &Field, e: TokenStream2| -> TokenStream2 {
        let a = attrs(&f.attrs);
        if a.skip { quote!() } else if a.compact {
            let t = &f.ty;
            quote!(::parity_scale_codec::Encode::encode_to(&<<#t as ::parity_scale_codec::HasCompact>::Type as ::core::convert::From<#t>>::from((#e).clone()), dest);)
        } else { quote!(::parity_scale_codec::Encode::encode_to(#e, dest);) }
    };
    let body = match &d.data {
        Data::Struct(s) => {
            let fs = fields(&s.fields).into_iter().map(|(m, f)| enc(&f, quote!(&self.#m)));
            quote!(#(#fs)*)
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().map(|(k, v)| {
                let a = attrs(&v.attrs);
                if a.skip { let vn = &v.ident; return quote!(#n::#vn { .. } => {}); }
                let idx = match (a.index, &v.discriminant) {
                    (Some(e), _) => quote!((#e) as u8),
                    (None, Some((_, e))) => quote!((#e) as u8),
                    _ => { let k = k as u8; quote!(#k) }
                };
                let vn = &v.ident;
                let fs = fields(&v.fields);
                let binds: Vec<_> = (0..fs.len()).map(|i| format_ident!("f{}", i)).collect();
                let pats = fs.iter().zip(&binds).map(|((m, _), b)| quote!(#m: #b));
                let encs = fs.iter().zip(&binds).map(|((_, f), b)| enc(f, quote!(#b)));
                quote!(#n::#vn { #(#pats),* } => { dest.push_byte(#idx); #(#encs)* })
            });
            if e.variants.is_empty() { quote!(match *self {}) } else { quote!(match self { #(#arms)* }) }
        }
        _ => panic!("union"),
    };
    quote!(
        #[allow(deprecated, unused_variables, clippy::all)]
        const _: () = {
        impl #ig ::parity_scale_codec::Encode for #n #tg #w {
            fn encode_to<DestOut: ::parity_scale_codec::Output + ?Sized>(&self, dest: &mut DestOut) { #body }
        }
        impl #ig ::parity_scale_codec::EncodeLike for #n #tg #w {}
        };
    ).into()
}

#[proc_macro_derive(Decode, attributes(codec))]
pub fn decode(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let g = bounds(&d, quote!(::parity_scale_codec::Decode));
    let (ig, _, w) = g.split_for_impl();
    let (_, tg, _) = d.generics.split_for_impl();
    let n = &d.ident;
    let dec = |m: &Member, f: &Field| -> TokenStream2 {
        let a = attrs(&f.attrs);
        let t = &f.ty;
        if a.skip { quote!(#m: ::core::default::Default::default()) } else if a.compact {
            quote!(#m: <<#t as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::Decode>::decode(input)?.into())
        } else { quote!(#m: <#t as ::parity_scale_codec::Decode>::decode(input)?) }
    };
    let body = match &d.data {
        Data::Struct(s) => {
            let fs = fields(&s.fields).into_iter().map(|(m, f)| dec(&m, &f)).collect::<Vec<_>>();
            quote!(Ok(#n { #(#fs),* }))
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().filter_map(|(k, v)| {
                let a = attrs(&v.attrs);
                if a.skip { return None; }
                let idx = match (a.index, &v.discriminant) {
                    (Some(e), _) => quote!((#e) as u8),
                    (None, Some((_, e))) => quote!((#e) as u8),
                    _ => { let k = k as u8; quote!(#k) }
                };
                let vn = &v.ident;
                let fs = fields(&v.fields).into_iter().map(|(m, f)| dec(&m, &f)).collect::<Vec<_>>();
                Some(quote!(if tag == (#idx) { return Ok(#n::#vn { #(#fs),* }); }))
            });
            quote!({ let tag = input.read_byte()?; #(#arms)* Err("Could not decode: variant doesn't exist".into()) })
        }
        _ => panic!("union"),
    };
    quote!(
        #[allow(deprecated, unused_variables, clippy::all)]
        const _: () = {
        impl #ig ::parity_scale_codec::Decode for #n #tg #w {
            fn decode<DecIn: ::parity_scale_codec::Input>(input: &mut DecIn) -> ::core::result::Result<Self, ::parity_scale_codec::Error> { #body }
        }
        };
    ).into()
}
