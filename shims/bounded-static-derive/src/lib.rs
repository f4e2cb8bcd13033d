//! Stand-in for `bounded-static-derive` (offline): derives both traits for types that have at
//! most one lifetime parameter and any number of type parameters.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields, GenericParam};

#[proc_macro_derive(ToStatic)]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let params: Vec<_> = input.generics.params.iter().cloned().collect();
    let (impl_gen, ty_gen, _) = input.generics.split_for_impl();
    let static_args: Vec<_> = params
        .iter()
        .map(|p| match p {
            GenericParam::Lifetime(_) => quote!('static),
            GenericParam::Type(t) => {
                let i = &t.ident;
                quote!(#i::Static)
            }
            GenericParam::Const(c) => {
                let i = &c.ident;
                quote!(#i)
            }
        })
        .collect();
    let static_ty = if params.is_empty() {
        quote!(#name)
    } else {
        quote!(#name<#(#static_args),*>)
    };
    let bounds = |tr: proc_macro2::TokenStream| -> Vec<_> {
        params
            .iter()
            .filter_map(|p| match p {
                GenericParam::Type(t) => {
                    let i = &t.ident;
                    Some(quote!(#i: #tr))
                }
                _ => None,
            })
            .collect()
    };
    let body = |into: bool| {
        let conv = |e: proc_macro2::TokenStream| {
            if into {
                quote!(bounded_static::IntoBoundedStatic::into_static(#e))
            } else {
                quote!(bounded_static::ToBoundedStatic::to_static(#e))
            }
        };
        let arm = |path: proc_macro2::TokenStream, fields: &Fields| match fields {
            Fields::Unit => quote!(#path => #path),
            Fields::Named(f) => {
                let ids: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                let cs: Vec<_> = ids.iter().map(|i| conv(quote!(#i))).collect();
                quote!(#path { #(#ids),* } => #path { #(#ids: #cs),* })
            }
            Fields::Unnamed(f) => {
                let ids: Vec<_> = (0..f.unnamed.len()).map(|i| format_ident!("f{}", i)).collect();
                let cs: Vec<_> = ids.iter().map(|i| conv(quote!(#i))).collect();
                quote!(#path ( #(#ids),* ) => #path ( #(#cs),* ))
            }
        };
        match &input.data {
            Data::Struct(s) => {
                let a = arm(quote!(#name), &s.fields);
                quote!(match self { #a })
            }
            Data::Enum(e) => {
                let arms: Vec<_> = e
                    .variants
                    .iter()
                    .map(|v| {
                        let vi = &v.ident;
                        arm(quote!(#name::#vi), &v.fields)
                    })
                    .collect();
                quote!(match self { #(#arms),* })
            }
            Data::Union(_) => panic!("unions unsupported"),
        }
    };
    let (bt, bi) = (body(false), body(true));
    let wt = bounds(quote!(bounded_static::ToBoundedStatic));
    let wi = bounds(quote!(bounded_static::IntoBoundedStatic));
    quote! {
        impl #impl_gen bounded_static::ToBoundedStatic for #name #ty_gen where #(#wt),* {
            type Static = #static_ty;
            fn to_static(&self) -> Self::Static { #bt }
        }
        impl #impl_gen bounded_static::IntoBoundedStatic for #name #ty_gen where #(#wi),* {
            type Static = #static_ty;
            fn into_static(self) -> Self::Static { #bi }
        }
    }
    .into()
}
