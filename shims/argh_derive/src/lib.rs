//! Offline stand-in for `argh_derive`: `option` (with optional `default`) and `switch` fields.
use proc_macro::TokenStream;
use quote::quote;
use syn::{Data, DeriveInput, Fields};

#[proc_macro_derive(FromArgs, attributes(argh))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = syn::parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let Data::Struct(data) = &input.data else { panic!("struct expected") };
    let Fields::Named(fields) = &data.fields else { panic!("named fields expected") };
    let mut decls = Vec::new();
    let mut arms = Vec::new();
    let mut inits = Vec::new();
    for f in &fields.named {
        let id = f.ident.as_ref().unwrap();
        let ty = &f.ty;
        let mut kind = String::from("option");
        let mut default: Option<syn::Expr> = None;
        let mut long = id.to_string().replace('_', "-");
        for a in &f.attrs {
            if a.path().is_ident("argh") {
                a.parse_nested_meta(|m| {
                    if m.path.is_ident("option") || m.path.is_ident("switch") {
                        kind = m.path.get_ident().unwrap().to_string();
                    } else if m.path.is_ident("default") {
                        let s: syn::LitStr = m.value()?.parse()?;
                        default = Some(s.parse()?);
                    } else if m.path.is_ident("long") {
                        let s: syn::LitStr = m.value()?.parse()?;
                        long = s.value();
                    } else if m.input.peek(syn::Token![=]) {
                        let _: syn::Expr = m.value()?.parse()?;
                    }
                    Ok(())
                })
                .unwrap();
            }
        }
        let flag = format!("--{long}");
        if kind == "switch" {
            decls.push(quote! { let mut #id = false; });
            arms.push(quote! { #flag => { #id = true; } });
            inits.push(quote! { #id });
        } else {
            decls.push(quote! { let mut #id: Option<#ty> = None; });
            arms.push(quote! { #flag => {
                let v = args.next().ok_or_else(|| format!("No value provided for option '{}'.", #flag))?;
                #id = Some(v.parse::<#ty>().map_err(|e| format!("Error parsing option '{}': {}", #flag, e))?);
            } });
            let missing = format!("Required options not provided:\n    {flag}");
            match default {
                Some(d) => inits.push(quote! { #id: match #id { Some(v) => v, None => #d } }),
                None => inits.push(quote! { #id: #id.ok_or_else(|| #missing.to_string())? }),
            }
        }
    }
    quote! {
        impl ::argh::FromArgs for #name {
            fn parse_args(args: &mut dyn Iterator<Item = String>) -> Result<Self, String> {
                #(#decls)*
                while let Some(arg) = args.next() {
                    match arg.as_str() {
                        #(#arms)*
                        other => return Err(format!("Unrecognized argument: {}", other)),
                    }
                }
                Ok(Self { #(#inits),* })
            }
        }
    }
    .into()
}
