//! `#[derive(Derivative)] #[derivative(Debug)]` with `#[derivative(Debug = "ignore")]`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Fields};

fn ignored(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derivative") && quote!(#a).to_string().replace(' ', "").contains("Debug=\"ignore\"")
    })
}

fn arm(path: proc_macro2::TokenStream, name: String, fields: &Fields) -> proc_macro2::TokenStream {
    match fields {
        Fields::Unit => quote!(#path => f.write_str(#name)),
        Fields::Unnamed(u) => {
            let names: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("f{}", i)).collect();
            let shown: Vec<_> =
                u.unnamed.iter().zip(&names).filter(|(f, _)| !ignored(&f.attrs)).map(|(_, n)| n.clone()).collect();
            quote!(#path(#(#names),*) => { #(let _ = #names;)* f.debug_tuple(#name)#(.field(#shown))*.finish() })
        }
        Fields::Named(n) => {
            let names: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
            let shown: Vec<_> = n.named.iter().filter(|f| !ignored(&f.attrs)).map(|f| f.ident.clone().unwrap()).collect();
            let texts: Vec<_> = shown.iter().map(|i| i.to_string()).collect();
            quote!(#path { #(#names),* } => { #(let _ = #names;)* f.debug_struct(#name)#(.field(#texts, #shown))*.finish() })
        }
    }
}

#[proc_macro_derive(Derivative, attributes(derivative))]
pub fn derive(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let arms: Vec<_> = match &d.data {
        Data::Enum(e) => e
            .variants
            .iter()
            .map(|v| {
                let i = &v.ident;
                arm(quote!(Self::#i), i.to_string(), &v.fields)
            })
            .collect(),
        Data::Struct(s) => vec![arm(quote!(Self), name.to_string(), &s.fields)],
        Data::Union(_) => panic!("unions are not supported"),
    };
    let (ig, tg, wc) = d.generics.split_for_impl();
    quote! {
        impl #ig ::std::fmt::Debug for #name #tg #wc {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                match self { #(#arms),* }
            }
        }
    }
    .into()
}
