use proc_macro::TokenStream;
use quote::quote;
use syn::*;

#[proc_macro_derive(H5Type, attributes(hdf5))]
pub fn h5type(input: TokenStream) -> TokenStream {
    let ast: DeriveInput = parse_macro_input!(input);
    let name = &ast.ident;
    let (i, t, w) = ast.generics.split_for_impl();
    let Data::Struct(s) = &ast.data else {
        panic!("H5Type: structs only")
    };
    let types: Vec<_> = s.fields.iter().map(|f| f.ty.clone()).collect();
    let body = if types.len() == 1 {
        let ty = &types[0];
        quote! { <#ty as ::hdf5::H5Type>::type_descriptor() }
    } else {
        quote! { ::hdf5::types::TypeDescriptor::Compound(
            vec![#(<#types as ::hdf5::H5Type>::type_descriptor()),*], ::std::mem::size_of::<Self>()) }
    };
    quote! {
        unsafe impl #i ::hdf5::H5Type for #name #t #w {
            fn type_descriptor() -> ::hdf5::types::TypeDescriptor { #body }
        }
    }
    .into()
}
