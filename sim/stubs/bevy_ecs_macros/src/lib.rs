use proc_macro::TokenStream;
use quote::quote;
use syn::*;

fn simple(input: TokenStream, tr: proc_macro2::TokenStream) -> TokenStream {
    let mut ast: DeriveInput = parse_macro_input!(input);
    ast.generics
        .make_where_clause()
        .predicates
        .push(parse_quote! { Self: Send + Sync + 'static });
    let name = &ast.ident;
    let (i, t, w) = ast.generics.split_for_impl();
    quote! { impl #i #tr for #name #t #w {} }.into()
}

#[proc_macro_derive(Component, attributes(component))]
pub fn component(input: TokenStream) -> TokenStream {
    simple(input, quote! { ::bevy_ecs::component::Component })
}

#[proc_macro_derive(Resource)]
pub fn resource(input: TokenStream) -> TokenStream {
    simple(input, quote! { ::bevy_ecs::system::Resource })
}

#[proc_macro_derive(Bundle)]
pub fn bundle(input: TokenStream) -> TokenStream {
    let ast: DeriveInput = parse_macro_input!(input);
    let name = &ast.ident;
    let (i, t, w) = ast.generics.split_for_impl();
    let Data::Struct(s) = &ast.data else {
        panic!("Bundle: structs only")
    };
    let fields = s.fields.iter().enumerate().map(|(k, f)| match &f.ident {
        Some(id) => quote! { ::bevy_ecs::bundle::Bundle::insert_into(self.#id, world, entity); },
        None => {
            let k = Index::from(k);
            quote! { ::bevy_ecs::bundle::Bundle::insert_into(self.#k, world, entity); }
        }
    });
    quote! {
        impl #i ::bevy_ecs::bundle::Bundle for #name #t #w {
            fn insert_into(self, world: &mut ::bevy_ecs::world::World, entity: ::bevy_ecs::entity::Entity) {
                #(#fields)*
            }
            fn remove_from(_: &mut ::bevy_ecs::world::World, _: ::bevy_ecs::entity::Entity) {
                unimplemented!()
            }
        }
    }
    .into()
}

fn label(input: TokenStream, tr: proc_macro2::TokenStream) -> TokenStream {
    let ast: DeriveInput = parse_macro_input!(input);
    let name = &ast.ident;
    let (i, t, w) = ast.generics.split_for_impl();
    let body = match &ast.data {
        Data::Struct(_) => {
            let s = name.to_string();
            quote! { #s }
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let id = &v.ident;
                let s = format!("{}::{}", name, id);
                quote! { #name::#id { .. } => #s, }
            });
            quote! { match self { #(#arms)* } }
        }
        _ => panic!(),
    };
    quote! {
        impl #i #tr for #name #t #w {
            fn as_str(&self) -> &'static str { #body }
        }
    }
    .into()
}

#[proc_macro_derive(StageLabel, attributes(stage_label))]
pub fn stage_label(input: TokenStream) -> TokenStream {
    label(input, quote! { ::bevy_ecs::schedule::StageLabel })
}

#[proc_macro_derive(SystemLabel, attributes(system_label))]
pub fn system_label(input: TokenStream) -> TokenStream {
    label(input, quote! { ::bevy_ecs::schedule::SystemLabel })
}
