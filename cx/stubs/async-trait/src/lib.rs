//! Methods returning boxed futures in place of `async fn` in traits.
use proc_macro::TokenStream;
use quote::quote;
use syn::visit_mut::VisitMut;
use syn::*;

struct Lend;
impl VisitMut for Lend {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        if t.lifetime.is_none() {
            t.lifetime = Some(parse_quote!('async_trait));
        }
        visit_mut::visit_type_reference_mut(self, t);
    }
}

fn convert(sig: &mut Signature, body: Option<&mut Block>) {
    if sig.asyncness.take().is_none() {
        return;
    }
    sig.generics.params.push(parse_quote!('async_trait));
    sig.generics.make_where_clause().predicates.push(parse_quote!(Self: 'async_trait));
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                if let Some((_, l)) = &mut r.reference {
                    *l = Some(parse_quote!('async_trait));
                }
                Lend.visit_type_mut(&mut r.ty);
            }
            FnArg::Typed(t) => Lend.visit_type_mut(&mut t.ty),
        }
    }
    let ret: Type = match &sig.output {
        ReturnType::Default => parse_quote!(()),
        ReturnType::Type(_, t) => (**t).clone(),
    };
    sig.output = parse_quote!(-> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #ret> + Send + 'async_trait>>);
    if let Some(b) = body {
        let old = b.clone();
        *b = parse_quote!({
            Box::pin(async move {
                if let ::core::option::Option::Some(r) = ::core::option::Option::None::<#ret> {
                    return r;
                }
                #[allow(unreachable_code, clippy::all)]
                let r: #ret = #old;
                #[allow(unreachable_code)]
                r
            })
        });
    }
}

#[proc_macro_attribute]
pub fn async_trait(_args: TokenStream, input: TokenStream) -> TokenStream {
    let mut item: Item = parse_macro_input!(input as Item);
    match &mut item {
        Item::Trait(t) => {
            for i in t.items.iter_mut() {
                if let TraitItem::Fn(f) = i {
                    convert(&mut f.sig, f.default.as_mut());
                }
            }
        }
        Item::Impl(t) => {
            for i in t.items.iter_mut() {
                if let ImplItem::Fn(f) = i {
                    convert(&mut f.sig, Some(&mut f.block));
                }
            }
        }
        _ => {}
    }
    quote!(#item).into()
}
