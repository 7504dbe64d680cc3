//! `derived! { item }`: what derive and attribute macros do with venial's answers. The result has to compile.

use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use venial::{
    Attribute, EnumVariant, Fields, FnParam, FnTypedParam, Function, GenericParam, ImplMember, Item, NamedField, TraitMember,
    TupleField, TypeExpr, WhereClausePredicate,
};

/// The generics and the where clause of an item, in all of the ways an impl is written.
macro_rules! common {
    ($x:ident, $body:ident) => {{
        let (name, params, wher) = (&$x.name, &$x.generic_params, &$x.where_clause);
        let args = $x.get_inline_generic_args();
        let owned = params.as_ref().map(|g| g.as_inline_args().to_owned_args());
        let derived = $x.create_derive_where_clause(quote!(crate::Describe));
        let lifetimes = $x.get_lifetime_params().map(|p| {
            let (a, n) = (&p.tk_prefix, &p.name);
            quote!(& #a #n ())
        });
        let types: Vec<&Ident> = $x.get_type_params().map(|p| &p.name).collect();
        let consts = $x.get_const_params().map(|p| &p.name);
        let y = $x
            .clone()
            .with_param(GenericParam::ty("Zz"))
            .with_param(GenericParam::lifetime("zz"))
            .with_param(GenericParam::bounded_ty("Yy", quote!(Clone + 'zz).into_iter().collect()))
            .with_param(GenericParam::const_param("Nn", quote!(usize).into_iter().collect()))
            .with_where_predicate(WhereClausePredicate::parse(quote!(Zz: PartialEq<Yy>)))
            .with_where_predicate(WhereClausePredicate::parse(quote!(for<'x> Vec<&'x Yy>: Sized)));
        let (params2, wher2) = (&y.generic_params, &y.where_clause);
        quote! {
            impl #params crate::Describe for #name #args #derived {
                fn go(&self) {
                    #$body
                    let _: ::core::marker::PhantomData<(#(#lifetimes,)*)>;
                    let _: ::core::marker::PhantomData<(#(*const #types,)*)>;
                    let _ = (#(#consts,)*);
                    // the bound is there for every type
                    #(crate::needs::<#types>();)*
                }
            }
            impl #params crate::Owned for #name #owned #wher {}
            impl #params2 crate::Extra<'zz, Zz, Yy, Nn> for #name #args #wher2 {}
        }
    }};
}

pub fn derived(input: TokenStream, print: bool) -> TokenStream {
    let item = match venial::parse_item(input) {
        Ok(i) => i,
        Err(e) => return e.to_compile_error(),
    };
    let more = match &item {
        Item::Struct(x) => {
            let types: Vec<&TypeExpr> = x.field_types().into_iter().collect();
            let tokens: Vec<_> = x.field_tokens().into_iter().collect();
            let names: Vec<Ident> = x.field_names().into_iter().map(|n| var(&n)).collect();
            let paths: Vec<TokenStream> = types.iter().map(|t| path(t)).collect();
            let body = quote! {
                let Self { #(#tokens: #names,)* } = self;
                #(let _: &#types = #names;)*
                #(let _: &#paths = &self.#tokens;)*
            };
            let (g, a, w) = (&x.generic_params, x.get_inline_generic_args(), &x.where_clause);
            let mut y = x.clone();
            y.name = format_ident!("Second");
            edit(&mut y.fields);
            let added = match &y.fields {
                Fields::Unit => TokenStream::new(),
                Fields::Tuple(f) => {
                    let i = Literal::usize_unsuffixed(f.fields.len() - 1);
                    quote!(let _: &u8 = &s.#i;)
                }
                Fields::Named(_) => quote!(let _: (&u8, &u16) = (&s.last_field, &s.first_field);),
            };
            let c = common!(x, body);
            quote! {
                #c #y
                fn look #g (s: &Second #a) #w {
                    #(let _: &Option<#types> = &s.#tokens;)*
                    #added
                }
            }
        }
        Item::Union(x) => {
            let names: Vec<&Ident> = x.fields.fields.items().map(|f| &f.name).collect();
            let types: Vec<&TypeExpr> = x.fields.fields.items().map(|f| &f.ty).collect();
            let body = quote!(unsafe { #(let _: &#types = &self.#names;)* });
            common!(x, body)
        }
        Item::Enum(x) => {
            let name = &x.name;
            let mut arms = TokenStream::new();
            let mut makers = TokenStream::new();
            let mut values = TokenStream::new();
            for (k, v) in x.variants.items().enumerate() {
                let n = &v.name;
                match &v.fields {
                    Fields::Unit => {
                        assert!(v.is_empty_variant() && v.get_single_type().is_none());
                        arms.extend(quote!(Self::#n => ()));
                    }
                    Fields::Tuple(f) => {
                        let vars: Vec<Ident> = (0..f.fields.len()).map(|i| format_ident!("x{i}")).collect();
                        let types: Vec<&TypeExpr> = f.fields.items().map(|f| &f.ty).collect();
                        arms.extend(quote!(Self::#n(#(#vars),*) => { #(let _: &#types = #vars;)* }));
                    }
                    Fields::Named(f) => {
                        let names: Vec<&Ident> = f.fields.items().map(|f| &f.name).collect();
                        let vars: Vec<Ident> = (0..f.fields.len()).map(|i| format_ident!("x{i}")).collect();
                        let types: Vec<&TypeExpr> = f.fields.items().map(|f| &f.ty).collect();
                        arms.extend(quote!(Self::#n { #(#names: #vars),* } => { #(let _: &#types = #vars;)* }));
                    }
                }
                arms.extend(quote!(,));
                if let Some(t) = v.get_single_type() {
                    let (ty, f) = (&t.ty, format_ident!("make_{k}"));
                    makers.extend(quote!(fn #f(x: #ty) -> Self { Self::#n(x) }));
                }
                if let (Some(value), true, true) = (&v.value, x.is_c_enum(), x.generic_params.is_none()) {
                    let value = &value.value;
                    values.extend(quote!(assert!(#name::#n as i128 == (#value) as i128);));
                }
            }
            let body = if x.variants.is_empty() { quote!(match *self {}) } else { quote!(match self { #arms }) };
            let (g, a, w) = (&x.generic_params, x.get_inline_generic_args(), &x.where_clause);
            let c = common!(x, body);
            let mut y = x.clone();
            y.name = format_ident!("Second");
            let mut arms = TokenStream::new();
            for (v, _) in y.variants.iter_mut() {
                let (n, rest) = (&v.name, matches!(v.fields, Fields::Unit));
                let is_tuple = matches!(v.fields, Fields::Tuple(_));
                arms.extend(match (rest, is_tuple) {
                    (true, _) => quote!(Second::#n => 0,),
                    (_, true) => quote!(Second::#n(.., last) => *last,),
                    _ => quote!(Second::#n { first_field, last_field, .. } => { let _: &u16 = first_field; *last_field }),
                });
                edit(&mut v.fields);
            }
            y.variants.push(
                EnumVariant {
                    attributes: Vec::new(),
                    vis_marker: None,
                    name: format_ident!("Added"),
                    fields: Fields::Unit,
                    value: None,
                },
                None,
            );
            quote! {
                #c
                impl #g #name #a #w { #makers }
                const _: () = { #values };
                #y
                fn look #g (s: &Second #a) -> u8 #w {
                    match s { #arms Second::Added => 0 }
                }
            }
        }
        Item::Function(f) => wrapper(f, None).into_token_stream(),
        Item::Impl(i) if i.trait_ty.is_none() => {
            let mut w = i.clone();
            w.attributes.clear();
            w.inner_attributes.clear();
            for m in &mut w.body_items {
                match m {
                    ImplMember::AssocFunction(f) => *f = wrapper(f, Some(quote!(Self::))),
                    ImplMember::AssocConstant(c) => {
                        let n = c.name.clone();
                        c.name = var(&n.to_string());
                        c.initializer = Some(venial::ValueExpr {
                            tokens: quote!(Self::#n).into_iter().collect(),
                        });
                    }
                    _ => (),
                }
            }
            w.into_token_stream()
        }
        Item::Trait(t) => {
            let mut members = TokenStream::new();
            for m in &t.body_items {
                match m {
                    TraitMember::AssocFunction(f) => {
                        let mut f = f.clone();
                        f.attributes.clear();
                        f.tk_semicolon = None;
                        f.body = Some(Group::new(Delimiter::Brace, quote!(loop {})));
                        f.to_tokens(&mut members);
                    }
                    TraitMember::AssocConstant(c) => {
                        let (n, ty, v) = (&c.name, &c.ty, &c.initializer);
                        members.extend(quote!(const #n: #ty = #v;));
                    }
                    TraitMember::AssocType(ty) => {
                        let n = &ty.name;
                        members.extend(quote!(type #n = u8;));
                    }
                    _ => (),
                }
            }
            let (n, g, w) = (&t.name, &t.generic_params, &t.where_clause);
            let a = t.generic_params.as_ref().map(|g| g.as_inline_args());
            let u = &t.tk_unsafe;
            quote!(struct Dummy; #u impl #g #n #a for Dummy #w { #members })
        }
        Item::Constant(c) => {
            let (n, ty, v) = (&c.name, &c.ty, &c.initializer);
            let read = if c.tk_mut.is_some() { quote!() } else { quote!(fn read() { let _: &#ty = &#n; }) };
            quote!(#read const _: #ty = #v;)
        }
        Item::TypeAlias(t) => {
            let (n, ty) = (&t.name, &t.initializer_ty);
            quote!(fn same(x: #ty) -> #n { x })
        }
        Item::Module(m) => {
            let n = &m.name;
            // the members are public: each is there under its name
            let names: Vec<Ident> = m.members.iter().filter_map(|i| i.name()).collect();
            let alias = (0..names.len()).map(|i| format_ident!("Member{i}"));
            quote!(#(use self::#n::#names as #alias;)*)
        }
        _ => TokenStream::new(),
    };
    let mut docs = TokenStream::new();
    texts(item.attributes(), &mut docs);
    match &item {
        Item::Struct(x) => fields(&x.fields, &mut docs),
        Item::Enum(x) => {
            for v in x.variants.items() {
                texts(&v.attributes, &mut docs);
                fields(&v.fields, &mut docs);
            }
        }
        Item::Union(x) => x.fields.fields.items().for_each(|f| texts(&f.attributes, &mut docs)),
        _ => (),
    }
    let item = print.then_some(item);
    quote!(#item #more #docs)
}

/// Doc comments are strings.
fn texts(attrs: &[Attribute], out: &mut TokenStream) {
    for a in attrs {
        if a.get_single_path_segment().is_some_and(|p| p == "doc") {
            let v = a.get_value_tokens();
            out.extend(quote!(const _: &str = #(#v)*;));
        }
    }
}

fn fields(f: &Fields, out: &mut TokenStream) {
    match f {
        Fields::Unit => (),
        Fields::Tuple(f) => f.fields.items().for_each(|f| texts(&f.attributes, out)),
        Fields::Named(f) => f.fields.items().for_each(|f| texts(&f.attributes, out)),
    }
}

/// All types in `Option<..>`, with new fields around.
fn edit(f: &mut Fields) {
    fn option(t: &mut TypeExpr) {
        t.tokens = quote!(Option<#t>).into_iter().collect();
    }
    fn ty(t: TokenStream) -> TypeExpr {
        TypeExpr { tokens: t.into_iter().collect() }
    }
    match f {
        Fields::Unit => (),
        Fields::Tuple(f) => {
            f.fields.iter_mut().for_each(|(f, _)| option(&mut f.ty));
            let new = TupleField {
                attributes: Vec::new(),
                vis_marker: None,
                ty: ty(quote!(u8)),
            };
            f.fields.push(new, None);
        }
        Fields::Named(f) => {
            f.fields.iter_mut().for_each(|(f, _)| option(&mut f.ty));
            let new = |n: &str, t| NamedField {
                attributes: Vec::new(),
                vis_marker: None,
                name: Ident::new(n, Span::call_site()),
                tk_colon: Punct::new(':', Spacing::Alone),
                ty: ty(t),
            };
            f.fields.push(new("last_field", quote!(u8)), None);
            f.fields.insert(0, new("first_field", quote!(u16)), None);
        }
    }
}

fn var(name: &str) -> Ident {
    let n = name.strip_prefix("r#").unwrap_or(name);
    Ident::new(&format!("v_{n}"), Span::call_site())
}

fn path(t: &TypeExpr) -> TokenStream {
    match t.as_path() {
        Some(p) => p.to_token_stream(),
        None => t.to_token_stream(),
    }
}

/// A function with the same signature that calls this one.
fn wrapper(f: &Function, prefix: Option<TokenStream>) -> Function {
    let mut w = f.clone();
    w.attributes.clear();
    w.name = var(&f.name.to_string());
    let args = f.params.items().map(|p| match p {
        FnParam::Receiver(r) => r.tk_self.clone(),
        FnParam::Typed(t) => t.name.clone(),
    });
    let name = &f.name;
    let mut call = quote!(#prefix #name(#(#args),*));
    if f.qualifiers.tk_async.is_some() {
        call = quote!(#call.await);
    }
    if f.qualifiers.tk_unsafe.is_some() {
        call = quote!(unsafe { #call });
    }
    w.body = Some(Group::new(Delimiter::Brace, call));
    w.tk_semicolon = None;
    let added = FnTypedParam {
        attributes: Vec::new(),
        tk_mut: None,
        name: format_ident!("added_param"),
        tk_colon: Punct::new(':', Spacing::Alone),
        ty: TypeExpr {
            tokens: quote!(u8).into_iter().collect(),
        },
    };
    w.params.push(FnParam::Typed(added), None);
    w
}
