//! Every part of an item prints on its own, and after other tokens, as it does inside of the item.

use crate::dump;
use crate::node::{print, Node};
use crate::tok::{first_diff, same, show, tok, toks, Tok, CONTENT};
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::ToTokens;
use venial::*;

fn check(what: &str, want: Vec<Tok>, x: &dyn Fn(&mut TokenStream), alone: TokenStream) -> Result<(), String> {
    let got = toks(alone);
    if !same(&want, &got, CONTENT) {
        return Err(format!(
            "{what} prints differently on its own: {}\nprinted: {}",
            first_diff(&want, &got, CONTENT),
            show(&got)
        ));
    }
    crate::props::edit::spans(&want, &got).map_err(|e| format!("{what}: {e}"))?;
    let first = TokenTree::Ident(Ident::new("before", Span::call_site()));
    let mut out = TokenStream::from(first.clone());
    x(&mut out);
    let mut want = want;
    want.insert(0, tok(&first));
    let got = toks(out);
    if !same(&want, &got, CONTENT) {
        return Err(format!(
            "{what} prints differently after other tokens: {}",
            first_diff(&want, &got, CONTENT)
        ));
    }
    crate::props::edit::spans(&want, &got).map_err(|e| format!("{what} after other tokens: {e}"))?;
    Ok(())
}

fn part(what: &str, x: &impl ToTokens, n: Node) -> Result<(), String> {
    check(what, print(&n), &|t| x.to_tokens(t), x.to_token_stream())
}

fn attributes(l: &[Attribute]) -> Result<(), String> {
    for a in l {
        part("attribute", a, dump::attribute(a))?;
        part("attribute value", &a.value, dump::attribute_value(&a.value))?;
    }
    Ok(())
}

fn vis(v: &Option<VisMarker>) -> Result<(), String> {
    match v {
        Some(v) => part("visibility", v, dump::vis(v)),
        None => Ok(()),
    }
}

fn generics(g: &Option<GenericParamList>, w: &Option<WhereClause>) -> Result<(), String> {
    if let Some(g) = g {
        part("generic params", g, dump::generic_params(g))?;
        part("list of generic params", &g.params, dump::punctuated(&g.params, dump::generic_param))?;
        for p in g.params.items() {
            part("generic param", p, dump::generic_param(p))?;
            bound(&p.bound)?;
        }
    }
    if let Some(w) = w {
        part("where clause", w, dump::where_clause(w))?;
        for p in w.items.items() {
            part("where predicate", p, dump::predicate(p))?;
            part("bound", &p.bound, dump::bound(&p.bound))?;
        }
    }
    Ok(())
}

fn bound(b: &Option<GenericBound>) -> Result<(), String> {
    match b {
        Some(b) => part("bound", b, dump::bound(b)),
        None => Ok(()),
    }
}

fn ty(t: &TypeExpr) -> Result<(), String> {
    part("type", t, dump::ty(t))
}

fn fields(f: &Fields) -> Result<(), String> {
    part("fields", f, dump::fields(f))?;
    match f {
        Fields::Unit => Ok(()),
        Fields::Tuple(l) => {
            part("tuple fields", l, dump::fields(f))?;
            for f in l.fields.items() {
                part("tuple field", f, dump::tuple_field(f))?;
                attributes(&f.attributes)?;
                vis(&f.vis_marker)?;
                ty(&f.ty)?;
            }
            Ok(())
        }
        Fields::Named(l) => named(l),
    }
}

fn named(l: &NamedFields) -> Result<(), String> {
    part("named fields", l, dump::named_fields(l))?;
    for f in l.fields.items() {
        part("named field", f, dump::named_field(f))?;
        attributes(&f.attributes)?;
        vis(&f.vis_marker)?;
        ty(&f.ty)?;
    }
    Ok(())
}

fn function(f: &Function) -> Result<(), String> {
    part("function", f, dump::function(f))?;
    attributes(&f.attributes)?;
    vis(&f.vis_marker)?;
    generics(&f.generic_params, &f.where_clause)?;
    part("params", &f.params, dump::punctuated(&f.params, dump::fn_param))?;
    for p in f.params.items() {
        part("param", p, dump::fn_param(p))?;
        match p {
            FnParam::Receiver(r) => {
                part("receiver", r, dump::fn_param(p))?;
                attributes(&r.attributes)?;
                if let Some(l) = &r.lifetime {
                    part("lifetime", l, dump::lifetime(l))?;
                }
            }
            FnParam::Typed(t) => {
                part("typed param", t, dump::fn_param(p))?;
                attributes(&t.attributes)?;
                ty(&t.ty)?;
            }
        }
    }
    let q = &f.qualifiers;
    let words = [&q.tk_default, &q.tk_const, &q.tk_async, &q.tk_unsafe, &q.tk_extern];
    let mut want: Vec<Tok> = words
        .into_iter()
        .flatten()
        .map(|i| tok(&TokenTree::Ident(i.clone())))
        .collect();
    want.extend(q.extern_abi.iter().map(|l| tok(&TokenTree::Literal(l.clone()))));
    part("qualifiers", q, Node::T(want))?;
    if let Some(t) = &f.return_ty {
        ty(t)?;
    }
    Ok(())
}

fn constant(c: &Constant) -> Result<(), String> {
    part("constant", c, dump::constant(c))?;
    attributes(&c.attributes)?;
    vis(&c.vis_marker)?;
    ty(&c.ty)?;
    if let Some(v) = &c.initializer {
        part("value", v, Node::T(crate::tok::toks_of(&v.tokens)))?;
    }
    Ok(())
}

fn alias(t: &TypeAlias) -> Result<(), String> {
    part("type alias", t, dump::type_alias(t))?;
    attributes(&t.attributes)?;
    vis(&t.vis_marker)?;
    bound(&t.bound)?;
    match &t.initializer_ty {
        Some(t) => ty(t),
        None => Ok(()),
    }
}

fn macro_(m: &Macro) -> Result<(), String> {
    part("macro", m, dump::macro_(m))?;
    attributes(&m.attributes)
}

fn impl_member(m: &ImplMember) -> Result<(), String> {
    part("member", m, dump::impl_member(m))?;
    match m {
        ImplMember::AssocFunction(f) => function(f),
        ImplMember::AssocConstant(c) => constant(c),
        ImplMember::AssocType(t) => alias(t),
        ImplMember::Macro(m) => macro_(m),
        #[allow(unreachable_patterns)]
        _ => Ok(()),
    }
}

fn trait_member(m: &TraitMember) -> Result<(), String> {
    part("member", m, dump::trait_member(m))?;
    match m {
        TraitMember::AssocFunction(f) => function(f),
        TraitMember::AssocConstant(c) => constant(c),
        TraitMember::AssocType(t) => alias(t),
        TraitMember::Macro(m) => macro_(m),
        #[allow(unreachable_patterns)]
        _ => Ok(()),
    }
}

pub fn item(i: &Item) -> Result<(), String> {
    part("item", i, dump::item(i))?;
    match i {
        Item::Function(x) => return function(x),
        Item::Constant(x) => return constant(x),
        Item::TypeAlias(x) => return alias(x),
        Item::Macro(x) => return macro_(x),
        _ => attributes(i.attributes())?,
    }
    match i {
        Item::Struct(x) => {
            part("struct", x, dump::struct_(x))?;
            vis(&x.vis_marker)?;
            generics(&x.generic_params, &x.where_clause)?;
            fields(&x.fields)
        }
        Item::Enum(x) => {
            part("enum", x, dump::enum_(x))?;
            vis(&x.vis_marker)?;
            generics(&x.generic_params, &x.where_clause)?;
            part("variants", &x.variants, dump::punctuated(&x.variants, dump::variant))?;
            for v in x.variants.items() {
                part("variant", v, dump::variant(v))?;
                attributes(&v.attributes)?;
                vis(&v.vis_marker)?;
                fields(&v.fields)?;
                if let Some(e) = &v.value {
                    let want = [TokenTree::Punct(e.tk_equal.clone()), e.value.clone()];
                    part("discriminant", e, Node::T(crate::tok::toks_of(&want)))?;
                }
            }
            Ok(())
        }
        Item::Union(x) => {
            part("union", x, dump::union_(x))?;
            vis(&x.vis_marker)?;
            generics(&x.generic_params, &x.where_clause)?;
            named(&x.fields)
        }
        Item::Module(x) => {
            part("module", x, dump::module(x))?;
            vis(&x.vis_marker)?;
            attributes(&x.inner_attributes)?;
            x.members.iter().try_for_each(item)
        }
        Item::Trait(x) => {
            part("trait", x, dump::trait_(x))?;
            vis(&x.vis_marker)?;
            attributes(&x.inner_attributes)?;
            generics(&x.generic_params, &x.where_clause)?;
            bound(&x.bound)?;
            x.body_items.iter().try_for_each(trait_member)
        }
        Item::Impl(x) => {
            part("impl", x, dump::impl_(x))?;
            attributes(&x.inner_attributes)?;
            generics(&x.impl_generic_params, &x.where_clause)?;
            x.trait_ty.iter().try_for_each(ty)?;
            ty(&x.self_ty)?;
            x.body_items.iter().try_for_each(impl_member)
        }
        Item::UseDeclaration(x) => {
            part("use", x, dump::use_(x))?;
            vis(&x.vis_marker)?;
            ty(&x.import_tree)
        }
        Item::ExternBlock(x) => {
            part("extern block", x, dump::extern_block(x))?;
            vis(&x.vis_marker)?;
            attributes(&x.inner_attributes)?;
            x.body_items.iter().try_for_each(impl_member)
        }
        Item::ExternCrate(x) => {
            part("extern crate", x, dump::extern_crate(x))?;
            vis(&x.vis_marker)
        }
        #[allow(unreachable_patterns)]
        _ => Ok(()),
    }
}
