//! C21: editing parts of a parsed item through its public fields changes those parts and nothing
//! else.

use super::must_parse;
use crate::dump;
use crate::engine::{Obs, Prop};
use crate::gen::{Cfg, ALL_KINDS};
use crate::lex;
use crate::node::{compare, print, Node};
use crate::tape::Src;
use crate::tok::{first_diff, same, show, toks, Tok, CONTENT, EXACT, TK};
use proc_macro2::{Ident, Literal, Punct, Spacing, Span, TokenTree};
use quote::ToTokens;
use venial::*;

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C21",
        rule: "two random items of the same kind, and a history of 1 to 6 edits of the first one through its public fields: parts removed, taken from the second item, created, list entries pushed, inserted, removed and swapped, members of bodies edited recursively. After every edit the item has to print as the reference printer prints its parts, a clone taken before has to print as before, and the printed item has to parse back to the same parts. In some histories 1 to 3 more edits set optional parts independently of each other (a body and a semicolon, an arrow without a type), after which the item only has to print as its parts. Non-trivial: at least 8 tokens.",
        quick: 160_000,
        thorough: 2_400_000,
        run: c21,
    });
}

fn opt_from<T: Clone>(s: &mut Src, x: &mut Option<T>, d: &Option<T>) {
    *x = if s.chance(30) { None } else { d.clone() };
}

fn name(s: &mut Src, x: &mut Ident, d: &Ident) {
    *x = if s.chance(50) {
        d.clone()
    } else {
        Ident::new(*s.pick(&["New", "renamed", "X", "_y"]), Span::call_site())
    };
}

fn attrs(s: &mut Src, x: &mut Vec<Attribute>, d: &[Attribute], inner: bool) {
    match s.below(6) {
        0 => x.clear(),
        1 => *x = d.to_vec(),
        2 => x.extend(d.iter().cloned()),
        3 => {
            if !x.is_empty() {
                let i = s.below(x.len() as u32) as usize;
                x.remove(i);
            }
        }
        4 => {
            if let (Some(a), Some(b)) = (x.first_mut(), d.first()) {
                match s.below(3) {
                    0 => a.path = b.path.clone(),
                    1 => a.value = b.value.clone(),
                    _ => a.value = AttributeValue::Empty,
                }
            }
        }
        _ => x.insert(
            0,
            Attribute {
                tk_hash: Punct::new('#', Spacing::Alone),
                tk_bang: inner.then(|| Punct::new('!', Spacing::Alone)),
                tk_brackets: GroupSpan {
                    delimiter: proc_macro2::Delimiter::Bracket,
                    span: Span::call_site(),
                },
                path: vec![TokenTree::Ident(Ident::new("added", Span::call_site()))],
                value: AttributeValue::Equals(
                    Punct::new('=', Spacing::Alone),
                    vec![TokenTree::Literal(Literal::string("v, > w"))],
                ),
            },
        ),
    }
}

fn list<T: Clone>(s: &mut Src, x: &mut Punctuated<T>, d: &Punctuated<T>) {
    match s.below(6) {
        0 => *x = d.clone(),
        1 => {
            if let Some(v) = d.items().next() {
                x.push(v.clone(), None);
            }
        }
        2 => {
            if let Some(v) = d.items().last() {
                let i = s.below(x.len() as u32 + 1) as usize;
                x.insert(i, v.clone(), None);
            }
        }
        3 => {
            if !x.is_empty() {
                let i = s.below(x.len() as u32) as usize;
                x.inner.remove(i);
            }
        }
        4 => {
            let n = x.len();
            if n >= 2 {
                let (i, j) = (s.below(n as u32) as usize, s.below(n as u32) as usize);
                x.swap(i, j);
            }
        }
        _ => x.skip_last = !x.skip_last,
    }
}

fn vec<T: Clone>(s: &mut Src, x: &mut Vec<T>, d: &[T]) {
    match s.below(5) {
        0 => *x = d.to_vec(),
        1 => x.extend(d.iter().take(1).cloned()),
        2 => {
            if let Some(v) = d.last() {
                let i = s.below(x.len() as u32 + 1) as usize;
                x.insert(i, v.clone());
            }
        }
        3 => {
            if !x.is_empty() {
                let i = s.below(x.len() as u32) as usize;
                x.remove(i);
            }
        }
        _ => x.reverse(),
    }
}

fn generics(s: &mut Src, x: &mut Option<GenericParamList>, d: &Option<GenericParamList>) {
    match (x.as_mut(), d) {
        (Some(x), Some(d)) if s.chance(60) => {
            if s.chance(60) {
                list(s, &mut x.params, &d.params)
            } else if let (Some((p, _)), Some((q, _))) = (x.params.first_mut(), d.params.first()) {
                if s.chance(50) {
                    p.name = q.name.clone();
                } else if !p.is_const() && p.is_lifetime() == q.is_lifetime() && !q.is_const() {
                    p.bound = q.bound.clone();
                }
            }
        }
        _ => opt_from(s, x, d),
    }
}

fn wheres(s: &mut Src, x: &mut Option<WhereClause>, d: &Option<WhereClause>) {
    match (x.as_mut(), d) {
        (Some(x), Some(d)) if s.chance(60) => {
            if s.chance(60) {
                list(s, &mut x.items, &d.items)
            } else if let (Some((p, _)), Some((q, _))) = (x.items.first_mut(), d.items.first()) {
                p.left_side = q.left_side.clone();
                p.bound = q.bound.clone();
            }
        }
        _ => opt_from(s, x, d),
    }
}

/// Where a type follows a visibility marker directly.
fn vis_before(t: &TypeExpr, v: &Option<VisMarker>) -> bool {
    let paren = matches!(t.tokens.first(), Some(TokenTree::Group(_)));
    !paren || v.as_ref().map_or(true, |v| v.tk_token2.is_some())
}

fn fields(s: &mut Src, x: &mut Fields, d: &Fields) {
    match (x, d) {
        (Fields::Tuple(x), Fields::Tuple(d)) => match s.below(4) {
            0 => list(s, &mut x.fields, &d.fields),
            1 => {
                if let (Some((f, _)), Some((g, _))) = (x.fields.first_mut(), d.fields.first()) {
                    if vis_before(&g.ty, &f.vis_marker) {
                        f.ty = g.ty.clone();
                    }
                }
            }
            2 => {
                if let (Some((f, _)), Some((g, _))) = (x.fields.first_mut(), d.fields.first()) {
                    let v = if s.chance(40) { None } else { g.vis_marker.clone() };
                    if vis_before(&f.ty, &v) {
                        f.vis_marker = v;
                    }
                }
            }
            _ => {
                if let (Some((f, _)), Some((g, _))) = (x.fields.last_mut(), d.fields.last()) {
                    attrs(s, &mut f.attributes, &g.attributes, false);
                }
            }
        },
        (Fields::Named(x), Fields::Named(d)) => named(s, x, d),
        _ => (),
    }
}

fn named(s: &mut Src, x: &mut NamedFields, d: &NamedFields) {
    match s.below(3) {
        0 => list(s, &mut x.fields, &d.fields),
        _ => {
            if let (Some((f, _)), Some((g, _))) = (x.fields.last_mut(), d.fields.last()) {
                match s.below(4) {
                    0 => name(s, &mut f.name, &g.name),
                    1 => f.ty = g.ty.clone(),
                    2 => opt_from(s, &mut f.vis_marker, &g.vis_marker),
                    _ => attrs(s, &mut f.attributes, &g.attributes, false),
                }
            }
        }
    }
}

fn variant(s: &mut Src, x: &mut EnumVariant, d: &EnumVariant) {
    match s.below(6) {
        0 => attrs(s, &mut x.attributes, &d.attributes, false),
        1 => opt_from(s, &mut x.vis_marker, &d.vis_marker),
        2 => name(s, &mut x.name, &d.name),
        3 => x.fields = if s.chance(30) { Fields::Unit } else { d.fields.clone() },
        4 => opt_from(s, &mut x.value, &d.value),
        _ => fields(s, &mut x.fields, &d.fields),
    }
}

fn function(s: &mut Src, x: &mut Function, d: &Function) {
    match s.below(12) {
        0 => attrs(s, &mut x.attributes, &d.attributes, false),
        1 => opt_from(s, &mut x.vis_marker, &d.vis_marker),
        2 => x.qualifiers = d.qualifiers.clone(),
        3 => {
            let (q, e) = (&mut x.qualifiers, &d.qualifiers);
            match s.below(5) {
                0 => q.tk_const = e.tk_const.clone(),
                1 => q.tk_async = e.tk_async.clone(),
                2 => q.tk_unsafe = e.tk_unsafe.clone(),
                3 => {
                    q.tk_extern = e.tk_extern.clone();
                    q.extern_abi = e.extern_abi.clone();
                }
                _ => *q = FnQualifiers::default(),
            }
        }
        4 => name(s, &mut x.name, &d.name),
        5 => generics(s, &mut x.generic_params, &d.generic_params),
        6 => {
            // a receiver is first in any case
            let typed = |p: &Punctuated<FnParam>| p.items().all(|p| matches!(p, FnParam::Typed(t) if t.name != "self"));
            if typed(&x.params) && typed(&d.params) {
                list(s, &mut x.params, &d.params);
            } else {
                x.params = d.params.clone();
            }
        }
        7 => {
            x.tk_return_arrow = d.tk_return_arrow.clone();
            x.return_ty = d.return_ty.clone();
        }
        8 => {
            x.tk_return_arrow = None;
            x.return_ty = None;
        }
        9 => wheres(s, &mut x.where_clause, &d.where_clause),
        10 => {
            x.body = d.body.clone();
            x.tk_semicolon = d.tk_semicolon.clone();
        }
        _ => {
            for (p, _) in x.params.iter_mut() {
                let dp = d.params.items().next();
                match (p, dp) {
                    (FnParam::Typed(t), Some(FnParam::Typed(u))) if t.name != "self" && u.name != "self" => {
                        match s.below(4) {
                            0 => t.ty = u.ty.clone(),
                            1 => t.name = u.name.clone(),
                            2 => t.tk_mut = if u.name == "_" || t.name == "_" { None } else { u.tk_mut.clone() },
                            _ => attrs(s, &mut t.attributes, &u.attributes, false),
                        }
                        if t.name == "_" {
                            t.tk_mut = None;
                        }
                    }
                    (FnParam::Receiver(r), Some(FnParam::Receiver(u))) => match s.below(3) {
                        0 => {
                            r.tk_ref = u.tk_ref.clone();
                            r.lifetime = u.lifetime.clone();
                        }
                        1 => r.tk_mut = u.tk_mut.clone(),
                        _ => attrs(s, &mut r.attributes, &u.attributes, false),
                    },
                    _ => (),
                }
            }
        }
    }
}

fn constant(s: &mut Src, x: &mut Constant, d: &Constant) {
    match s.below(6) {
        0 => attrs(s, &mut x.attributes, &d.attributes, false),
        1 => opt_from(s, &mut x.vis_marker, &d.vis_marker),
        2 => {
            x.tk_const_or_static = d.tk_const_or_static.clone();
            x.tk_mut = d.tk_mut.clone();
            x.name = d.name.clone();
        }
        3 => x.ty = d.ty.clone(),
        4 => {
            x.tk_equals = d.tk_equals.clone();
            x.initializer = d.initializer.clone();
        }
        _ => {
            if x.name != "_" {
                name(s, &mut x.name, &d.name);
                if x.name == "_" && x.is_static() {
                    x.name = Ident::new("s", Span::call_site());
                }
            }
        }
    }
}

fn type_alias(s: &mut Src, x: &mut TypeAlias, d: &TypeAlias) {
    match s.below(5) {
        0 => attrs(s, &mut x.attributes, &d.attributes, false),
        1 => opt_from(s, &mut x.vis_marker, &d.vis_marker),
        2 => name(s, &mut x.name, &d.name),
        3 => opt_from(s, &mut x.bound, &d.bound),
        _ => {
            x.tk_equals = d.tk_equals.clone();
            x.initializer_ty = d.initializer_ty.clone();
        }
    }
}

fn macro_(s: &mut Src, x: &mut Macro, d: &Macro) {
    match s.below(4) {
        0 => attrs(s, &mut x.attributes, &d.attributes, false),
        1 => {
            x.name = d.name.clone();
            x.tk_declared_name = d.tk_declared_name.clone();
        }
        2 => x.inner_tokens = d.inner_tokens.clone(),
        _ => {
            x.tk_braces_or_parens = d.tk_braces_or_parens.clone();
            x.tk_semicolon = d.tk_semicolon.clone();
        }
    }
}

macro_rules! member {
    ($s:expr, $M:ident, $x:expr, $d:expr) => {
        match ($x.first_mut(), $d.first()) {
            (Some($M::AssocFunction(x)), Some($M::AssocFunction(d))) => function($s, x, d),
            (Some($M::AssocConstant(x)), Some($M::AssocConstant(d))) => constant($s, x, d),
            (Some($M::AssocType(x)), Some($M::AssocType(d))) => type_alias($s, x, d),
            (Some($M::Macro(x)), Some($M::Macro(d))) => macro_($s, x, d),
            _ => vec($s, $x, $d),
        }
    };
}

fn edit(s: &mut Src, x: &mut Item, d: &Item) {
    // through the accessors
    match s.below(8) {
        6 => {
            let a = d.attributes().clone();
            return attrs(s, x.attributes_mut(), &a, false);
        }
        7 => {
            if let (Some(x), Some(d)) = (x.generic_params_mut(), d.generic_params()) {
                return list(s, &mut x.params, &d.params);
            }
        }
        _ => (),
    }
    match (x, d) {
        (Item::Struct(x), Item::Struct(d)) => match s.below(8) {
            0 => attrs(s, &mut x.attributes, &d.attributes, false),
            1 => opt_from(s, &mut x.vis_marker, &d.vis_marker),
            2 => name(s, &mut x.name, &d.name),
            3 => generics(s, &mut x.generic_params, &d.generic_params),
            4 | 5 => wheres(s, &mut x.where_clause, &d.where_clause),
            6 => {
                x.fields = d.fields.clone();
                // a struct with named fields isn't printed with a semicolon
                if !matches!(d.fields, Fields::Named(_)) || s.chance(50) {
                    x.tk_semicolon = d.tk_semicolon.clone();
                }
            }
            _ => fields(s, &mut x.fields, &d.fields),
        },
        (Item::Enum(x), Item::Enum(d)) => match s.below(8) {
            0 => attrs(s, &mut x.attributes, &d.attributes, false),
            1 => opt_from(s, &mut x.vis_marker, &d.vis_marker),
            2 => name(s, &mut x.name, &d.name),
            3 => generics(s, &mut x.generic_params, &d.generic_params),
            4 => wheres(s, &mut x.where_clause, &d.where_clause),
            5 => list(s, &mut x.variants, &d.variants),
            _ => {
                if let Some(v) = d.variants.items().next() {
                    for (y, _) in x.variants.iter_mut().take(3) {
                        variant(s, y, v);
                    }
                }
            }
        },
        (Item::Union(x), Item::Union(d)) => match s.below(6) {
            0 => attrs(s, &mut x.attributes, &d.attributes, false),
            1 => opt_from(s, &mut x.vis_marker, &d.vis_marker),
            2 => name(s, &mut x.name, &d.name),
            3 => generics(s, &mut x.generic_params, &d.generic_params),
            4 => wheres(s, &mut x.where_clause, &d.where_clause),
            _ => named(s, &mut x.fields, &d.fields),
        },
        (Item::Module(x), Item::Module(d)) => match s.below(7) {
            0 => attrs(s, &mut x.attributes, &d.attributes, false),
            1 => opt_from(s, &mut x.vis_marker, &d.vis_marker),
            2 => opt_from(s, &mut x.tk_unsafe, &d.tk_unsafe),
            3 => name(s, &mut x.name, &d.name),
            4 => {
                x.tk_semicolon = d.tk_semicolon.clone();
                x.tk_braces = d.tk_braces.clone();
                x.inner_attributes = d.inner_attributes.clone();
                x.members = d.members.clone();
            }
            5 if x.tk_braces.is_some() => {
                if s.chance(40) {
                    attrs(s, &mut x.inner_attributes, &d.inner_attributes, true)
                } else {
                    vec(s, &mut x.members, &d.members)
                }
            }
            _ => {
                if let (Some(a), Some(b)) = (x.members.first_mut(), d.members.first()) {
                    edit(s, a, b);
                }
            }
        },
        (Item::Trait(x), Item::Trait(d)) => match s.below(10) {
            0 => attrs(s, &mut x.attributes, &d.attributes, false),
            1 => opt_from(s, &mut x.vis_marker, &d.vis_marker),
            2 => opt_from(s, &mut x.tk_unsafe, &d.tk_unsafe),
            3 => name(s, &mut x.name, &d.name),
            4 => generics(s, &mut x.generic_params, &d.generic_params),
            5 => opt_from(s, &mut x.bound, &d.bound),
            6 => wheres(s, &mut x.where_clause, &d.where_clause),
            7 => attrs(s, &mut x.inner_attributes, &d.inner_attributes, true),
            8 => vec(s, &mut x.body_items, &d.body_items),
            _ => member!(s, TraitMember, &mut x.body_items, &d.body_items),
        },
        (Item::Impl(x), Item::Impl(d)) => match s.below(9) {
            0 => attrs(s, &mut x.attributes, &d.attributes, false),
            1 => opt_from(s, &mut x.tk_unsafe, &d.tk_unsafe),
            2 => generics(s, &mut x.impl_generic_params, &d.impl_generic_params),
            3 => {
                x.trait_ty = d.trait_ty.clone();
                x.tk_for = d.tk_for.clone();
            }
            4 => x.self_ty = d.self_ty.clone(),
            5 => wheres(s, &mut x.where_clause, &d.where_clause),
            6 => attrs(s, &mut x.inner_attributes, &d.inner_attributes, true),
            7 => vec(s, &mut x.body_items, &d.body_items),
            _ => member!(s, ImplMember, &mut x.body_items, &d.body_items),
        },
        (Item::TypeAlias(x), Item::TypeAlias(d)) => type_alias(s, x, d),
        (Item::Function(x), Item::Function(d)) => function(s, x, d),
        (Item::Constant(x), Item::Constant(d)) => constant(s, x, d),
        (Item::UseDeclaration(x), Item::UseDeclaration(d)) => match s.below(3) {
            0 => attrs(s, &mut x.attributes, &d.attributes, false),
            1 => opt_from(s, &mut x.vis_marker, &d.vis_marker),
            _ => x.import_tree = d.import_tree.clone(),
        },
        (Item::Macro(x), Item::Macro(d)) => macro_(s, x, d),
        (Item::ExternBlock(x), Item::ExternBlock(d)) => match s.below(7) {
            0 => attrs(s, &mut x.attributes, &d.attributes, false),
            1 => opt_from(s, &mut x.vis_marker, &d.vis_marker),
            2 => opt_from(s, &mut x.tk_unsafe, &d.tk_unsafe),
            3 => opt_from(s, &mut x.extern_abi, &d.extern_abi),
            4 => attrs(s, &mut x.inner_attributes, &d.inner_attributes, true),
            5 => vec(s, &mut x.body_items, &d.body_items),
            _ => member!(s, ImplMember, &mut x.body_items, &d.body_items),
        },
        (Item::ExternCrate(x), Item::ExternCrate(d)) => match s.below(4) {
            0 => attrs(s, &mut x.attributes, &d.attributes, false),
            1 => opt_from(s, &mut x.vis_marker, &d.vis_marker),
            2 => name(s, &mut x.name, &d.name),
            _ => {
                x.tk_as = d.tk_as.clone();
                x.alias = d.alias.clone();
                x.tk_underscore = d.tk_underscore.clone();
                // `_` may stand in either field
                if x.tk_as.is_some() && s.chance(30) {
                    x.alias = None;
                    x.tk_underscore = Some(Ident::new("_", Span::call_site()));
                }
            }
        },
        _ => (),
    }
}

/// Sets parts of which the syntax allows one, or both or none, independently of each other.
fn loose(s: &mut Src, x: &mut Item, d: &Item) {
    match (x, d) {
        (Item::Function(x), Item::Function(d)) => loose_fn(s, x, d),
        (Item::Trait(x), Item::Trait(d)) => match (x.body_items.last_mut(), d.body_items.last()) {
            (Some(TraitMember::AssocFunction(x)), Some(TraitMember::AssocFunction(d))) => loose_fn(s, x, d),
            (Some(TraitMember::AssocConstant(x)), Some(TraitMember::AssocConstant(d))) => loose_const(s, x, d),
            _ => (),
        },
        (Item::Impl(x), Item::Impl(d)) => match s.below(2) {
            0 => opt_from(s, &mut x.trait_ty, &d.trait_ty),
            _ => opt_from(s, &mut x.tk_for, &d.tk_for),
        },
        (Item::Constant(x), Item::Constant(d)) => loose_const(s, x, d),
        (Item::TypeAlias(x), Item::TypeAlias(d)) => match s.below(2) {
            0 => opt_from(s, &mut x.tk_equals, &d.tk_equals),
            _ => opt_from(s, &mut x.initializer_ty, &d.initializer_ty),
        },
        (Item::Macro(x), Item::Macro(d)) => match s.below(3) {
            0 => x.tk_braces_or_parens = d.tk_braces_or_parens.clone(),
            1 => opt_from(s, &mut x.tk_semicolon, &d.tk_semicolon),
            _ => opt_from(s, &mut x.tk_declared_name, &d.tk_declared_name),
        },
        (Item::ExternCrate(x), Item::ExternCrate(d)) => match s.below(3) {
            0 => opt_from(s, &mut x.tk_as, &d.tk_as),
            1 => opt_from(s, &mut x.alias, &d.alias),
            _ => opt_from(s, &mut x.tk_underscore, &d.tk_underscore),
        },
        _ => (),
    }
}

fn loose_fn(s: &mut Src, x: &mut Function, d: &Function) {
    match s.below(6) {
        0 => opt_from(s, &mut x.body, &d.body),
        1 => x.tk_semicolon = Some(Punct::new(';', Spacing::Alone)),
        2 => opt_from(s, &mut x.tk_return_arrow, &d.tk_return_arrow),
        3 => opt_from(s, &mut x.return_ty, &d.return_ty),
        4 => opt_from(s, &mut x.qualifiers.tk_extern, &d.qualifiers.tk_extern),
        _ => opt_from(s, &mut x.qualifiers.extern_abi, &d.qualifiers.extern_abi),
    }
}

fn loose_const(s: &mut Src, x: &mut Constant, d: &Constant) {
    match s.below(3) {
        0 => opt_from(s, &mut x.tk_equals, &d.tk_equals),
        1 => opt_from(s, &mut x.initializer, &d.initializer),
        _ => x.tk_mut = d.tk_mut.clone(),
    }
}

/// A semicolon that was left over when a struct was given named fields.
fn drop_semicolons(i: &mut Item) {
    match i {
        Item::Struct(x) if matches!(x.fields, Fields::Named(_)) => x.tk_semicolon = None,
        Item::Module(m) => m.members.iter_mut().for_each(drop_semicolons),
        _ => (),
    }
}

/// `impl <A as B>::C {}` can't be told from a list of params.
fn ambiguous(n: &Node) -> bool {
    let mut found = false;
    n.walk(&mut |n| {
        if n.kind() == "Impl" && n.get("generic_params").is_some_and(|g| g.is_none()) {
            let t = n.get("trait_ty").filter(|t| !t.is_none()).or(n.get("self_ty"));
            let first = t.map(|t| t.toks()).and_then(|t| t.first().map(|t| t.k.clone()));
            match first {
                Some(TK::Punct('<', _)) => found = true,
                Some(TK::Group('N', g)) if matches!(g.first().map(|t| &t.k), Some(TK::Punct('<', _))) => {
                    found = true
                }
                _ => (),
            }
        }
    });
    found
}

fn c21(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let k = *s.pick(&ALL_KINDS);
    let cfg = Cfg {
        big: 6,
        depth: 2,
        p_generics: 50,
        p_where: 40,
        // a legacy marker can't be told from a path when it is moved
        strict: true,
        ..Cfg::default()
    };
    let a = lex::item_kind(s, cfg.clone(), k);
    let b = lex::item_kind(s, cfg, k);
    o.case(&a);
    o.label(a.exp.kind());
    // operators of several characters only where the syntax has them: tokens are moved around
    let mut x = must_parse(lex::quote_spacing(a.stream.clone(), &a.joint))?;
    let d = must_parse(lex::quote_spacing(b.stream.clone(), &b.joint))?;
    let donor_before = toks(d.to_token_stream());
    let steps = 1 + s.below(6);
    // the last steps may leave an item that isn't valid syntax
    let loose_steps = if s.chance(30) { 1 + s.below(3) } else { 0 };
    for step in 0..steps + loose_steps {
        let before = x.clone();
        let before_toks = toks(before.to_token_stream());
        if step < steps {
            edit(s, &mut x, &d);
        } else {
            loose(s, &mut x, &d);
        }
        let mut parts = x.clone();
        drop_semicolons(&mut parts);
        let n = dump::item(&parts);
        let want = print(&n);
        let got_stream = x.to_token_stream();
        let got = toks(got_stream.clone());
        o.text = format!("{}\n--- edited:\n{}", a.text, show(&want));
        if !same(&want, &got, CONTENT) {
            return Err(format!(
                "the edited item doesn't print as its parts: {}\nparts: {}\nprinted: {}",
                first_diff(&want, &got, CONTENT),
                show(&want),
                show(&got)
            ));
        }
        spans(&want, &got)?;
        let still = toks(before.to_token_stream());
        if !same(&before_toks, &still, EXACT) {
            return Err("editing an item changed a clone of it".into());
        }
        if step >= steps {
            o.label("parts that don't go together, not parsed again");
            continue;
        }
        if ambiguous(&n) {
            o.label("ambiguous after the edit, not parsed again");
            continue;
        }
        let again = match super::parse(got_stream) {
            super::Parsed::Item(i) => i,
            super::Parsed::Err(e) => return Err(format!("the edited item `{}` is rejected: {e}", show(&got))),
            super::Parsed::Panic(e) => return Err(format!("the edited item `{}` is rejected: {e}", show(&got))),
        };
        if let Some(d) = compare(&n, &dump::item(&again), CONTENT) {
            return Err(format!("the edited item parses as something else: {}{d}", n.kind()));
        }
    }
    if !same(&donor_before, &toks(d.to_token_stream()), EXACT) {
        return Err("editing an item changed another item".into());
    }
    Ok(())
}

/// Printed tokens keep the spans of the parts.
pub fn spans(want: &[Tok], got: &[Tok]) -> Result<(), String> {
    for (w, g) in want.iter().zip(got) {
        if w.sp != g.sp {
            return Err(format!(
                "`{}` has span {:?} in the parts and {:?} in the printed item",
                show(std::slice::from_ref(w)),
                w.sp,
                g.sp
            ));
        }
        if let (TK::Group(_, a), TK::Group(_, b)) = (&w.k, &g.k) {
            spans(a, b)?;
        }
    }
    Ok(())
}
