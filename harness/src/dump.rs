//! From venial's public types to `Node` trees, in source order, reading public fields only.

use crate::node::Node;
use crate::tok::{delim_char, group_tok, ident_tok, punct_tok, sp, tok, toks_of};
use proc_macro2::{Ident, Literal, Punct, TokenTree};
use venial::*;

fn id(i: &Ident) -> Node {
    Node::T(vec![ident_tok(i)])
}
fn oid(i: &Option<Ident>) -> Node {
    i.as_ref().map_or(Node::None, id)
}
fn p(p: &Punct) -> Node {
    Node::T(vec![punct_tok(p)])
}
fn op(x: &Option<Punct>) -> Node {
    x.as_ref().map_or(Node::None, p)
}
fn p2(x: &Option<[Punct; 2]>) -> Node {
    x.as_ref()
        .map_or(Node::None, |[a, b]| Node::T(vec![punct_tok(a), punct_tok(b)]))
}
fn olit(l: &Option<Literal>) -> Node {
    l.as_ref().map_or(Node::None, |l| {
        Node::T(vec![tok(&TokenTree::Literal(l.clone()))])
    })
}
fn tts(t: &[TokenTree]) -> Node {
    Node::T(toks_of(t))
}
fn list<T>(xs: &[T], f: impl Fn(&T) -> Node) -> Node {
    Node::List(xs.iter().map(f).collect())
}
fn o<T>(x: &Option<T>, f: impl Fn(&T) -> Node) -> Node {
    x.as_ref().map_or(Node::None, f)
}
fn grp(g: &GroupSpan, inner: Node) -> Node {
    Node::Grp(delim_char(g.delimiter), sp(g.span), Box::new(inner))
}
fn rec(name: &'static str, f: Vec<(&'static str, Node)>) -> Node {
    Node::Rec(name, f)
}

pub fn punctuated<T>(x: &Punctuated<T>, f: impl Fn(&T) -> Node) -> Node {
    rec(
        "Punctuated",
        vec![
            ("items", Node::List(x.items().map(f).collect())),
            ("commas", Node::List(x.punct().map(p).collect())),
        ],
    )
}

pub fn attribute(a: &Attribute) -> Node {
    rec(
        "Attribute",
        vec![
            ("tk_hash", p(&a.tk_hash)),
            ("tk_bang", op(&a.tk_bang)),
            (
                "tk_brackets",
                grp(
                    &a.tk_brackets,
                    rec(
                        "Inside",
                        vec![("path", tts(&a.path)), ("value", attribute_value(&a.value))],
                    ),
                ),
            ),
        ],
    )
}

pub fn attribute_value(v: &AttributeValue) -> Node {
    match v {
        AttributeValue::Group(g, t) => rec("Group", vec![("group", grp(g, tts(t)))]),
        AttributeValue::Equals(e, t) => {
            rec("Equals", vec![("tk_equals", p(e)), ("tokens", tts(t))])
        }
        AttributeValue::Empty => rec("Empty", vec![]),
    }
}

fn attrs(a: &[Attribute]) -> Node {
    list(a, attribute)
}

pub fn vis(v: &VisMarker) -> Node {
    rec(
        "VisMarker",
        vec![
            ("tk_token1", Node::T(vec![tok(&v.tk_token1)])),
            (
                "tk_token2",
                o(&v.tk_token2, |t| Node::T(vec![tok(t)])),
            ),
        ],
    )
}

pub fn bound(b: &GenericBound) -> Node {
    rec(
        "GenericBound",
        vec![("tk_colon", p(&b.tk_colon)), ("tokens", tts(&b.tokens))],
    )
}

pub fn generic_param(g: &GenericParam) -> Node {
    rec(
        "GenericParam",
        vec![
            ("tk_prefix", o(&g.tk_prefix, |t| Node::T(vec![tok(t)]))),
            ("name", id(&g.name)),
            ("bound", o(&g.bound, bound)),
        ],
    )
}

pub fn generic_params(g: &GenericParamList) -> Node {
    rec(
        "GenericParamList",
        vec![
            ("tk_l_bracket", p(&g.tk_l_bracket)),
            ("params", punctuated(&g.params, generic_param)),
            ("tk_r_bracket", p(&g.tk_r_bracket)),
        ],
    )
}

pub fn predicate(w: &WhereClausePredicate) -> Node {
    rec(
        "WhereClausePredicate",
        vec![("left_side", tts(&w.left_side)), ("bound", bound(&w.bound))],
    )
}

pub fn where_clause(w: &WhereClause) -> Node {
    rec(
        "WhereClause",
        vec![
            ("tk_where", id(&w.tk_where)),
            ("items", punctuated(&w.items, predicate)),
        ],
    )
}

pub fn ty(t: &TypeExpr) -> Node {
    tts(&t.tokens)
}

pub fn tuple_field(f: &TupleField) -> Node {
    rec(
        "TupleField",
        vec![
            ("attributes", attrs(&f.attributes)),
            ("vis_marker", o(&f.vis_marker, vis)),
            ("ty", ty(&f.ty)),
        ],
    )
}

pub fn named_field(f: &NamedField) -> Node {
    rec(
        "NamedField",
        vec![
            ("attributes", attrs(&f.attributes)),
            ("vis_marker", o(&f.vis_marker, vis)),
            ("name", id(&f.name)),
            ("tk_colon", p(&f.tk_colon)),
            ("ty", ty(&f.ty)),
        ],
    )
}

pub fn named_fields(f: &NamedFields) -> Node {
    grp(&f.tk_braces, punctuated(&f.fields, named_field))
}

pub fn fields(f: &Fields) -> Node {
    match f {
        Fields::Unit => rec("Unit", vec![]),
        Fields::Tuple(t) => rec(
            "Tuple",
            vec![("tk_parens", grp(&t.tk_parens, punctuated(&t.fields, tuple_field)))],
        ),
        Fields::Named(n) => rec("Named", vec![("tk_braces", named_fields(n))]),
    }
}

pub fn variant(v: &EnumVariant) -> Node {
    rec(
        "EnumVariant",
        vec![
            ("attributes", attrs(&v.attributes)),
            ("vis_marker", o(&v.vis_marker, vis)),
            ("name", id(&v.name)),
            ("fields", fields(&v.fields)),
            (
                "value",
                o(&v.value, |x| {
                    rec(
                        "EnumVariantValue",
                        vec![
                            ("tk_equal", p(&x.tk_equal)),
                            ("value", Node::T(vec![tok(&x.value)])),
                        ],
                    )
                }),
            ),
        ],
    )
}

pub fn struct_(s: &Struct) -> Node {
    let w = ("where_clause", o(&s.where_clause, where_clause));
    let f = ("fields", fields(&s.fields));
    let mut v = vec![
        ("attributes", attrs(&s.attributes)),
        ("vis_marker", o(&s.vis_marker, vis)),
        ("tk_struct", id(&s.tk_struct)),
        ("name", id(&s.name)),
        ("generic_params", o(&s.generic_params, generic_params)),
    ];
    if matches!(s.fields, Fields::Tuple(_)) {
        v.push(f);
        v.push(w);
    } else {
        v.push(w);
        v.push(f);
    }
    v.push(("tk_semicolon", op(&s.tk_semicolon)));
    rec("Struct", v)
}

pub fn enum_(e: &Enum) -> Node {
    rec(
        "Enum",
        vec![
            ("attributes", attrs(&e.attributes)),
            ("vis_marker", o(&e.vis_marker, vis)),
            ("tk_enum", id(&e.tk_enum)),
            ("name", id(&e.name)),
            ("generic_params", o(&e.generic_params, generic_params)),
            ("where_clause", o(&e.where_clause, where_clause)),
            ("tk_braces", grp(&e.tk_braces, punctuated(&e.variants, variant))),
        ],
    )
}

pub fn union_(u: &Union) -> Node {
    rec(
        "Union",
        vec![
            ("attributes", attrs(&u.attributes)),
            ("vis_marker", o(&u.vis_marker, vis)),
            ("tk_union", id(&u.tk_union)),
            ("name", id(&u.name)),
            ("generic_params", o(&u.generic_params, generic_params)),
            ("where_clause", o(&u.where_clause, where_clause)),
            ("fields", named_fields(&u.fields)),
        ],
    )
}

fn body(inner: &[Attribute], members: Node) -> Node {
    rec(
        "Body",
        vec![("inner_attributes", attrs(inner)), ("members", members)],
    )
}

pub fn module(m: &Module) -> Node {
    let b = match &m.tk_braces {
        Some(g) => grp(g, body(&m.inner_attributes, list(&m.members, item))),
        None => {
            if m.inner_attributes.is_empty() && m.members.is_empty() {
                Node::None
            } else {
                body(&m.inner_attributes, list(&m.members, item))
            }
        }
    };
    rec(
        "Module",
        vec![
            ("attributes", attrs(&m.attributes)),
            ("vis_marker", o(&m.vis_marker, vis)),
            ("tk_unsafe", oid(&m.tk_unsafe)),
            ("tk_mod", id(&m.tk_mod)),
            ("name", id(&m.name)),
            ("tk_semicolon", op(&m.tk_semicolon)),
            ("tk_braces", b),
        ],
    )
}

pub fn impl_member(m: &ImplMember) -> Node {
    match m {
        ImplMember::AssocFunction(f) => rec("AssocFunction", vec![("it", function(f))]),
        ImplMember::AssocConstant(c) => rec("AssocConstant", vec![("it", constant(c))]),
        ImplMember::AssocType(t) => rec("AssocType", vec![("it", type_alias(t))]),
        ImplMember::Macro(m) => rec("AssocMacro", vec![("it", macro_(m))]),
        _ => rec("UnknownMember", vec![]),
    }
}

pub fn trait_member(m: &TraitMember) -> Node {
    match m {
        TraitMember::AssocFunction(f) => rec("AssocFunction", vec![("it", function(f))]),
        TraitMember::AssocConstant(c) => rec("AssocConstant", vec![("it", constant(c))]),
        TraitMember::AssocType(t) => rec("AssocType", vec![("it", type_alias(t))]),
        TraitMember::Macro(m) => rec("AssocMacro", vec![("it", macro_(m))]),
        _ => rec("UnknownMember", vec![]),
    }
}

pub fn trait_(t: &Trait) -> Node {
    rec(
        "Trait",
        vec![
            ("attributes", attrs(&t.attributes)),
            ("vis_marker", o(&t.vis_marker, vis)),
            ("tk_unsafe", oid(&t.tk_unsafe)),
            ("tk_trait", id(&t.tk_trait)),
            ("name", id(&t.name)),
            ("generic_params", o(&t.generic_params, generic_params)),
            ("bound", o(&t.bound, bound)),
            ("where_clause", o(&t.where_clause, where_clause)),
            (
                "tk_braces",
                grp(
                    &t.tk_braces,
                    body(&t.inner_attributes, list(&t.body_items, trait_member)),
                ),
            ),
        ],
    )
}

pub fn impl_(i: &Impl) -> Node {
    rec(
        "Impl",
        vec![
            ("attributes", attrs(&i.attributes)),
            ("tk_unsafe", oid(&i.tk_unsafe)),
            ("tk_impl", id(&i.tk_impl)),
            ("generic_params", o(&i.impl_generic_params, generic_params)),
            ("trait_ty", o(&i.trait_ty, ty)),
            ("tk_for", oid(&i.tk_for)),
            ("self_ty", ty(&i.self_ty)),
            ("where_clause", o(&i.where_clause, where_clause)),
            (
                "tk_braces",
                grp(
                    &i.tk_braces,
                    body(&i.inner_attributes, list(&i.body_items, impl_member)),
                ),
            ),
        ],
    )
}

pub fn constant(c: &Constant) -> Node {
    rec(
        "Constant",
        vec![
            ("attributes", attrs(&c.attributes)),
            ("vis_marker", o(&c.vis_marker, vis)),
            ("tk_const_or_static", id(&c.tk_const_or_static)),
            ("tk_mut", oid(&c.tk_mut)),
            ("name", id(&c.name)),
            ("tk_colon", p(&c.tk_colon)),
            ("ty", ty(&c.ty)),
            ("tk_equals", op(&c.tk_equals)),
            ("initializer", o(&c.initializer, |v| tts(&v.tokens))),
            ("tk_semicolon", p(&c.tk_semicolon)),
        ],
    )
}

pub fn type_alias(t: &TypeAlias) -> Node {
    rec(
        "TypeAlias",
        vec![
            ("attributes", attrs(&t.attributes)),
            ("vis_marker", o(&t.vis_marker, vis)),
            ("tk_type", id(&t.tk_type)),
            ("name", id(&t.name)),
            ("bound", o(&t.bound, bound)),
            ("tk_equals", op(&t.tk_equals)),
            ("initializer_ty", o(&t.initializer_ty, ty)),
            ("tk_semicolon", p(&t.tk_semicolon)),
        ],
    )
}

pub fn fn_param(x: &FnParam) -> Node {
    match x {
        FnParam::Receiver(r) => rec(
            "Receiver",
            vec![
                ("attributes", attrs(&r.attributes)),
                ("tk_ref", op(&r.tk_ref)),
                ("lifetime", o(&r.lifetime, lifetime)),
                ("tk_mut", oid(&r.tk_mut)),
                ("tk_self", id(&r.tk_self)),
            ],
        ),
        FnParam::Typed(t) => rec(
            "Typed",
            vec![
                ("attributes", attrs(&t.attributes)),
                ("tk_mut", oid(&t.tk_mut)),
                ("name", id(&t.name)),
                ("tk_colon", p(&t.tk_colon)),
                ("ty", ty(&t.ty)),
            ],
        ),
    }
}

pub fn lifetime(l: &Lifetime) -> Node {
    rec(
        "Lifetime",
        vec![("tk_apostrophe", p(&l.tk_apostrophe)), ("name", id(&l.name))],
    )
}

pub fn function(f: &Function) -> Node {
    let q = &f.qualifiers;
    rec(
        "Function",
        vec![
            ("attributes", attrs(&f.attributes)),
            ("vis_marker", o(&f.vis_marker, vis)),
            ("tk_default", oid(&q.tk_default)),
            ("tk_const", oid(&q.tk_const)),
            ("tk_async", oid(&q.tk_async)),
            ("tk_unsafe", oid(&q.tk_unsafe)),
            ("tk_extern", oid(&q.tk_extern)),
            ("extern_abi", olit(&q.extern_abi)),
            ("tk_fn_keyword", id(&f.tk_fn_keyword)),
            ("name", id(&f.name)),
            ("generic_params", o(&f.generic_params, generic_params)),
            (
                "params",
                grp(&f.tk_params_parens, punctuated(&f.params, fn_param)),
            ),
            ("tk_return_arrow", p2(&f.tk_return_arrow)),
            ("return_ty", o(&f.return_ty, ty)),
            ("where_clause", o(&f.where_clause, where_clause)),
            ("body", o(&f.body, |g| Node::T(vec![group_tok(g)]))),
            ("tk_semicolon", op(&f.tk_semicolon)),
        ],
    )
}

pub fn use_(u: &UseDeclaration) -> Node {
    rec(
        "UseDeclaration",
        vec![
            ("attributes", attrs(&u.attributes)),
            ("vis_marker", o(&u.vis_marker, vis)),
            ("tk_use", id(&u.tk_use)),
            ("import_tree", ty(&u.import_tree)),
            ("tk_semicolon", p(&u.tk_semicolon)),
        ],
    )
}

pub fn macro_(m: &Macro) -> Node {
    rec(
        "Macro",
        vec![
            ("attributes", attrs(&m.attributes)),
            ("name", id(&m.name)),
            ("tk_bang", p(&m.tk_bang)),
            ("tk_declared_name", oid(&m.tk_declared_name)),
            (
                "tk_braces_or_parens",
                grp(&m.tk_braces_or_parens, tts(&m.inner_tokens)),
            ),
            ("tk_semicolon", op(&m.tk_semicolon)),
        ],
    )
}

pub fn extern_block(b: &ExternBlock) -> Node {
    rec(
        "ExternBlock",
        vec![
            ("attributes", attrs(&b.attributes)),
            ("vis_marker", o(&b.vis_marker, vis)),
            ("tk_unsafe", oid(&b.tk_unsafe)),
            ("tk_extern", id(&b.tk_extern)),
            ("extern_abi", olit(&b.extern_abi)),
            (
                "tk_braces",
                grp(
                    &b.tk_braces,
                    body(&b.inner_attributes, list(&b.body_items, impl_member)),
                ),
            ),
        ],
    )
}

pub fn extern_crate(c: &ExternCrate) -> Node {
    // The alias is documented to be in `alias` or in `tk_underscore`; exactly one of them
    // holds it, and both are what comes after `as`.
    let alias = match (&c.alias, &c.tk_underscore) {
        (Some(a), None) => id(a),
        (None, Some(u)) => id(u),
        (None, None) => Node::None,
        (Some(a), Some(u)) => Node::List(vec![id(a), id(u)]),
    };
    rec(
        "ExternCrate",
        vec![
            ("attributes", attrs(&c.attributes)),
            ("vis_marker", o(&c.vis_marker, vis)),
            ("tk_extern", id(&c.tk_extern)),
            ("tk_crate", id(&c.tk_crate)),
            ("name", id(&c.name)),
            ("tk_as", oid(&c.tk_as)),
            ("alias", alias),
            ("tk_semicolon", p(&c.tk_semicolon)),
        ],
    )
}

pub fn item(i: &Item) -> Node {
    match i {
        Item::Struct(x) => struct_(x),
        Item::Enum(x) => enum_(x),
        Item::Union(x) => union_(x),
        Item::Module(x) => module(x),
        Item::Trait(x) => trait_(x),
        Item::Impl(x) => impl_(x),
        Item::TypeAlias(x) => type_alias(x),
        Item::Function(x) => function(x),
        Item::Constant(x) => constant(x),
        Item::UseDeclaration(x) => use_(x),
        Item::Macro(x) => macro_(x),
        Item::ExternBlock(x) => extern_block(x),
        Item::ExternCrate(x) => extern_crate(x),
        _ => rec("UnknownItem", vec![]),
    }
}

pub fn path(p: &Path) -> Node {
    list(&p.segments, segment)
}

pub fn segment(s: &PathSegment) -> Node {
    rec(
        "PathSegment",
        vec![
            ("tk_separator_colons", p2(&s.tk_separator_colons)),
            ("ident", id(&s.ident)),
            ("generic_args", o(&s.generic_args, generic_args)),
        ],
    )
}

pub fn generic_args(g: &GenericArgList) -> Node {
    rec(
        "GenericArgList",
        vec![
            ("tk_turbofish_colons", p2(&g.tk_turbofish_colons)),
            ("tk_l_bracket", p(&g.tk_l_bracket)),
            ("args", punctuated(&g.args, generic_arg)),
            ("tk_r_bracket", p(&g.tk_r_bracket)),
        ],
    )
}

pub fn generic_arg(a: &GenericArg) -> Node {
    match a {
        GenericArg::Lifetime { lifetime: l } => {
            rec("LifetimeArg", vec![("lifetime", lifetime(l))])
        }
        GenericArg::Binding {
            ident,
            tk_equals,
            ty: t,
        } => rec(
            "Binding",
            vec![("ident", id(ident)), ("tk_equals", p(tk_equals)), ("ty", ty(t))],
        ),
        GenericArg::TypeOrConst { expr } => rec("TypeOrConst", vec![("expr", ty(expr))]),
    }
}
