//! C18, C19: queries on parsed items. C22, C23: the same item presented in another way or in
//! another place is the same item.

use super::structure::kind_name;
use super::{guard, must_parse};
use crate::dump;
use crate::engine::{Obs, Prop};
use crate::gen::{Cfg, Ctx, Kind, ALL_KINDS};
use crate::lex::{self, Case};
use crate::node::{compare, Node, E};
use crate::tape::Src;
use crate::tok::{norm, same, show, sp, tok, toks, toks_of, Tok, CONTENT, EXACT, FLAT, LOOSE, TK};
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::str::FromStr;
use venial::*;

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C18",
        rule: "random items of all 13 kinds (and the members of modules); name(), attributes(), generic_params(), every as_*() and their _mut versions are compared with the generated tree, clones and debug output with the original. Non-trivial: at least 8 tokens.",
        quick: 220_000,
        thorough: 4_500_000,
        run: c18,
    });
    v.push(Prop {
        id: "C19",
        rule: "random structs (0 to 40 fields), enums, unions and constants; field names, tokens and types, variant queries, param queries and attribute queries are recomputed from the generated tree and compared. Non-trivial: at least 8 tokens.",
        quick: 700_000,
        thorough: 12_000_000,
        run: c19,
    });
    v.push(Prop {
        id: "C22",
        rule: "a random item is parsed from source text and from a second presentation of the same tokens: another layout, other punct spacing, quote! spacing, subtrees in invisible groups, re-lexed printed output; the parsed trees have to be the same up to the presentation. Non-trivial: at least 8 tokens.",
        quick: 400_000,
        thorough: 6_600_000,
        run: c22,
    });
    v.push(Prop {
        id: "C23",
        rule: "a random item is parsed on its own and as a member of a module (to depth 4) or of an impl, trait or extern block, between random other members; the parsed trees have to be identical, tokens and spans included. Non-trivial: at least 8 tokens.",
        quick: 400_000,
        thorough: 6_000_000,
        run: c23,
    });
}

// --- C18

fn option_is<T>(what: &str, got: &Option<T>, want: bool) -> Result<(), String> {
    if got.is_some() == want {
        Ok(())
    } else {
        Err(format!("{what} is {}", if want { "None" } else { "Some" }))
    }
}

fn accessors(e: &Node, i: &mut Item) -> Result<(), String> {
    let k = e.kind();
    if kind_name(i) != k {
        return Err(format!("a {k} is parsed as {}", kind_name(i)));
    }
    macro_rules! as_ {
        ($f:ident, $kind:expr, $dump:path) => {{
            let got = i.$f();
            option_is(concat!(stringify!($f), "()"), &got, k == $kind)?;
            if let Some(x) = got {
                if let Some(d) = compare(e, &$dump(x), EXACT) {
                    return Err(format!(concat!(stringify!($f), "(){}"), d));
                }
            }
        }};
    }
    as_!(as_struct, "Struct", dump::struct_);
    as_!(as_enum, "Enum", dump::enum_);
    as_!(as_union, "Union", dump::union_);
    as_!(as_module, "Module", dump::module);
    as_!(as_trait, "Trait", dump::trait_);
    as_!(as_impl, "Impl", dump::impl_);
    as_!(as_type_alias, "TypeAlias", dump::type_alias);
    as_!(as_function, "Function", dump::function);
    as_!(as_constant, "Constant", dump::constant);
    as_!(as_use_declaration, "UseDeclaration", dump::use_);
    as_!(as_macro, "Macro", dump::macro_);
    as_!(as_extern_block, "ExternBlock", dump::extern_block);
    as_!(as_extern_crate, "ExternCrate", dump::extern_crate);

    // name
    let want = match k {
        "Impl" | "UseDeclaration" | "ExternBlock" => vec![],
        _ => e.get("name").map(|n| n.toks()).unwrap_or_default(),
    };
    let got: Vec<Tok> = i.name().into_iter().map(|n| tok(&TokenTree::Ident(n))).collect();
    if want != got {
        return Err(format!("name() is `{}`, the name is `{}`", show(&got), show(&want)));
    }

    // attributes
    let want = e.get("attributes").cloned().unwrap();
    let got = Node::List(i.attributes().iter().map(dump::attribute).collect());
    if let Some(d) = compare(&want, &got, EXACT) {
        return Err(format!("attributes(){d}"));
    }
    let got = Node::List(i.attributes_mut().iter().map(dump::attribute).collect());
    if let Some(d) = compare(&want, &got, EXACT) {
        return Err(format!("attributes_mut(){d}"));
    }

    // params
    let want = e.get("generic_params").cloned().unwrap_or(Node::None);
    let got = i.generic_params().map_or(Node::None, dump::generic_params);
    if let Some(d) = compare(&want, &got, EXACT) {
        return Err(format!("generic_params(){d}"));
    }
    let got = i.generic_params_mut().map_or(Node::None, |g| dump::generic_params(g));
    if let Some(d) = compare(&want, &got, EXACT) {
        return Err(format!("generic_params_mut(){d}"));
    }
    Ok(())
}

fn c18(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let cfg = Cfg {
        kinds: [2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2],
        big: 10,
        depth: 2,
        p_generics: 50,
        ..Cfg::default()
    };
    let c = lex::item(s, cfg);
    o.case(&c);
    o.label(c.exp.kind());
    let mut i = must_parse(c.stream.clone())?;
    let before = dump::item(&i);
    accessors(&c.exp, &mut i)?;
    if let (Item::Module(m), Some(members)) = (&mut i, c.exp.at(&["tk_braces", "members"])) {
        if m.members.len() != members.list().len() {
            return Err(format!("{} members are parsed as {}", members.list().len(), m.members.len()));
        }
        for (x, e) in m.members.iter_mut().zip(members.list()) {
            accessors(e, x)?;
        }
    }
    // clones and debug output
    let copy = i.clone();
    if let Some(d) = compare(&before, &dump::item(&copy), EXACT) {
        return Err(format!("the clone differs: {}{d}", before.kind()));
    }
    let text = guard(|| format!("{i:?}")).map_err(|m| format!("formatting with {{:?}} panics: {m}"))?;
    let long = guard(|| format!("{i:#?}")).map_err(|m| format!("formatting with {{:#?}} panics: {m}"))?;
    let copy_text = guard(|| format!("{copy:?}")).map_err(|m| format!("formatting with {{:?}} panics: {m}"))?;
    if copy_text != text {
        return Err("a clone has other debug output".into());
    }
    // the debug output has the names of the item and its parts
    let mut names = Vec::new();
    c.exp.walk(&mut |n| {
        if let Some(x) = n.get("name") {
            if matches!(n, Node::Rec(..)) {
                names.push(x.text());
            }
        }
    });
    for n in names {
        if !text.contains(&n) || !long.contains(&n) {
            return Err(format!("the debug output doesn't have the name `{n}`: {text}"));
        }
    }
    // edits through the accessors reach the item
    let n = i.attributes().len();
    if n > 0 {
        let j = s.below(n as u32) as usize;
        let removed = i.attributes_mut().remove(j);
        if i.attributes().len() != n - 1 {
            return Err("removing an attribute through attributes_mut() has no effect".into());
        }
        let gone = dump::attribute(&removed).toks();
        let all = toks(copy.to_token_stream());
        let rest = toks(i.to_token_stream());
        let want: Vec<Tok> = all.iter().filter(|t| !gone.iter().any(|g| g.sp == t.sp)).cloned().collect();
        if !same(&want, &rest, CONTENT) {
            return Err(format!("without attribute {j} it prints as `{}`", show(&rest)));
        }
    }
    if let Some(g) = i.generic_params_mut() {
        for p in g.params.iter_mut() {
            p.0.name = Ident::new("Renamed", p.0.name.span());
        }
        let g = i.generic_params().unwrap();
        if g.params.items().any(|p| p.name != "Renamed") {
            return Err("renaming params through generic_params_mut() has no effect".into());
        }
        if !g.params.is_empty() && !i.to_token_stream().to_string().contains("Renamed") {
            return Err("renaming params through generic_params_mut() isn't printed".into());
        }
    }
    Ok(())
}

// --- C19

fn same_list(what: &str, want: &[String], got: &[String]) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{what}: expected {want:?}, got {got:?}"))
    }
}

fn param_queries(
    e: &Node,
    lifetimes: Vec<&GenericParam>,
    types: Vec<&GenericParam>,
    consts: Vec<&GenericParam>,
) -> Result<(), String> {
    let params: Vec<Node> = e
        .get("generic_params")
        .and_then(|g| g.get("params"))
        .map(|p| p.list().to_vec())
        .unwrap_or_default();
    let kind = |p: &Node| match p.get("tk_prefix").unwrap().text().as_str() {
        "'" => 0,
        "const" => 2,
        "" => 1,
        x => panic!("harness: prefix {x}"),
    };
    for (k, what, got) in [
        (0, "get_lifetime_params()", lifetimes),
        (1, "get_type_params()", types),
        (2, "get_const_params()", consts),
    ] {
        let want: Vec<Node> = params.iter().filter(|p| kind(p) == k).cloned().collect();
        let got: Vec<Node> = got.into_iter().map(dump::generic_param).collect();
        if let Some(d) = compare(&Node::List(want), &Node::List(got), EXACT) {
            return Err(format!("{what}{d}"));
        }
    }
    Ok(())
}

fn attribute_queries(e: &Node, a: &[Attribute]) -> Result<(), String> {
    if e.list().len() != a.len() {
        return Err(format!("{} attributes are parsed as {}", e.list().len(), a.len()));
    }
    for (e, a) in e.list().iter().zip(a) {
        let path = e.at(&["tk_brackets", "path"]).unwrap().toks();
        let idents = path.iter().filter(|t| matches!(t.k, TK::Ident(_))).count();
        let got = a.get_single_path_segment().map(|i| tok(&TokenTree::Ident(i.clone())));
        let want = if idents == 1 {
            path.iter().find(|t| matches!(t.k, TK::Ident(_))).cloned()
        } else {
            None
        };
        if got != want {
            return Err(format!(
                "get_single_path_segment() of an attribute with path `{}` is {:?}",
                show(&path),
                got.map(|t| show(&[t]))
            ));
        }
        let value = e.at(&["tk_brackets", "value"]).unwrap();
        let want = match value.kind() {
            "Group" => match value.get("group") {
                Some(Node::Grp(_, _, inner)) => inner.toks(),
                _ => panic!("harness: attribute value"),
            },
            "Equals" => value.get("tokens").unwrap().toks(),
            _ => vec![],
        };
        for got in [a.get_value_tokens(), a.value.get_value_tokens()] {
            let got = toks_of(got);
            if got != want {
                return Err(format!(
                    "get_value_tokens(): expected `{}`, got `{}`",
                    show(&want),
                    show(&got)
                ));
            }
        }
    }
    Ok(())
}

fn field_attributes(e: &Node, f: &Fields) -> Result<(), String> {
    let (e, a): (&[Node], Vec<&Vec<Attribute>>) = match f {
        Fields::Unit => (&[], vec![]),
        Fields::Tuple(t) => (
            e.get("tk_parens").map_or(&[], |n| n.list()),
            t.fields.items().map(|f| &f.attributes).collect(),
        ),
        Fields::Named(t) => (
            e.get("tk_braces").map_or(&[], |n| n.list()),
            t.fields.items().map(|f| &f.attributes).collect(),
        ),
    };
    for (e, a) in e.iter().zip(a) {
        attribute_queries(e.get("attributes").unwrap(), a)?;
    }
    Ok(())
}

/// Whether venial calls the variant of this enum empty.
fn empty_shape(text: &str) -> bool {
    match super::parse(lex::lex(text)) {
        super::Parsed::Item(Item::Enum(x)) => x.variants.items().all(|v| v.is_empty_variant()),
        _ => false,
    }
}

fn c19(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let k = *s.pick(&[Kind::Struct, Kind::Struct, Kind::Enum, Kind::Enum, Kind::Union, Kind::Constant]);
    let cfg = Cfg {
        p_attr: 30,
        p_generics: 50,
        p_where: 10,
        depth: 2,
        ..Cfg::default()
    };
    let c = lex::item_kind(s, cfg, k);
    o.case(&c);
    let i = must_parse(c.stream.clone())?;
    attribute_queries(c.exp.get("attributes").unwrap(), i.attributes())?;
    match &i {
        Item::Struct(x) => {
            param_queries(
                &c.exp,
                x.get_lifetime_params().collect(),
                x.get_type_params().collect(),
                x.get_const_params().collect(),
            )?;
            let f = c.exp.get("fields").unwrap();
            field_attributes(f, &x.fields)?;
            let list: Vec<Node> = match f.kind() {
                "Tuple" => f.get("tk_parens").unwrap().list().to_vec(),
                "Named" => f.get("tk_braces").unwrap().list().to_vec(),
                _ => vec![],
            };
            if list.len() >= 10 {
                o.label("ten or more fields");
            }
            let names: Vec<String> = list
                .iter()
                .enumerate()
                .map(|(i, n)| n.get("name").map_or(i.to_string(), |n| n.text()))
                .collect();
            let got: Vec<String> = x.field_names().into_iter().collect();
            same_list("field_names()", &names, &got)?;
            let got: Vec<TokenTree> = x.field_tokens().into_iter().collect();
            let texts: Vec<String> = got.iter().map(|t| t.to_string()).collect();
            same_list("field_tokens()", &names, &texts)?;
            for (n, t) in list.iter().zip(&got) {
                match (n.get("name"), t) {
                    (Some(n), TokenTree::Ident(i)) => {
                        if n.toks()[0].sp != sp(i.span()) {
                            return Err(format!("field_tokens(): `{i}` has lost its span"));
                        }
                    }
                    (None, TokenTree::Literal(_)) => (),
                    (_, t) => return Err(format!("field_tokens(): `{t}` isn't a field access")),
                }
            }
            let want = Node::List(list.iter().map(|n| n.get("ty").unwrap().clone()).collect());
            let got = Node::List(x.field_types().into_iter().map(dump::ty).collect());
            if let Some(d) = compare(&want, &got, EXACT) {
                return Err(format!("field_types(){d}"));
            }
        }
        Item::Enum(x) => {
            param_queries(
                &c.exp,
                x.get_lifetime_params().collect(),
                x.get_type_params().collect(),
                x.get_const_params().collect(),
            )?;
            let list = c.exp.get("tk_braces").unwrap().list();
            if list.len() != x.variants.len() {
                return Err(format!("{} variants are parsed as {}", list.len(), x.variants.len()));
            }
            let mut all_unit = true;
            for (e, v) in list.iter().zip(x.variants.items()) {
                attribute_queries(e.get("attributes").unwrap(), &v.attributes)?;
                let f = e.get("fields").unwrap();
                field_attributes(f, &v.fields)?;
                let n = match f.kind() {
                    "Tuple" => f.get("tk_parens").unwrap().list().len(),
                    "Named" => f.get("tk_braces").unwrap().list().len(),
                    _ => 0,
                };
                let unit = f.kind() == "Unit";
                // whether `A()` and `A {}` are empty is not specified, but it goes by the shape alone
                let empty = match f.kind() {
                    "Tuple" if n == 0 => empty_shape("enum E { A() }"),
                    "Named" if n == 0 => empty_shape("enum E { A {} }"),
                    _ => unit,
                };
                all_unit &= empty;
                if v.is_empty_variant() != empty {
                    return Err(format!("is_empty_variant() of `{}` is {}", e.text(), !empty));
                }
                let want = match f.kind() {
                    "Tuple" if n == 1 => f.get("tk_parens").unwrap().list()[0].clone(),
                    _ => Node::None,
                };
                let got = v.get_single_type().map_or(Node::None, dump::tuple_field);
                if let Some(d) = compare(&want, &got, EXACT) {
                    return Err(format!("get_single_type() of `{}`{d}", e.text()));
                }
            }
            if x.is_c_enum() != all_unit {
                return Err(format!("is_c_enum() is {}", !all_unit));
            }
            o.label(if all_unit { "C enum" } else { "enum with data" });
        }
        Item::Union(x) => {
            param_queries(
                &c.exp,
                x.get_lifetime_params().collect(),
                x.get_type_params().collect(),
                x.get_const_params().collect(),
            )?;
        }
        Item::Constant(x) => {
            let want = c.exp.get("tk_const_or_static").unwrap().text() == "static";
            if x.is_static() != want {
                return Err(format!("is_static() is {}", !want));
            }
        }
        i => return Err(format!("a {k:?} is parsed as {}", kind_name(i))),
    }
    Ok(())
}

// --- C22

/// The same tokens in another layout.
fn relayout(ts: &[Tok], s: &mut Src, out: &mut String) {
    const WS: [&str; 6] = [" ", "\n", "\t ", " /* x */ ", " // y > z\n", "\r\n"];
    for t in ts {
        match &t.k {
            TK::Ident(i) => {
                out.push_str(i);
                out.push_str(WS[s.below(6) as usize]);
            }
            TK::Lit(l) => {
                out.push_str(l);
                out.push_str(WS[s.below(6) as usize]);
            }
            TK::Punct(c, joint) => {
                out.push(*c);
                // `'a` is one token; `/` and `#!` must not begin a comment or a shebang
                if !*joint {
                    out.push_str(WS[s.below(6) as usize]);
                }
            }
            TK::Group(d, inner) => {
                let (a, b) = match d {
                    '(' => ("(", ")"),
                    '[' => ("[", "]"),
                    '{' => ("{", "}"),
                    _ => ("", ""),
                };
                out.push_str(a);
                relayout(inner, s, out);
                out.push_str(b);
                if s.chance(50) {
                    out.push_str(WS[s.below(6) as usize]);
                }
            }
        }
    }
}

fn tree(ts: TokenStream, what: &str) -> Result<(Node, Item), String> {
    let i = must_parse(ts).map_err(|m| format!("{what}: {m}"))?;
    Ok((dump::item(&i), i))
}

fn c22(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let mut cfg = Cfg {
        big: 10,
        strict: true,
        unwrappable: true,
        ..Cfg::default()
    };
    if s.chance(50) {
        cfg.p_wrap = 15;
    }
    let mut g = crate::gen::G::new(s, cfg);
    let e = g.item();
    let (out, joint, wraps, labels) = (
        std::mem::take(&mut g.out),
        std::mem::take(&mut g.joint),
        std::mem::take(&mut g.wraps),
        std::mem::take(&mut g.labels),
    );
    let mut c: Case = lex::finish(out, e, joint, vec![], false);
    c.labels = labels;
    o.case(&c);
    let source = c.stream.clone();
    let (base, item) = tree(source.clone(), "from source")?;
    let m = s.below(5);
    match m {
        0 => {
            o.label("another layout");
            let mut text = String::new();
            relayout(&c.toks, s, &mut text);
            let ts = lex::lex(&text);
            if !same(&c.toks, &toks(ts.clone()), LOOSE) {
                std::panic::panic_any(crate::HarnessBug(format!("layout changes tokens: {text}")));
            }
            let (t, _) = tree(ts, "in another layout")?;
            if let Some(d) = compare(&base, &t, LOOSE) {
                return Err(format!("in another layout it parses differently: {}{d}\n{text}", base.kind()));
            }
        }
        1 => {
            o.label("other spacing");
            let ts = lex::respace(source, &c.joint, s);
            let (t, _) = tree(ts, "with other punct spacing")?;
            if let Some(d) = compare(&base, &t, LOOSE) {
                return Err(format!("with other punct spacing it parses differently: {}{d}", base.kind()));
            }
        }
        2 => {
            o.label("quote! spacing");
            let ts = lex::quote_spacing(source, &c.joint);
            let (t, _) = tree(ts, "with quote! spacing")?;
            if let Some(d) = compare(&base, &t, LOOSE) {
                return Err(format!("with quote! spacing it parses differently: {}{d}", base.kind()));
            }
        }
        3 => {
            o.label(if wraps.is_empty() { "no invisible groups" } else { "invisible groups" });
            let ts = lex::wrap(source, &wraps);
            let (t, i) = tree(ts, "with invisible groups")?;
            if let Some(d) = compare(&base, &t, FLAT) {
                return Err(format!("with invisible groups it parses differently: {}{d}", base.kind()));
            }
            let out = toks(i.to_token_stream());
            if !same(&c.toks, &out, FLAT) {
                return Err(format!("with invisible groups it prints as `{}`", show(&norm(&out, FLAT))));
            }
        }
        _ => {
            o.label("printed as text and lexed again");
            let text = item.to_token_stream().to_string();
            let Ok(ts) = TokenStream::from_str(&text) else {
                return Err(format!("the printed item doesn't lex: {text}"));
            };
            let (t, _) = tree(ts, "printed as text and lexed again")?;
            if let Some(d) = compare(&base, &t, LOOSE) {
                return Err(format!(
                    "printed as text and lexed again it parses differently: {}{d}\n{text}",
                    base.kind()
                ));
            }
        }
    }
    Ok(())
}

// --- C23

fn braces(ts: TokenStream) -> TokenTree {
    TokenTree::Group(Group::new(Delimiter::Brace, ts))
}

fn c23(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let cfg = Cfg {
        big: 8,
        depth: 2,
        ..Cfg::default()
    };
    // where it goes
    let block = s.chance(50);
    let kind = if block {
        *s.pick(&[Kind::Function, Kind::Constant, Kind::TypeAlias, Kind::Macro])
    } else {
        *s.pick(&ALL_KINDS)
    };
    let place = s.below(3);
    let ctx = match (block, place) {
        (false, _) => Ctx::Top,
        (_, 0) => Ctx::Impl,
        (_, 1) => Ctx::Trait,
        _ => Ctx::Extern,
    };
    // the item and its neighbours
    let before = s.below(3) as usize;
    let after = s.below(3) as usize;
    let c = lex::make(s, cfg, |g| {
        let mut v = Vec::new();
        for k in 0..before + 1 + after {
            let kk = if k == before {
                kind
            } else if block {
                *g.s.pick(&[Kind::Function, Kind::Constant, Kind::TypeAlias, Kind::Macro])
            } else {
                *g.s.pick(&ALL_KINDS)
            };
            v.push(g.item_of(kk, ctx, 4, 0));
        }
        E::List(v)
    });
    o.case(&c);
    let exp = &c.exp.list()[before];
    o.label(exp.kind());
    // standalone
    let own: Vec<Tok> = crate::node::print(exp);
    let (lo, hi) = (own[0].sp.0, own.last().unwrap().sp.1);
    let alone: TokenStream = c
        .stream
        .clone()
        .into_iter()
        .filter(|t| sp(t.span()).0 >= lo && sp(t.span()).1 <= hi)
        .collect();
    let (base, _) = tree(alone, "on its own")?;
    // in place
    let inside = c.stream.clone();
    let (whole, what) = if block {
        let b = braces(inside);
        match place {
            0 => (quote!(impl A #b), "an impl"),
            1 => (quote!(trait A #b), "a trait"),
            _ => (quote!(extern "C" #b), "an extern block"),
        }
    } else {
        let mut ts = inside;
        let depth = 1 + s.below(4);
        for _ in 0..depth {
            let b = braces(ts);
            ts = quote!(mod m #b);
        }
        (ts, "a module")
    };
    o.label(what);
    let whole = must_parse(whole).map_err(|m| format!("in {what}: {m}"))?;
    let mut m: &Item = &whole;
    let got = match m {
        Item::Module(_) => {
            while let Item::Module(x) = m {
                if x.name == "m" && x.members.len() == 1 && sp(x.name.span()) == sp(Span::call_site()) {
                    if let Item::Module(y) = &x.members[0] {
                        if sp(y.name.span()) == sp(Span::call_site()) {
                            m = &x.members[0];
                            continue;
                        }
                    }
                }
                break;
            }
            let Item::Module(x) = m else { unreachable!() };
            if x.members.len() != before + 1 + after {
                return Err(format!("{} items in {what} are parsed as {}", before + 1 + after, x.members.len()));
            }
            dump::item(&x.members[before])
        }
        Item::Impl(Impl { body_items, .. }) | Item::ExternBlock(ExternBlock { body_items, .. }) => {
            if body_items.len() != before + 1 + after {
                return Err(format!("{} items in {what} are parsed as {}", before + 1 + after, body_items.len()));
            }
            dump::impl_member(&body_items[before]).get("it").cloned().unwrap_or(Node::None)
        }
        Item::Trait(t) => {
            if t.body_items.len() != before + 1 + after {
                return Err(format!("{} items in {what} are parsed as {}", before + 1 + after, t.body_items.len()));
            }
            dump::trait_member(&t.body_items[before]).get("it").cloned().unwrap_or(Node::None)
        }
        i => return Err(format!("{what} is parsed as {}", kind_name(i))),
    };
    if let Some(d) = compare(&base, &got, EXACT) {
        return Err(format!("in {what} it is parsed differently than on its own: {}{d}", base.kind()));
    }
    Ok(())
}
