//! C01 to C10 and C12: parsing generated items against the tree the generator built.

use super::{guard, must_parse, parse, Parsed};
use crate::dump;
use crate::engine::{Obs, Prop};
use crate::gen::{Cfg, Ctx, Kind, G};
use crate::lex::{self, Case};
use crate::node::{compare, punctuated, rec, Node, E};
use crate::tape::Src;
use crate::tok::{first_diff, norm, same, show, sp, toks, toks_of, Sp, Tok, CONTENT, EXACT, TK};
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use venial::{Item, Fields};

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C01",
        rule: "random items of all 13 kinds from a grammar of the supported syntax, lexed from source text in varying layouts, with source or quote! spacing, with and without invisible groups; parse, print, compare token for token with the input; in a third of the cases every part is printed on its own and after other tokens too and compared with its fields. Non-trivial: at least 8 tokens.",
        quick: 280_000,
        thorough: 8_400_000,
        run: c01,
    });
    v.push(Prop {
        id: "C02",
        rule: "random items of all kinds lexed from source text; every printed token has to have the span of its input token (groups: both delimiters too), and span() of every part has to cover exactly its first to last token. Non-trivial: at least 8 tokens.",
        quick: 360_000,
        thorough: 6_000_000,
        run: c02,
    });
    v.push(Prop {
        id: "C03",
        rule: "random items, the 13 kinds equally likely, in varying layouts and transports; each has to be accepted as its kind. Non-trivial: at least 8 tokens.",
        quick: 700_000,
        thorough: 13_500_000,
        run: c03,
    });
    v.push(Prop {
        id: "C04",
        rule: "random structs, enums and unions; the parsed tree is compared part by part with the tree built by the generator. Non-trivial: at least 8 tokens.",
        quick: 600_000,
        thorough: 12_000_000,
        run: c04,
    });
    v.push(Prop {
        id: "C05",
        rule: "random structs, enums, unions, functions, traits and impls with generic params and where clauses; parsed tree against generated tree. Non-trivial: at least 8 tokens.",
        quick: 300_000,
        thorough: 9_000_000,
        run: c05,
    });
    v.push(Prop {
        id: "C06",
        rule: "random functions, free and in impl, trait and extern blocks; parsed tree against generated tree. Non-trivial: at least 8 tokens.",
        quick: 400_000,
        thorough: 8_400_000,
        run: c06,
    });
    v.push(Prop {
        id: "C07",
        rule: "random impls, traits, extern blocks and (nested) modules with members; parsed tree against generated tree. Non-trivial: at least 8 tokens.",
        quick: 300_000,
        thorough: 6_000_000,
        run: c07,
    });
    v.push(Prop {
        id: "C08",
        rule: "random constants, statics, type aliases, use declarations, macros and extern crates, at top level and as members; parsed tree against generated tree. Non-trivial: at least 8 tokens.",
        quick: 1_000_000,
        thorough: 30_000_000,
        run: c08,
    });
    v.push(Prop {
        id: "C09",
        rule: "random items of all kinds in which attributes, doc comments and visibility markers are frequent; parsed tree against generated tree. Non-trivial: at least 8 tokens.",
        quick: 400_000,
        thorough: 12_000_000,
        run: c09,
    });
    v.push(Prop {
        id: "C10",
        rule: "sequences of 1 to 5 random items with or without a tail of arbitrary tokens, consumed one by one; each result and each rest of the stream is compared with what was generated, and parse_item on the sequence has to panic unless it is a single item; sometimes again with an invisible group behind. Non-trivial: at least 8 tokens.",
        quick: 200_000,
        thorough: 3_600_000,
        run: c10,
    });
    v.push(Prop {
        id: "C12",
        rule: "random enums with discriminants, at top level and nested in modules to depth 45 after up to 80 other members, with zero or more complex discriminants; Ok exactly if all are single tokens, otherwise an Error with a span inside of the first complex one. Non-trivial: at least 8 tokens.",
        quick: 220_000,
        thorough: 6_600_000,
        run: c12,
    });
}

pub fn printed(i: &Item) -> Vec<Tok> {
    toks(i.to_token_stream())
}

fn c01(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let c = lex::item(s, Cfg::default());
    o.case(&c);
    let i = must_parse(c.stream.clone())?;
    let out = printed(&i);
    if !same(&c.toks, &out, CONTENT) {
        return Err(format!(
            "printing the parsed item doesn't give back its tokens: {}\nprinted: {}",
            first_diff(&c.toks, &out, CONTENT),
            show(&out)
        ));
    }
    if s.below(3) == 0 {
        super::parts::item(&i)?;
    }
    Ok(())
}

/// First to last token.
fn cover(t: &[Tok]) -> Option<Sp> {
    Some((t.first()?.sp.0, t.last()?.sp.1))
}

pub fn check_span(what: &str, got: proc_macro2::Span, t: TokenStream) -> Result<(), String> {
    let t = toks(t);
    if let Some(want) = cover(&t) {
        let got = sp(got);
        if got != want {
            return Err(format!(
                "span() of {what} `{}` is {got:?}, its tokens cover {want:?}",
                show(&t)
            ));
        }
    }
    Ok(())
}

macro_rules! chk {
    ($what:expr, $x:expr) => {
        check_span($what, $x.span(), $x.to_token_stream())?
    };
}

fn spans_attr(a: &[venial::Attribute]) -> Result<(), String> {
    for a in a {
        chk!("attribute", a);
        chk!("attribute value", a.value);
    }
    Ok(())
}

fn spans_generics(
    g: &Option<venial::GenericParamList>,
    w: &Option<venial::WhereClause>,
) -> Result<(), String> {
    if let Some(g) = g {
        chk!("generic params", g);
        for p in g.params.items() {
            chk!("generic param", p);
            if let Some(b) = &p.bound {
                chk!("generic bound", b);
            }
        }
    }
    if let Some(w) = w {
        chk!("where clause", w);
        for p in w.items.items() {
            chk!("where predicate", p);
            chk!("where bound", p.bound);
        }
    }
    Ok(())
}

fn spans_vis(v: &Option<venial::VisMarker>) -> Result<(), String> {
    if let Some(v) = v {
        chk!("visibility", v);
    }
    Ok(())
}

fn spans_fields(f: &Fields) -> Result<(), String> {
    chk!("fields", f);
    match f {
        Fields::Unit => (),
        Fields::Tuple(t) => {
            for f in t.fields.items() {
                chk!("tuple field", f);
                chk!("type", f.ty);
                spans_attr(&f.attributes)?;
                spans_vis(&f.vis_marker)?;
            }
        }
        Fields::Named(n) => {
            for f in n.fields.items() {
                chk!("named field", f);
                chk!("type", f.ty);
                spans_attr(&f.attributes)?;
                spans_vis(&f.vis_marker)?;
            }
        }
    }
    Ok(())
}

fn spans_fn(f: &venial::Function) -> Result<(), String> {
    chk!("function", f);
    spans_attr(&f.attributes)?;
    spans_vis(&f.vis_marker)?;
    spans_generics(&f.generic_params, &f.where_clause)?;
    if let Some(t) = &f.return_ty {
        chk!("return type", t);
    }
    for p in f.params.items() {
        match p {
            venial::FnParam::Receiver(r) => spans_attr(&r.attributes)?,
            venial::FnParam::Typed(t) => {
                spans_attr(&t.attributes)?;
                chk!("param type", t.ty);
            }
        }
    }
    Ok(())
}

fn spans_member(m: &venial::ImplMember) -> Result<(), String> {
    if let venial::ImplMember::AssocFunction(f) = m {
        spans_fn(f)?;
    }
    Ok(())
}

fn spans_item(i: &Item) -> Result<(), String> {
    chk!("item", i);
    spans_attr(i.attributes())?;
    match i {
        Item::Struct(x) => {
            chk!("struct", x);
            spans_vis(&x.vis_marker)?;
            spans_generics(&x.generic_params, &x.where_clause)?;
            spans_fields(&x.fields)?;
        }
        Item::Enum(x) => {
            chk!("enum", x);
            spans_vis(&x.vis_marker)?;
            spans_generics(&x.generic_params, &x.where_clause)?;
            for v in x.variants.items() {
                chk!("enum variant", v);
                spans_attr(&v.attributes)?;
                spans_fields(&v.fields)?;
                if let Some(v) = &v.value {
                    chk!("enum variant value", v);
                }
            }
        }
        Item::Union(x) => {
            chk!("union", x);
            spans_vis(&x.vis_marker)?;
            spans_generics(&x.generic_params, &x.where_clause)?;
        }
        Item::Function(f) => spans_fn(f)?,
        Item::Module(m) => {
            spans_attr(&m.inner_attributes)?;
            for i in &m.members {
                spans_item(i)?;
            }
        }
        Item::Impl(x) => {
            spans_generics(&x.impl_generic_params, &x.where_clause)?;
            spans_attr(&x.inner_attributes)?;
            chk!("self type", x.self_ty);
            if let Some(t) = &x.trait_ty {
                chk!("trait", t);
            }
            for m in &x.body_items {
                spans_member(m)?;
            }
        }
        Item::ExternBlock(x) => {
            spans_attr(&x.inner_attributes)?;
            for m in &x.body_items {
                spans_member(m)?;
            }
        }
        Item::Trait(x) => {
            spans_generics(&x.generic_params, &x.where_clause)?;
            spans_attr(&x.inner_attributes)?;
            for m in &x.body_items {
                if let venial::TraitMember::AssocFunction(f) = m {
                    spans_fn(f)?;
                }
            }
        }
        Item::Constant(x) => {
            spans_vis(&x.vis_marker)?;
            chk!("type", x.ty);
        }
        _ => (),
    }
    Ok(())
}

fn c02(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let c = lex::item(s, Cfg::default());
    o.case(&c);
    let i = must_parse(c.stream.clone())?;
    let out = printed(&i);
    if !same(&c.toks, &out, EXACT) {
        return Err(format!(
            "tokens or spans changed: {}",
            first_diff(&c.toks, &out, EXACT)
        ));
    }
    spans_item(&i)
}

pub fn kind_name(i: &Item) -> &'static str {
    match i {
        Item::Struct(_) => "Struct",
        Item::Enum(_) => "Enum",
        Item::Union(_) => "Union",
        Item::Module(_) => "Module",
        Item::Trait(_) => "Trait",
        Item::Impl(_) => "Impl",
        Item::TypeAlias(_) => "TypeAlias",
        Item::Function(_) => "Function",
        Item::Constant(_) => "Constant",
        Item::UseDeclaration(_) => "UseDeclaration",
        Item::Macro(_) => "Macro",
        Item::ExternBlock(_) => "ExternBlock",
        Item::ExternCrate(_) => "ExternCrate",
        _ => "unknown",
    }
}

fn c03(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let cfg = Cfg {
        kinds: [2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2],
        big: 12,
        ..Cfg::default()
    };
    let c = lex::item(s, cfg);
    o.case(&c);
    o.label(c.exp.kind());
    let i = must_parse(c.stream.clone())?;
    if kind_name(&i) != c.exp.kind() {
        return Err(format!(
            "a {} is parsed as {}",
            c.exp.kind(),
            kind_name(&i)
        ));
    }
    kinds_of_members(&c.exp, &dump::item(&i))
}

fn kinds_of_members(e: &Node, g: &Node) -> Result<(), String> {
    let get = |n: &Node| -> Vec<&'static str> {
        n.at(&["tk_braces", "members"])
            .map(|m| m.list().iter().map(|x| x.kind()).collect())
            .unwrap_or_default()
    };
    if matches!(e.kind(), "Module" | "Impl" | "Trait" | "ExternBlock") {
        let (a, b) = (get(e), get(g));
        if a != b {
            return Err(format!("members {a:?} are parsed as {b:?}"));
        }
        if e.kind() == "Module" {
            let (a, b) = (e.at(&["tk_braces", "members"]), g.at(&["tk_braces", "members"]));
            if let (Some(a), Some(b)) = (a, b) {
                for (x, y) in a.list().iter().zip(b.list()) {
                    kinds_of_members(x, y)?;
                }
            }
        }
    }
    Ok(())
}

/// The tree has to be exactly the generated one, with the very tokens of the input.
pub fn same_tree(c: &Case) -> Result<Item, String> {
    let i = must_parse(c.stream.clone())?;
    match compare(&c.exp, &dump::item(&i), EXACT) {
        None => Ok(i),
        Some(d) => Err(format!("{}{d}", c.exp.kind())),
    }
}

fn c04(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let cfg = Cfg {
        kinds: [5, 5, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
        p_generics: 20,
        p_where: 15,
        p_attr: 15,
        ..Cfg::default()
    };
    let c = lex::item(s, cfg);
    o.case(&c);
    same_tree(&c).map(|_| ())
}

fn c05(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let cfg = Cfg {
        kinds: [4, 3, 2, 4, 3, 3, 0, 0, 0, 0, 0, 0, 0],
        p_generics: 80,
        p_where: 75,
        p_attr: 5,
        p_vis: 10,
        ..Cfg::default()
    };
    let c = lex::item(s, cfg);
    o.case(&c);
    same_tree(&c).map(|_| ())
}

fn c06(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let cfg = Cfg {
        kinds: [0, 0, 0, 10, 3, 3, 0, 0, 0, 0, 0, 2, 0],
        ..Cfg::default()
    };
    let c = lex::item(s, cfg);
    o.case(&c);
    same_tree(&c).map(|_| ())
}

fn c07(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let cfg = Cfg {
        kinds: [1, 1, 1, 1, 6, 6, 8, 1, 1, 1, 1, 5, 1],
        p_generics: 25,
        ..Cfg::default()
    };
    let c = lex::make(s, cfg, |g| {
        let k = *g.s.pick(&[Kind::Impl, Kind::Trait, Kind::ExternBlock, Kind::Module, Kind::Module]);
        g.item_of(k, Ctx::Top, 0, 0)
    });
    o.case(&c);
    same_tree(&c).map(|_| ())
}

fn c08(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let cfg = Cfg {
        kinds: [0, 0, 0, 0, 1, 1, 1, 8, 6, 4, 5, 1, 3],
        depth: 4,
        ..Cfg::default()
    };
    let c = lex::item(s, cfg);
    o.case(&c);
    same_tree(&c).map(|_| ())
}

fn c09(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let cfg = Cfg {
        p_attr: 60,
        p_vis: 65,
        p_generics: 10,
        p_where: 10,
        big: 6,
        depth: 2,
        ..Cfg::default()
    };
    let c = lex::item(s, cfg);
    o.case(&c);
    same_tree(&c).map(|_| ())
}

fn c10(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let n = 1 + s.below(5) as usize;
    let tail = s.chance(40);
    let cfg = Cfg {
        big: if s.chance(25) { 1 } else { 6 },
        depth: 2,
        ..Cfg::default()
    };
    let mut has_tail = false;
    let c = lex::make(s, cfg, |g| {
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(g.item());
        }
        if tail {
            let (r, _) = g.span(|g| {
                // what might be taken for a part of the item
                const TAILS: [&[&str]; 12] = [
                    &[";"],
                    &[";", ";"],
                    &[","],
                    &["=", "1", ";"],
                    &["{", "}"],
                    &["(", ")", ";"],
                    &["where", "T", ":", "A", ";"],
                    &["where", "{", "}"],
                    &["as", "b", ";"],
                    &["->", "T", ";"],
                    &["for", "T", "{", "}"],
                    &["!", "{", "}"],
                ];
                if g.s.chance(50) {
                    for t in *g.s.pick(&TAILS) {
                        g.t(t);
                    }
                }
                if g.s.chance(50) {
                    g.soup(1)
                }
            });
            has_tail = r.is_some();
        }
        E::List(v)
    });
    o.case(&c);
    o.label(if has_tail { "with tail" } else { "without tail" });
    let items = match &c.exp {
        Node::List(l) => l.clone(),
        _ => unreachable!(),
    };
    // parse_item refuses leftovers
    match parse(c.stream.clone()) {
        Parsed::Panic(_) if n > 1 || has_tail => (),
        Parsed::Item(_) if n == 1 && !has_tail => (),
        Parsed::Item(i) => {
            return Err(format!(
                "parse_item accepts a stream with leftover tokens as {}",
                kind_name(&i)
            ))
        }
        Parsed::Err(e) => return Err(format!("supported items are rejected with an error: {e}")),
        Parsed::Panic(m) => return Err(format!("a supported item is rejected with a panic: {m}")),
    }
    let mut iter = c.stream.clone().into_iter().peekable();
    let mut eaten = 0usize;
    for (k, want) in items.iter().enumerate() {
        let got = match guard(|| venial::consume_item(&mut iter)) {
            Ok(Ok(i)) => i,
            Ok(Err(e)) => return Err(format!("item {k} is rejected with an error: {e}")),
            Err(m) => return Err(format!("item {k} is rejected with a panic: {m}")),
        };
        if let Some(d) = compare(want, &dump::item(&got), EXACT) {
            return Err(format!("item {k}: {}{d}", want.kind()));
        }
        eaten += printed(&got).len();
        let rest: Vec<TokenTree> = iter.clone().collect();
        let rest = toks_of(&rest);
        let end = crate::node::print(want).last().map(|t| t.sp.1).unwrap_or(0);
        let want_rest: Vec<Tok> = c.toks.iter().filter(|t| t.sp.0 >= end).cloned().collect();
        if rest != want_rest {
            return Err(format!(
                "after item {k} the stream has to continue with `{}`, but it continues with `{}`",
                show(&want_rest),
                show(&rest)
            ));
        }
    }
    let _ = eaten;
    // an invisible group is a token as well
    if s.chance(15) {
        o.label("followed by an invisible group");
        let inner = match s.below(4) {
            0 | 1 => TokenStream::new(),
            2 => lex::lex(";"),
            _ => c.stream.clone(),
        };
        let group = TokenTree::Group(proc_macro2::Group::new(proc_macro2::Delimiter::None, inner));
        o.text.push_str(" <invisible group>");
        let mut stream = c.stream.clone();
        stream.extend([group]);
        if let Parsed::Item(_) | Parsed::Err(_) = parse(stream.clone()) {
            return Err("parse_item ignores an invisible group after the item".into());
        }
        let all: Vec<TokenTree> = stream.clone().into_iter().collect();
        let mut iter = stream.into_iter().peekable();
        for (k, want) in items.iter().enumerate() {
            match guard(|| venial::consume_item(&mut iter)) {
                Ok(Ok(i)) => {
                    if let Some(d) = compare(want, &dump::item(&i), EXACT) {
                        return Err(format!("with an invisible group at the end, item {k}: {}{d}", want.kind()));
                    }
                }
                _ => return Err(format!("with an invisible group at the end, item {k} is rejected")),
            }
        }
        let rest: Vec<TokenTree> = iter.collect();
        let end = items.last().and_then(|x| crate::node::print(x).last().map(|t| t.sp.1)).unwrap_or(0);
        let eaten = c.toks.iter().filter(|t| t.sp.0 < end).count();
        if toks_of(&rest) != toks_of(&all[eaten..]) {
            return Err(format!("with an invisible group at the end, the rest is `{}`", show(&toks_of(&rest))));
        }
    }
    Ok(())
}

fn c12(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let complex = if s.chance(30) { 0 } else { 30 };
    let mut depth = s.weighted(&[50, 25, 12, 8, 5]) as u32;
    if depth == 4 && s.below(8) == 7 {
        depth = 5 + s.below(40);
    }
    let cfg = Cfg {
        kinds: [1, 8, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1],
        p_discr: 60,
        big: 10,
        depth: 2,
        ..Cfg::default()
    };
    let c = lex::make(s, cfg, |g| nested(g, depth, complex));
    o.case(&c);
    o.label(if c.complex.is_empty() {
        "simple discriminants only"
    } else if depth == 0 {
        "complex discriminant"
    } else {
        "complex discriminant inside of a module"
    });
    match parse(c.stream.clone()) {
        Parsed::Panic(m) => Err(format!("parsing panics: {m}")),
        Parsed::Item(i) => {
            if let Some(r) = c.complex.first() {
                return Err(format!(
                    "the complex discriminant `{}` is accepted",
                    &c.text[r.0..r.1]
                ));
            }
            match compare(&c.exp, &dump::item(&i), EXACT) {
                None => Ok(()),
                Some(d) => Err(format!("{}{d}", c.exp.kind())),
            }
        }
        Parsed::Err(e) => {
            let Some(_) = c.complex.first() else {
                return Err(format!("rejected although every discriminant is a single token: {e}"));
            };
            let got = sp(e.span());
            if !c.complex.iter().any(|r| got.0 >= r.0 && got.1 <= r.1 && got.1 > got.0) {
                return Err(format!(
                    "the error points at {got:?} (`{}`), the complex discriminants are at {:?}",
                    c.text.get(got.0..got.1).unwrap_or("?"),
                    c.complex
                ));
            }
            if e.to_string().trim().is_empty() {
                return Err("the error has no message".into());
            }
            let ts = toks(e.to_compile_error());
            if !matches!(ts.first().map(|t| &t.k), Some(TK::Ident(i)) if i == "compile_error") {
                return Err(format!("the error renders as `{}`", show(&norm(&ts, CONTENT))));
            }
            Ok(())
        }
    }
}

/// An enum inside of `depth` modules, with other items around it.
fn nested(g: &mut G, depth: u32, complex: u32) -> E {
    if depth == 0 {
        return g.item_of(Kind::Enum, Ctx::Top, 0, complex);
    }
    let attributes = g.attributes(false);
    let vis = g.vis();
    let us = if g.s.chance(20) { Some(g.t("unsafe")) } else { None };
    let tk = g.t("mod");
    let name = g.ident();
    let (r, b) = g.group('{', |g| {
        let inner = g.attributes(true);
        let mut members = Vec::new();
        let before = if g.s.below(40) == 39 { g.s.below(80) } else { g.s.below(3) };
        for _ in 0..before {
            let m = g.item_in(Ctx::Mod, 4, 0);
            members.push(m);
        }
        let m = nested(g, depth - 1, complex);
        members.push(m);
        let after = g.s.below(3);
        for _ in 0..after {
            let m = g.item_in(Ctx::Mod, 4, complex);
            members.push(m);
        }
        rec(
            "Body",
            vec![("inner_attributes", inner), ("members", E::List(members))],
        )
    });
    let _ = punctuated;
    rec(
        "Module",
        vec![
            ("attributes", attributes),
            ("vis_marker", vis),
            ("tk_unsafe", crate::node::opt(us)),
            ("tk_mod", E::T(tk)),
            ("name", E::T(name)),
            ("tk_semicolon", E::None),
            ("tk_braces", E::Grp('{', r, Box::new(b))),
        ],
    )
}
