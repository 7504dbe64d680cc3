//! C24: broken items are rejected.

use super::{parse, Parsed};
use crate::engine::{Obs, Prop};
use crate::gen::{Cfg, Ctx, ALL_KINDS, G};
use crate::node::{E, R};
use crate::tape::Src;
use proc_macro2::TokenStream;
use std::collections::BTreeMap;
use std::str::FromStr;

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C24",
        rule: "a random item is broken in one place, at any level of nesting: a required token (keyword, name, colon, arrow, bracket, semicolon, body, type) is deleted or replaced by another, a group gets the wrong delimiters, a separator is doubled or missing, a parameter name is replaced by another pattern, a qualifier, visibility, keyword or attribute is doubled or misplaced, a member is put where it isn't allowed. The result has to be rejected. Non-trivial: at least 8 tokens.",
        quick: 900_000,
        thorough: 12_000_000,
        run: c24,
    });
}

type Fields = [(&'static str, E)];

/// Replace `.0 .. .1` of the text.
type Edit = (usize, usize, String);

struct W<'a> {
    text: &'a str,
    out: BTreeMap<&'static str, Vec<Vec<Edit>>>,
    /// Picks among variants of an edit.
    pick: u32,
}

fn get<'e>(f: &'e Fields, name: &str) -> Option<&'e E> {
    match f.iter().find(|x| x.0 == name).map(|x| &x.1) {
        Some(E::None) | None => None,
        e => e,
    }
}

fn start(e: &E) -> Option<usize> {
    match e {
        E::Rec(_, f) => f.iter().filter_map(|x| start(&x.1)).min(),
        E::List(l) => l.iter().filter_map(start).min(),
        E::Grp(_, r, _) | E::T(r) | E::Doc(r, _) => Some(r.0),
        _ => None,
    }
}

fn range(e: &E) -> Option<R> {
    match e {
        E::T(r) | E::Grp(_, r, _) => Some(*r),
        _ => None,
    }
}

/// Start of what comes after the attributes.
fn after_attributes(f: &Fields) -> Option<usize> {
    f.iter().filter(|x| x.0 != "attributes").filter_map(|x| start(&x.1)).min()
}

fn attributes(f: &Fields) -> &[E] {
    match get(f, "attributes") {
        Some(E::List(l)) => l,
        _ => &[],
    }
}

fn punctuated(e: &E) -> (&[E], Vec<R>) {
    match e {
        E::Rec("Punctuated", f) => match (&f[0].1, &f[1].1) {
            (E::List(items), E::List(commas)) => (items, commas.iter().filter_map(range).collect()),
            _ => (&[], vec![]),
        },
        _ => (&[], vec![]),
    }
}

impl W<'_> {
    fn at(&self, r: R) -> &str {
        &self.text[r.0..r.1]
    }

    fn put(&mut self, what: &'static str, edits: Vec<Edit>) {
        self.out.entry(what).or_default().push(edits);
    }

    fn delete(&mut self, what: &'static str, r: R) {
        self.put(what, vec![(r.0, r.1, " ".into())]);
        // another punctuation token in its place
        let t = self.at(r).to_string();
        if t.len() == 1 && t.chars().all(|c| c.is_ascii_punctuation()) {
            let n = self.choose(&[",", ":", ";", "=", "!", "+", "?", ".", "&", "@", "~", "<", ">", "|"]);
            // A `!` may be a type; `<T, U>`, `<T = U>`, `type A: B`, `A, B` (variants) and `type A; b!();` are fine.
            let fine = match (&t[..], n) {
                _ if n == t => true,
                ("!", _) => what.contains("type"),
                (":", "," | "=" | ";") => what.contains("bound"),
                ("=", ":" | "," | ";") => true,
                (";", "=" | ":") => true,
                (":" | ";" | "=" | "#", _) => false,
                _ => true,
            };
            if !fine {
                self.put("another punctuation token", vec![(r.0, r.1, format!(" {n} "))]);
            }
        }
    }

    fn insert(&mut self, what: &'static str, at: usize, t: &str) {
        self.put(what, vec![(at, at, format!(" {t} "))]);
    }

    /// `pub[crate]`
    fn vis(&mut self, f: &Fields) {
        let Some(E::Rec("VisMarker", v)) = get(f, "vis_marker") else { return };
        if let Some(r) = get(v, "tk_token2").and_then(range) {
            let c = self.other('[', '{');
            self.delim("visibility in other delimiters", r, c);
        }
    }

    /// Delimiters of a group.
    fn delim(&mut self, what: &'static str, r: R, to: char) {
        let close = match to {
            '(' => ')',
            '[' => ']',
            _ => '}',
        };
        self.put(what, vec![(r.0, r.0 + 1, to.to_string()), (r.1 - 1, r.1, close.to_string())]);
    }

    fn other(&mut self, a: char, b: char) -> char {
        self.pick = self.pick.wrapping_mul(1_103_515_245).wrapping_add(12345);
        if self.pick & 0x1_0000 == 0 {
            a
        } else {
            b
        }
    }

    fn choose(&mut self, from: &[&'static str]) -> &'static str {
        self.pick = self.pick.wrapping_mul(1_103_515_245).wrapping_add(12345);
        from[(self.pick >> 16) as usize % from.len()]
    }

    fn where_clause(&mut self, e: Option<&E>) {
        let Some(E::Rec("WhereClause", f)) = e else { return };
        let Some(p) = get(f, "items") else { return };
        let (items, _) = punctuated(p);
        if let Some(i) = items.last() {
            let E::Rec(_, f) = i else { return };
            let Some(E::Rec(_, b)) = get(f, "bound") else { return };
            let tokens = match get(b, "tokens") {
                Some(E::T(r)) => self.at(*r).to_string(),
                _ => String::new(),
            };
            if let Some(c) = get(b, "tk_colon").and_then(range) {
                if !tokens.contains(':') {
                    self.delete("where predicate without its colon", c);
                }
            }
        }
    }

    /// Attributes of anything; `in_type`: what follows is a type, which any tokens may start.
    fn attrs(&mut self, f: &Fields, in_type: bool) {
        let l = attributes(f);
        for a in l {
            self.attr(a, in_type);
        }
        if !l.is_empty() {
            if let Some(p) = after_attributes(f) {
                self.insert("inner attribute after outer ones", p, "#![zz]");
            }
        }
    }

    fn attr(&mut self, a: &E, in_type: bool) {
        let E::Rec("Attribute", f) = a else { return };
        let Some(E::Grp(_, r, inside)) = get(f, "tk_brackets") else { return };
        let c = self.other('(', '{');
        self.delim("attribute in other delimiters", *r, c);
        if !in_type {
            self.delete("attribute without its brackets", *r);
        }
        if let Some(E::T(h)) = get(f, "tk_hash") {
            self.insert("doubled `#`", h.0, "#");
        }
        if let (Some(E::T(h)), false) = (get(f, "tk_hash"), in_type) {
            self.delete("attribute without its `#`", *h);
        }
        if let E::Rec(_, f) = &**inside {
            if let Some(p) = get(f, "path").and_then(range) {
                self.put("literal for an attribute path", vec![(p.0, p.1, " \"lit\" ".into())]);
                let t = self.choose(&["+", "!", ".", ",", "?", "&", "<", "-", "'", "@", "1", "\"a\""]);
                self.insert("punctuation or literal in an attribute path", p.1, t);
            }
            let wrapped = get(f, "path").and_then(range).is_none();
            if let (Some(E::Rec("Group", _)), false) = (get(f, "value"), wrapped) {
                self.insert("tokens after the value of an attribute", r.1 - 1, "zz");
            }
        }
    }

    fn inner_attrs(&mut self, f: &Fields) {
        if let Some(E::List(l)) = get(f, "inner_attributes") {
            for a in l {
                self.attr(a, false);
            }
        }
    }

    /// Doubled and leading commas; dangling attribute.
    fn list(&mut self, g: &E) {
        let Some(r) = range(g) else { return };
        let E::Grp(_, _, inner) = g else { return };
        let (items, commas) = punctuated(inner);
        for c in &commas {
            self.insert("doubled comma", c.1, ",");
        }
        self.insert("leading comma", r.0 + 1, ",");
        let closed = items.len() == commas.len();
        let variants = matches!(items.first(), Some(E::Rec("EnumVariant", _)));
        for (n, c) in commas.iter().enumerate() {
            if variants || matches!(items.get(n), Some(E::Rec("Receiver", _))) {
                let x = self.choose(&[";", "!", "+", ".", "&", "|", "/", "?"]);
                self.put("another token in place of a comma", vec![(c.0, c.1, format!(" {x} "))]);
            }
        }
        if closed || variants {
            self.insert("dangling attribute", r.1 - 1, "#[zz]");
        }
    }

    fn named_fields(&mut self, g: &E) {
        self.list(g);
        let E::Grp(_, _, inner) = g else { return };
        let (items, _) = punctuated(inner);
        for i in items {
            let E::Rec("NamedField", f) = i else { continue };
            self.attrs(f, false);
            self.name(f, "field without a name");
            self.vis(f);
            self.colon(f, "field without its colon");
            self.no_type(f, "field without a type");
            if let Some(p) = after_attributes(f) {
                self.insert("doubled visibility of a field", p, if get(f, "vis_marker").is_some() { "pub" } else { "pub pub" });
            }
        }
    }

    fn tuple_fields(&mut self, g: &E) {
        self.list(g);
        let E::Grp(_, _, inner) = g else { return };
        let (items, commas) = punctuated(inner);
        for (n, i) in items.iter().enumerate() {
            let E::Rec("TupleField", f) = i else { continue };
            self.attrs(f, true);
            if n < commas.len() || get(f, "vis_marker").is_some() || !attributes(f).is_empty() {
                if let Some(t) = get(f, "ty").and_then(range) {
                    self.delete("tuple field without a type", t);
                }
            }
        }
    }

    fn name(&mut self, f: &Fields, what: &'static str) {
        if let Some(r) = get(f, "name").and_then(range) {
            self.delete(what, r);
        }
    }

    /// Delete the colon between a name and a type.
    fn colon(&mut self, f: &Fields, what: &'static str) {
        if let (Some(c), Some(t)) = (get(f, "tk_colon").and_then(range), get(f, "ty").and_then(range)) {
            if !self.at(t).starts_with(':') {
                self.delete(what, c);
            }
        }
    }

    fn no_type(&mut self, f: &Fields, what: &'static str) {
        if let (Some(c), Some(t)) = (get(f, "tk_colon").and_then(range), get(f, "ty").and_then(range)) {
            self.delete(what, t);
            if !get(f, "name").and_then(range).is_some_and(|n| self.at(n) == "self") {
                self.delete(what, (c.0, t.1));
            }
        }
    }

    /// Delete the colon of a bound.
    fn bound(&mut self, e: Option<&E>, what: &'static str) {
        let Some(E::Rec(_, f)) = e else { return };
        let (Some(c), Some(E::T(t))) = (get(f, "tk_colon").and_then(range), get(f, "tokens")) else { return };
        if !self.at(*t).starts_with(':') {
            self.delete(what, c);
        }
    }

    fn generics(&mut self, e: Option<&E>, last: bool) {
        let Some(E::Rec("GenericParamList", f)) = e else { return };
        if let Some(r) = get(f, "tk_l_bracket").and_then(range) {
            self.delete("generic params without `<`", r);
            self.insert("comma at the start of generic params", r.1, ",");
        }
        if let (Some(r), true) = (get(f, "tk_r_bracket").and_then(range), last) {
            self.delete("generic params without `>`", r);
        }
        let Some(p) = get(f, "params") else { return };
        let (items, commas) = punctuated(p);
        for c in &commas {
            self.insert("doubled comma in generic params", c.1, ",");
        }
        for (n, i) in items.iter().enumerate() {
            let E::Rec(_, f) = i else { continue };
            let prefix = get(f, "tk_prefix").is_some();
            let bound = f.iter().any(|x| x.0 == "bound" && !matches!(x.1, E::None));
            if prefix || bound {
                self.name(f, "generic param without a name");
            }
            self.bound(get(f, "bound"), "bound of a generic param without its colon");
            if !bound && n + 1 < items.len() {
                self.delete("missing comma in generic params", commas[n]);
                let x = self.choose(&[";", "!", "+", ".", "&", "|", "/", "?"]);
                self.put("another token in place of a comma", vec![(commas[n].0, commas[n].1, format!(" {x} "))]);
            }
        }
    }

    fn params(&mut self, g: &E) {
        self.list(g);
        let c = self.other('[', '{');
        if let Some(r) = range(g) {
            self.delim("fn params in other delimiters", r, c);
        }
        let E::Grp(_, _, inner) = g else { return };
        let (items, commas) = punctuated(inner);
        for (n, i) in items.iter().enumerate() {
            match i {
                E::Rec("Typed", f) => {
                    self.attrs(f, false);
                    self.name(f, "fn param without a name");
                    self.colon(f, "fn param without its colon");
                    self.no_type(f, "fn param without a type");
                    let p = after_attributes(f).unwrap();
                    let t = self.choose(&["&", "&'a", "&mut", "mut mut", "ref", "pub"]);
                    self.insert("token before a fn param", p, t);
                    if let Some(r) = get(f, "name").and_then(range) {
                        let t = self.choose(&[
                            "zz::Yy(xx)",
                            "zz::Yy { xx }",
                            "zz::Yy",
                            "Yy(xx)",
                            "Yy { xx }",
                            "self::Yy(xx)",
                            "crate::Yy { .. }",
                            "::zz::Yy(xx)",
                            "<Zz as Yy>::Xx { ww }",
                            "(xx, yy)",
                            "(xx)",
                            "[xx, yy]",
                            "&xx",
                            "xx @ yy",
                            "xx @ ..",
                            "xx | yy",
                            "1",
                            "-1",
                            "..",
                            "'a'",
                            "zz!()",
                            "Yy::<u8>(xx)",
                            "Yy::<u8>::Xx { ww: (vv, ..) }",
                        ]);
                        self.put("fn param with a pattern", vec![(r.0, r.1, format!(" {t} "))]);
                    }
                }
                E::Rec("Receiver", f) => {
                    self.attrs(f, false);
                    if n + 1 < items.len() {
                        self.delete("missing comma after a receiver", commas[n]);
                    }
                    let p = after_attributes(f).unwrap();
                    let t = self.choose(&["& &", "mut mut", "mut &", "pub"]);
                    self.insert("token before a receiver", p, t);
                    if let Some(r) = get(f, "tk_self").and_then(range) {
                        if n < commas.len() || f.iter().any(|x| x.0 != "tk_self" && start(&x.1).is_some()) {
                            self.delete("receiver without `self`", r);
                        }
                        let t = self.choose(&["self", "zz", "mut", "()", "= zz", "&"]);
                        self.insert("token after a receiver", r.1, t);
                    }
                }
                _ => (),
            }
        }
    }

    /// Body of an impl, trait, module or extern block.
    fn body(&mut self, g: &E, kind: &'static str) {
        let E::Grp(_, r, inner) = g else { return };
        let E::Rec(_, f) = &**inner else { return };
        self.inner_attrs(f);
        self.insert("dangling attribute", r.1 - 1, "#[zz]");
        if kind != "Module" {
            const BAD: [&str; 12] = [
                "struct Zz;",
                "enum Zz {}",
                "union Zz { a: u8 }",
                "mod zz {}",
                "use a::b;",
                "impl A {}",
                "unsafe impl A {}",
                "trait A {}",
                "unsafe trait A {}",
                "extern crate zz;",
                "extern \"C\" {}",
                "static ZZ: u8 = 1;",
            ];
            let n = if kind == "ExternBlock" { BAD.len() - 1 } else { BAD.len() };
            self.pick = self.pick.wrapping_mul(1_103_515_245).wrapping_add(12345);
            let bad = BAD[(self.pick >> 16) as usize % n];
            self.insert("member that isn't allowed", r.1 - 1, bad);
        }
        let Some(E::List(members)) = get(f, "members") else { return };
        for (n, m) in members.iter().enumerate() {
            let last = n + 1 == members.len();
            match m {
                E::Rec(k, f) if k.starts_with("Assoc") => {
                    if let Some(m) = get(f, "it") {
                        self.item(m, last, n > 0, false);
                    }
                }
                m => self.item(m, last, n > 0, false),
            }
        }
    }

    /// `last`: no tokens follow. `later`: not the first in its body (or not in a body at all).
    fn item(&mut self, e: &E, last: bool, later: bool, top: bool) {
        let E::Rec(kind, f) = e else { return };
        let kind = *kind;
        self.attrs(f, false);
        if let (Some(s), true) = (start(e), later) {
            self.insert("inner attribute before an item", s, "#![zz]");
        }
        let Some(vis_at) = after_attributes(f) else { return };
        self.vis(f);
        let vis = get(f, "vis_marker").is_some();
        if matches!(kind, "Impl" | "Macro") {
            self.insert("visibility where there is none", vis_at, "pub");
        } else {
            self.insert("doubled visibility", vis_at, if vis { "pub" } else { "pub pub" });
        }
        if !attributes(f).is_empty() && !vis {
            let s = start(e).unwrap();
            self.insert("visibility before attributes", s, "pub");
        }

        let name = get(f, "name").and_then(range);
        let name_text = name.map_or("", |r| &self.text[r.0..r.1]).to_string();
        let contextual = matches!(&*name_text, "union" | "default");
        let wher = get(f, "where_clause").is_some();
        let generics = get(f, "generic_params").is_some();
        let bound = f.iter().any(|x| x.0 == "bound" && !matches!(x.1, E::None));

        // keyword
        for k in [
            "tk_struct", "tk_enum", "tk_union", "tk_mod", "tk_trait", "tk_impl", "tk_fn_keyword",
            "tk_const_or_static", "tk_type", "tk_use", "tk_crate", "tk_extern",
        ] {
            let Some(r) = get(f, k).and_then(range) else { continue };
            if k == "tk_extern" && kind == "Function" {
                continue;
            }
            let ty = get(f, "trait_ty").or(get(f, "self_ty")).and_then(range);
            let odd = ty.is_some_and(|t| {
                let t = self.at(t);
                t.starts_with("union") || t.starts_with("impl")
            });
            // `unsafe` may stand before what is left
            if !contextual && !odd {
                self.delete("item without its keyword", r);
            }
            if !matches!(k, "tk_use" | "tk_impl" | "tk_extern") {
                let t = self.at(r).to_string();
                self.insert("doubled keyword", r.1, &t);
            }
        }
        // name
        if !matches!(kind, "Struct" | "Enum" | "Union" | "Trait") || !wher || generics || bound {
            self.name(f, "item without a name");
        }
        self.generics(get(f, "generic_params"), last);

        if last {
            self.where_clause(get(f, "where_clause"));
        }
        if let Some(r) = name {
            let l = self.choose(&["\"lit\"", "1", "'c'", "()", "{}", "?", "'a"]);
            self.put("no identifier for a name", vec![(r.0, r.1, format!(" {l} "))]);
            let l = self.choose(&["\"lit\"", "zz", "!", "[]", "?"]);
            self.insert("tokens after a name", r.1, l);
        }
        if kind != "Function" && kind != "Macro" {
            let q = self.choose(match kind {
                "UseDeclaration" => &["unsafe", "async", "extern", "fn", "zz", "1"],
                "Constant" => &["async", "const", "const unsafe", "extern", "extern \"C\"", "fn", "zz", "1", "default default"],
                // (no "const": `const impl ::A ... ;` could be a constant)
                "Impl" => &["async", "extern", "extern \"C\"", "zz", "1", "unsafe unsafe", "const unsafe", "async unsafe"],
                "Trait" | "Module" | "ExternBlock" => &["async", "const", "extern", "extern \"C\"", "fn", "zz", "1", "unsafe unsafe", "const unsafe", "async unsafe"],
                _ => &["unsafe", "async", "const", "extern", "extern \"C\"", "fn", "zz", "1", "default default", "auto"],
            });
            let at = f
                .iter()
                .filter(|x| x.0 != "attributes" && x.0 != "vis_marker")
                .filter_map(|x| start(&x.1))
                .min();
            if let Some(at) = at {
                self.insert("qualifier that doesn't belong", at, q);
                if !vis {
                    let q = self.choose(&["pub(zz)", "pub()", "pub[]", "pub{}", "crate pub", "pub crate"]);
                    self.insert("broken visibility", at, q);
                }
            }
        }
        if top {
            let t = self.choose(&[";", "zz", "struct Zz;", "#[zz]", "{}", "pub", "()", ",", "fn zz() {}", "1"]);
            self.insert("tokens after the item", self.text.len(), &format!("\n{t}"));
        }

        // end
        if let Some(r) = get(f, "tk_semicolon").and_then(range) {
            let unit = matches!(get(f, "fields"), Some(E::Rec("Unit", _)));
            let now = match kind {
                "Struct" => unit && !wher,
                "Function" => !wher && get(f, "return_ty").is_none(),
                "ExternCrate" | "Module" | "Macro" => true,
                _ => false,
            };
            let ever = kind != "Struct" || unit;
            if now || (last && ever) {
                self.delete("item without its semicolon", r);
                let t = self.choose(&[",", ":", ".", "=", "!", "zz"]);
                self.put("another token for the semicolon", vec![(r.0, r.1, format!(" {t} "))]);
            }
        }

        match kind {
            "Struct" => match get(f, "fields") {
                Some(E::Rec("Tuple", g)) => {
                    let g = &g[0].1;
                    self.tuple_fields(g);
                    self.delim("struct fields in other delimiters", range(g).unwrap(), '[');
                }
                Some(E::Rec("Named", g)) => {
                    let g = &g[0].1;
                    self.named_fields(g);
                    if !wher {
                        self.delim("struct fields in other delimiters", range(g).unwrap(), '[');
                    }
                    if !wher || last {
                        self.delete("item without its body", range(g).unwrap());
                    }
                }
                _ => (),
            },
            "Union" | "Enum" => {
                let Some(g) = get(f, "fields").or(get(f, "tk_braces")) else { return };
                let r = range(g).unwrap();
                if !wher || last {
                    self.delete("item without its body", r);
                    let c = self.other('(', '[');
                    self.delim("body in other delimiters", r, c);
                }
                if kind == "Union" {
                    self.named_fields(g);
                } else {
                    self.variants(g);
                }
            }
            "Function" => {
                self.params(get(f, "params").unwrap());
                let ret = get(f, "return_ty").is_some();
                if let Some(r) = get(f, "tk_return_arrow").and_then(range) {
                    self.delete("return type without its arrow", r);
                    self.delete("half of an arrow", (r.0, r.0 + 1));
                    self.delete("half of an arrow", (r.1 - 1, r.1));
                }
                if let Some(r) = get(f, "body").and_then(range) {
                    if last || (!wher && !ret) {
                        self.delete("item without its body", r);
                        let c = self.other('(', '[');
                        self.delim("body in other delimiters", r, c);
                    }
                }
                if let Some(r) = get(f, "tk_fn_keyword").and_then(range) {
                    self.pick = self.pick.wrapping_mul(1_103_515_245).wrapping_add(12345);
                    const BAD: [&str; 6] = [
                        "unsafe const",
                        "async const",
                        "extern async",
                        "unsafe default",
                        "unsafe async",
                        "unsafe pub",
                    ];
                    let bad = BAD[(self.pick >> 16) as usize % BAD.len()];
                    self.insert("fn qualifiers out of order", r.0, bad);
                }
            }
            "Constant" => {
                self.colon(f, "constant without its colon");
                if let (Some(k), Some(n)) = (get(f, "tk_const_or_static").and_then(range), name) {
                    if self.at(k) == "const" {
                        self.insert("`const mut`", n.0, "mut");
                    }
                }
            }
            "TypeAlias" => {
                if let (Some(r), false, false) = (get(f, "tk_equals").and_then(range), bound, wher) {
                    let ty = get(f, "initializer_ty").and_then(range);
                    if !ty.is_some_and(|t| self.at(t).starts_with(':')) {
                        self.delete("type alias without its `=`", r);
                    }
                }
                self.bound(get(f, "bound"), "bound of a type alias without its colon");
            }
            "Trait" => {
                self.bound(get(f, "bound"), "supertraits without their colon");
                let g = get(f, "tk_braces").unwrap();
                if last || (!bound && !wher) {
                    let c = self.other('(', '[');
                    self.delete("item without its body", range(g).unwrap());
                    self.delim("body in other delimiters", range(g).unwrap(), c);
                }
                self.body(g, kind);
            }
            "Impl" => {
                let g = get(f, "tk_braces").unwrap();
                if last {
                    let c = self.other('(', '[');
                    self.delete("item without its body", range(g).unwrap());
                    self.delim("body in other delimiters", range(g).unwrap(), c);
                }
                self.body(g, kind);
            }
            "ExternBlock" => {
                let g = get(f, "tk_braces").unwrap();
                if last {
                    self.delete("item without its body", range(g).unwrap());
                }
                let c = self.other('(', '[');
                self.delim("body in other delimiters", range(g).unwrap(), c);
                self.body(g, kind);
            }
            "Module" => {
                if let Some(g) = get(f, "tk_braces") {
                    let c = self.other('(', '[');
                    self.delete("item without its body", range(g).unwrap());
                    self.delim("body in other delimiters", range(g).unwrap(), c);
                    self.body(g, kind);
                }
            }
            "Macro" => {
                if let Some(r) = get(f, "tk_bang").and_then(range) {
                    self.delete("macro without its `!`", r);
                }
                for g in f.iter().filter_map(|x| match &x.1 {
                    E::Grp(_, r, _) => Some(*r),
                    _ => None,
                }) {
                    // `m!` before `extern {}` would be a macro call with a name
                    if last || get(f, "tk_declared_name").is_some() || get(f, "tk_semicolon").is_some() {
                        self.delete("item without its body", g);
                    }
                }
            }
            _ => (),
        }
    }

    fn variants(&mut self, g: &E) {
        self.list(g);
        let E::Grp(_, _, inner) = g else { return };
        let (items, commas) = punctuated(inner);
        for (n, i) in items.iter().enumerate() {
            let E::Rec("EnumVariant", f) = i else { continue };
            self.attrs(f, false);
            let unit = matches!(get(f, "fields"), Some(E::Rec("Unit", _)));
            let value = get(f, "value");
            let closed = n < commas.len();
            if !unit || value.is_some() || closed {
                self.name(f, "variant without a name");
            }
            self.vis(f);
            if let Some(p) = after_attributes(f) {
                let vis = get(f, "vis_marker").is_some();
                self.insert("doubled visibility of a variant", p, if vis { "pub" } else { "pub pub" });
            }
            if n + 1 < items.len() {
                self.delete("missing comma between variants", commas[n]);
            }
            match get(f, "fields") {
                Some(E::Rec("Tuple", g)) => {
                    self.delim("variant fields in other delimiters", range(&g[0].1).unwrap(), '[');
                    self.tuple_fields(&g[0].1);
                }
                Some(E::Rec("Named", g)) => {
                    self.delim("variant fields in other delimiters", range(&g[0].1).unwrap(), '[');
                    self.named_fields(&g[0].1);
                }
                _ => (),
            }
            if let Some(E::Rec(_, v)) = value {
                let last = n + 1 == items.len();
                if !(last && closed) {
                    if let Some(r) = get(v, "value").and_then(range) {
                        self.delete("discriminant without a value", r);
                    }
                }
                if let (Some(c), Some(r)) = (get(v, "tk_equal").and_then(range), get(v, "value").and_then(range)) {
                    if !self.at(r).starts_with(['(', '{', '=']) || !unit {
                        self.delete("discriminant without its `=`", c);
                    }
                }
            }
        }
    }
}

fn c24(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let cfg = Cfg {
        kinds: [4, 4, 2, 4, 3, 3, 8, 2, 2, 1, 2, 3, 1],
        big: 6,
        depth: 2,
        p_attr: 15,
        strict: true,
        ..Cfg::default()
    };
    let k = ALL_KINDS[s.weighted(&cfg.kinds)];
    let mut g = G::new(s, cfg);
    let e = g.item_of(k, Ctx::Top, 0, 0);
    let text = std::mem::take(&mut g.out);
    let seed = s.below(1 << 16);
    let mut w = W {
        text: &text,
        out: BTreeMap::new(),
        pick: seed,
    };
    w.item(&e, true, true, true);
    let kinds: Vec<&'static str> = w.out.keys().copied().collect();
    let what = *s.pick(&kinds);
    let cands = &w.out[what];
    let mut edits = s.pick(cands).clone();
    edits.sort();
    let mut broken = String::new();
    let mut at = 0;
    for (lo, hi, t) in edits {
        broken.push_str(&text[at..lo]);
        broken.push_str(&t);
        at = hi;
    }
    broken.push_str(&text[at..]);
    let Ok(ts) = TokenStream::from_str(&broken) else {
        o.label("rejected by the lexer");
        o.text = broken;
        return Ok(());
    };
    o.nontrivial = crate::tok::count(&crate::tok::toks(ts.clone())) >= 8;
    o.text = broken;
    o.label(what);
    match parse(ts) {
        Parsed::Item(i) => Err(format!(
            "an item with an error ({what}) is accepted, as {}",
            super::structure::kind_name(&i)
        )),
        Parsed::Err(_) | Parsed::Panic(_) => Ok(()),
    }
}

