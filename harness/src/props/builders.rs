//! C14 to C17: building and editing generics, where clauses, arguments and lists.

use super::{guard, must_parse};
use crate::dump;
use crate::engine::{Obs, Prop};
use crate::gen::{Cfg, Ctx, Kind, TyOpt, G, TY_ALL};
use crate::lex::{self, Case};
use crate::node::{compare, print, resolve, Node};
use crate::tape::Src;
use crate::tok::{
    count, first_diff, norm, same, show, tok, toks, toks_of, Norm, Tok, CONTENT, EXACT, LOOSE, TK,
};
use proc_macro2::{Ident, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::str::FromStr;
use venial::{
    Enum, GenericParam, GenericParamList, Item, Punctuated, Struct, Union, WhereClause,
    WhereClausePredicate,
};

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C14",
        rule: "a random struct, enum, union or bare param list, and a history of 1 to 8 (rarely 80) with_param calls with params of every constructor; after every step the params have to be those of a model list (lifetimes at the front, others at the end), everything else has to stay as it was, and the printed item has to parse back to the same. Non-trivial: two or more params in the end.",
        quick: 260_000,
        thorough: 4_800_000,
        run: c14,
    });
    v.push(Prop {
        id: "C15",
        rule: "a random struct, enum or union, and a history of 1 to 6 (rarely 60) steps: WhereClausePredicate::parse of random predicates (and of the same without colon, which has to panic), with_where_predicate, WhereClause::with_predicate and from_predicate, create_derive_where_clause; compared with a model list, everything else unchanged, and the printed item has to parse back to the same. Non-trivial: two or more predicates in the end.",
        quick: 130_000,
        thorough: 2_400_000,
        run: c15,
    });
    v.push(Prop {
        id: "C16",
        rule: "random generic params of structs, enums, unions, traits, functions and impls, some extended with with_param; the inline arguments (printed and owned) have to be exactly the names in order, and an impl written with them has to parse to those params and arguments. Non-trivial: two or more params.",
        quick: 500_000,
        thorough: 9_000_000,
        run: c16,
    });
    v.push(Prop {
        id: "C17",
        rule: "random histories of 1 to 30 operations on Punctuated, on lists of up to 600 values, (push, insert with indices in and out of range, changes through DerefMut and the public fields, clone) against a model vector with explicit commas. Non-trivial: at least 3 operations.",
        quick: 2_000_000,
        thorough: 60_000_000,
        run: c17,
    });
}

/// Generate a piece of syntax of its own.
pub fn fragment(s: &mut Src, cfg: Cfg, f: impl FnOnce(&mut G)) -> (String, TokenStream) {
    let mut g = G::new(s, cfg);
    f(&mut g);
    let t = std::mem::take(&mut g.out);
    let ts = lex::lex(&t);
    (t, ts)
}

const NAMES: [&str; 20] = [
    "Self_", "T1", "constant", "r", "lifetime", "K", "a", "static_",
    "T", "U", "A", "foo", "_x", "union", "auto", "Été", "N1", "Value", "default", "变量",
];
const LTS: [&str; 9] = ["_a", "T", "A", "a", "b", "static", "x1", "été", "long_name"];

/// A param of a random constructor and what it has to look like.
fn new_param(s: &mut Src, unbounded_lt: bool) -> (GenericParam, Node, String) {
    let id = |n: &str| Node::T(vec![tok(&TokenTree::Ident(Ident::new(n, Span::call_site())))]);
    let punct = |c: char, j: bool| {
        let p = Punct::new(c, if j { Spacing::Joint } else { Spacing::Alone });
        Node::T(vec![tok(&TokenTree::Punct(p))])
    };
    let bound = |ts: &TokenStream| {
        Node::Rec(
            "GenericBound",
            vec![
                ("tk_colon", punct(':', false)),
                ("tokens", Node::T(toks(ts.clone()))),
            ],
        )
    };
    let small = Cfg {
        big: 3,
        depth: 2,
        ..Cfg::default()
    };
    let kind = s.below(if unbounded_lt { 4 } else { 5 });
    let (p, prefix, name, b, what) = match kind {
        0 => {
            let n = *s.pick(&NAMES);
            (GenericParam::ty(n), Node::None, n, None, format!("ty({n})"))
        }
        1 => {
            let n = *s.pick(&LTS);
            (
                GenericParam::lifetime(n),
                punct('\'', true),
                n,
                None,
                format!("lifetime({n})"),
            )
        }
        2 => {
            let n = *s.pick(&NAMES);
            let (t, ts) = fragment(s, small, |g| {
                g.bounds(1, true);
            });
            (
                GenericParam::bounded_ty(n, ts.clone().into_iter().collect()),
                Node::None,
                n,
                Some(ts),
                format!("bounded_ty({n}, {t})"),
            )
        }
        3 => {
            let n = *s.pick(&NAMES);
            let (t, ts) = fragment(s, small, |g| {
                g.ty(
                    TyOpt {
                        plus: false,
                        ..TY_ALL
                    },
                    1,
                );
            });
            (
                GenericParam::const_param(n, ts.clone().into_iter().collect()),
                id("const"),
                n,
                Some(ts),
                format!("const_param({n}, {t})"),
            )
        }
        _ => {
            let n = *s.pick(&LTS);
            let k = s.below(4);
            let mut t = String::new();
            for i in 0..k {
                if i > 0 {
                    t.push_str(" + ");
                }
                t.push('\'');
                t.push_str(s.pick(&LTS));
            }
            let ts = lex::lex(&t);
            (
                GenericParam::bounded_lifetime(n, ts.clone().into_iter().collect()),
                // known finding: this apostrophe has the wrong spacing
                punct('\'', true),
                n,
                Some(ts),
                format!("bounded_lifetime({n}, {t})"),
            )
        }
    };
    let node = Node::Rec(
        "GenericParam",
        vec![
            ("tk_prefix", prefix),
            ("name", id(name)),
            ("bound", b.as_ref().map_or(Node::None, bound)),
        ],
    );
    (p, node, what)
}

fn is_lt(n: &Node) -> bool {
    matches!(n.get("tk_prefix"), Some(Node::T(t)) if matches!(t[0].k, TK::Punct('\'', _)))
}

fn is_const(n: &Node) -> bool {
    matches!(n.get("tk_prefix"), Some(Node::T(t)) if matches!(t[0].k, TK::Ident(_)))
}

enum Decl {
    Struct(Struct),
    Enum(Enum),
    Union(Union),
}

macro_rules! each {
    ($d:expr, $x:ident => $e:expr) => {
        match $d {
            Decl::Struct($x) => $e,
            Decl::Enum($x) => $e,
            Decl::Union($x) => $e,
        }
    };
}

impl Decl {
    fn with_param(self, p: GenericParam) -> Decl {
        match self {
            Decl::Struct(x) => Decl::Struct(x.with_param(p)),
            Decl::Enum(x) => Decl::Enum(x.with_param(p)),
            Decl::Union(x) => Decl::Union(x.with_param(p)),
        }
    }
    fn with_where_predicate(self, p: WhereClausePredicate) -> Decl {
        match self {
            Decl::Struct(x) => Decl::Struct(x.with_where_predicate(p)),
            Decl::Enum(x) => Decl::Enum(x.with_where_predicate(p)),
            Decl::Union(x) => Decl::Union(x.with_where_predicate(p)),
        }
    }
    fn generic_params(&self) -> &Option<GenericParamList> {
        each!(self, x => &x.generic_params)
    }
    fn where_clause(&self) -> &Option<WhereClause> {
        each!(self, x => &x.where_clause)
    }
    fn set_where(&mut self, w: Option<WhereClause>) {
        each!(self, x => x.where_clause = w)
    }
    fn dump(&self) -> Node {
        match self {
            Decl::Struct(x) => dump::struct_(x),
            Decl::Enum(x) => dump::enum_(x),
            Decl::Union(x) => dump::union_(x),
        }
    }
    fn tokens(&self) -> TokenStream {
        each!(self, x => x.to_token_stream())
    }
    fn derive_where(&self, t: TokenStream) -> WhereClause {
        each!(self, x => x.create_derive_where_clause(t))
    }
    fn params_by_kind(&self) -> [Vec<Node>; 3] {
        each!(self, x => [
            x.get_lifetime_params().map(dump::generic_param).collect(),
            x.get_type_params().map(dump::generic_param).collect(),
            x.get_const_params().map(dump::generic_param).collect(),
        ])
    }
    fn clone_decl(&self) -> Decl {
        match self {
            Decl::Struct(x) => Decl::Struct(x.clone()),
            Decl::Enum(x) => Decl::Enum(x.clone()),
            Decl::Union(x) => Decl::Union(x.clone()),
        }
    }
}

fn decl(s: &mut Src, p_generics: u32, p_where: u32, defaults: bool) -> (Case, Result<Decl, String>) {
    let k = *s.pick(&[Kind::Struct, Kind::Enum, Kind::Union]);
    let cfg = Cfg {
        p_generics,
        p_where,
        p_attr: 10,
        big: 6,
        depth: 2,
        defaults,
        // the legacy marker can't be told from a path when it is printed and parsed again
        strict: true,
        ..Cfg::default()
    };
    let c = lex::item_kind(s, cfg, k);
    let d = must_parse(c.stream.clone()).and_then(|i| match i {
        Item::Struct(x) => Ok(Decl::Struct(x)),
        Item::Enum(x) => Ok(Decl::Enum(x)),
        Item::Union(x) => Ok(Decl::Union(x)),
        i => Err(format!("a {k:?} is parsed as {}", super::structure::kind_name(&i))),
    });
    (c, d)
}

/// Printed, parsed again, and the same.
pub fn reparse(d: &Node, printed: TokenStream) -> Result<(), String> {
    let t = toks(printed.clone());
    let reference = print(d);
    if !same(&reference, &t, LOOSE) {
        return Err(format!(
            "the item doesn't print as its parts: {}\nprinted: {}",
            first_diff(&reference, &t, LOOSE),
            show(&t)
        ));
    }
    let again = match super::parse(printed) {
        super::Parsed::Item(i) => i,
        super::Parsed::Err(e) => return Err(format!("the edited item `{}` is rejected: {e}", show(&t))),
        super::Parsed::Panic(e) => return Err(format!("the edited item `{}` is rejected: {e}", show(&t))),
    };
    match compare(d, &dump::item(&again), LOOSE) {
        None => Ok(()),
        Some(x) => Err(format!("the edited item parses as something else: {}{x}", d.kind())),
    }
}

fn commas_ok(list: &Node, n: usize) -> Result<(), String> {
    if let Node::Rec("Punctuated", f) = list {
        let c = f[1].1.list();
        let ok = c.len() == n || c.len() + 1 == n;
        let comma = c.iter().all(|x| matches!(&x.toks()[..], [Tok { k: TK::Punct(',', _), .. }]));
        if ok && comma {
            return Ok(());
        }
        return Err(format!("{n} entries with {} commas `{}`", c.len(), f[1].1.text()));
    }
    Err("not a list".into())
}

/// A list that was there before keeps its delimiters and commas; `front` entries were added before it.
fn list_kept(before: &Node, after: &Node, list: &str, delimiters: &[&str], front: usize) -> Result<(), String> {
    for d in delimiters {
        if let Some(x) = compare(before.get(d).unwrap(), after.get(d).unwrap(), EXACT) {
            return Err(format!("{d} changes{x}"));
        }
    }
    let commas = |n: &Node| match n.get(list) {
        Some(Node::Rec("Punctuated", f)) => f[1].1.list().to_vec(),
        _ => vec![],
    };
    let (b, a) = (commas(before), commas(after));
    let a: Vec<Node> = a.into_iter().skip(front).take(b.len()).collect();
    match compare(&Node::List(b), &Node::List(a), EXACT) {
        Some(x) => Err(format!("the commas change{x}")),
        None => Ok(()),
    }
}

fn params_are(model: &[Node], got: &GenericParamList) -> Result<(), String> {
    let g = dump::generic_params(got);
    let list = g.get("params").unwrap();
    let items = Node::List(list.list().to_vec());
    if let Some(d) = compare(&Node::List(model.to_vec()), &items, SPANS) {
        return Err(format!("generic params{d}"));
    }
    commas_ok(list, model.len())?;
    let (l, r) = (g.get("tk_l_bracket").unwrap().text(), g.get("tk_r_bracket").unwrap().text());
    if l != "<" || r != ">" {
        return Err(format!("the brackets of the params are `{l}` and `{r}`"));
    }
    for (m, p) in model.iter().zip(got.params.items()) {
        let want = (is_lt(m), is_const(m));
        if (p.is_lifetime(), p.is_const()) != want || p.is_ty() != (!want.0 && !want.1) {
            return Err(format!(
                "`{}`: is_lifetime {}, is_ty {}, is_const {}",
                m.text(),
                p.is_lifetime(),
                p.is_ty(),
                p.is_const()
            ));
        }
    }
    Ok(())
}

fn c14(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let steps = 1 + if s.below(100) == 99 { s.below(80) } else { s.below(8) };
    if s.chance(20) {
        // a bare list
        let mut list = GenericParamList::default();
        let mut model: Vec<Node> = Vec::new();
        let mut hist = String::from("GenericParamList::default()");
        for _ in 0..steps {
            let (p, node, what) = new_param(s, false);
            hist.push_str(&format!(".with_param({what})"));
            o.text = hist.clone();
            check_constructor(&p, &node)?;
            list = list.with_param(p);
            model_add(&mut model, node);
            params_are(&model, &list)?;
        }
        o.nontrivial = model.len() >= 2;
        o.label("bare list");
        return Ok(());
    }
    let (c, d) = decl(s, 60, 25, true);
    o.case(&c);
    let mut d = d?;
    let before = d.dump();
    let mut front = 0;
    let mut model: Vec<Node> = d
        .generic_params()
        .as_ref()
        .map(|g| g.params.items().map(dump::generic_param).collect())
        .unwrap_or_default();
    o.label(if d.generic_params().is_some() {
        "declared params"
    } else {
        "no params before"
    });
    for _ in 0..steps {
        let (p, node, what) = new_param(s, false);
        o.text.push_str(&format!("\n.with_param({what})"));
        check_constructor(&p, &node)?;
        d = d.with_param(p);
        front += is_lt(&node) as usize;
        model_add(&mut model, node);
        match d.generic_params() {
            Some(g) => params_are(&model, g)?,
            None => return Err("with_param leaves no params".into()),
        }
        let by_kind = d.params_by_kind();
        for (k, got) in by_kind.iter().enumerate() {
            let want: Vec<Node> = model
                .iter()
                .filter(|m| match k {
                    0 => is_lt(m),
                    1 => !is_lt(m) && !is_const(m),
                    _ => is_const(m),
                })
                .cloned()
                .collect();
            if let Some(x) = compare(&Node::List(want), &Node::List(got.clone()), LOOSE) {
                return Err(format!(
                    "get_{}_params{x}",
                    ["lifetime", "type", "const"][k]
                ));
            }
        }
    }
    o.nontrivial = model.len() >= 2;
    let after = d.dump();
    if let Some(x) = compare(&before.mask(&["generic_params"]), &after.mask(&["generic_params"]), EXACT) {
        return Err(format!("with_param changes another part: {}{x}", before.kind()));
    }
    if let (Some(b @ Node::Rec(..)), Some(a)) = (before.get("generic_params"), after.get("generic_params")) {
        list_kept(b, a, "params", &["tk_l_bracket", "tk_r_bracket"], front)?;
    }
    reparse(&after, d.tokens())
}

fn model_add(model: &mut Vec<Node>, node: Node) {
    if is_lt(&node) {
        model.insert(0, node);
    } else {
        model.push(node);
    }
}

fn check_constructor(p: &GenericParam, want: &Node) -> Result<(), String> {
    // the spacing of `bounded_lifetime`'s apostrophe is a known finding
    let n = if is_lt(want) && p.bound.is_some() { LOOSE } else { CONTENT };
    if let Some(d) = compare(want, &dump::generic_param(p), n) {
        return Err(format!("new param{d}"));
    }
    let t = toks(p.to_token_stream());
    if !same(&print(want), &t, n) {
        return Err(format!("the new param prints as `{}`", show(&t)));
    }
    Ok(())
}

fn new_predicate(s: &mut Src) -> (TokenStream, Node, String) {
    let cfg = Cfg {
        big: 3,
        depth: 2,
        ..Cfg::default()
    };
    let mut g = G::new(s, cfg);
    let e = g.predicate();
    let t = std::mem::take(&mut g.out);
    let ts = lex::lex(&t);
    let n = resolve(&e, &toks(ts.clone()));
    (ts, n, t)
}

fn preds_are(model: &[Node], got: &WhereClause) -> Result<(), String> {
    let g = dump::where_clause(got);
    let list = g.get("items").unwrap();
    let items = Node::List(list.list().to_vec());
    if let Some(d) = compare(&Node::List(model.to_vec()), &items, EXACT) {
        return Err(format!("where clause{d}"));
    }
    commas_ok(list, model.len())?;
    let w = g.get("tk_where").unwrap().text();
    if w != "where" {
        return Err(format!("the where clause starts with `{w}`"));
    }
    let t = toks(got.to_token_stream());
    if !same(&print(&g), &t, LOOSE) {
        return Err(format!("the where clause prints as `{}`", show(&t)));
    }
    Ok(())
}

/// `all` is a merge of `a` and `b` that keeps both orders.
fn interleaves(all: &[Vec<Tok>], a: &[Vec<Tok>], b: &[Vec<Tok>]) -> bool {
    if all.len() != a.len() + b.len() {
        return false;
    }
    let mut reach = vec![vec![false; b.len() + 1]; a.len() + 1];
    reach[0][0] = true;
    for i in 0..=a.len() {
        for j in 0..=b.len() {
            if i > 0 && reach[i - 1][j] && all[i + j - 1] == a[i - 1] {
                reach[i][j] = true;
            }
            if j > 0 && reach[i][j - 1] && all[i + j - 1] == b[j - 1] {
                reach[i][j] = true;
            }
        }
    }
    reach[a.len()][b.len()]
}

fn c15(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let (c, d) = decl(s, 60, 50, false);
    o.case(&c);
    let mut d = d?;
    let before = d.dump();
    let mut model: Vec<Node> = d
        .where_clause()
        .as_ref()
        .map(|w| w.items.items().map(dump::predicate).collect())
        .unwrap_or_default();
    o.label(if d.where_clause().is_some() {
        "declared where clause"
    } else {
        "no where clause before"
    });
    let steps = 1 + if s.below(100) == 99 { s.below(60) } else { s.below(6) };
    for _ in 0..steps {
        match s.weighted(&[55, 25, 20]) {
            0 | 1 => {
                let (ts, node, text) = new_predicate(s);
                let direct = s.chance(30);
                o.text.push_str(&format!("\nwith predicate {text}"));
                let p = match guard(|| WhereClausePredicate::parse(ts.clone())) {
                    Ok(p) => p,
                    Err(m) => return Err(format!("WhereClausePredicate::parse panics on `{text}`: {m}")),
                };
                if let Some(x) = compare(&node, &dump::predicate(&p), EXACT) {
                    return Err(format!("WhereClausePredicate::parse of `{text}`{x}"));
                }
                let printed = toks(p.to_token_stream());
                if !same(&toks(ts.clone()), &printed, EXACT) {
                    return Err(format!("the predicate prints as `{}`", show(&printed)));
                }
                // without its colon it isn't a predicate
                let n = p.left_side.len();
                for cut in [false, true] {
                    let broken: TokenStream = ts
                        .clone()
                        .into_iter()
                        .enumerate()
                        .filter(|(i, _)| *i < n || (*i > n && !cut))
                        .map(|(_, t)| t)
                        .collect();
                    let shown = broken.to_string();
                    if guard(|| WhereClausePredicate::parse(broken)).is_ok() {
                        return Err(format!("WhereClausePredicate::parse accepts `{shown}`"));
                    }
                }
                let alone = WhereClause::from_predicate(p.clone());
                preds_are(&[node.clone()], &alone)?;
                if direct {
                    let w = match d.where_clause().clone() {
                        Some(w) => w.with_predicate(p),
                        None => alone,
                    };
                    d.set_where(Some(w));
                } else {
                    d = d.with_where_predicate(p);
                }
                model.push(node);
            }
            _ => {
                let cfg = Cfg {
                    big: 3,
                    depth: 2,
                    ..Cfg::default()
                };
                let (text, tr) = fragment(s, cfg, |g| {
                    g.bounds(1, true);
                });
                o.text.push_str(&format!("\ncreate_derive_where_clause({text})"));
                o.label("derived where clause");
                let unchanged = d.dump();
                let w = d.derive_where(tr.clone());
                if let Some(x) = compare(&unchanged, &d.dump(), EXACT) {
                    return Err(format!("create_derive_where_clause changes the item: {x}"));
                }
                let flat = |n: &Node| norm(&print(n), LOOSE);
                let got: Vec<Vec<Tok>> = w.items.items().map(|p| flat(&dump::predicate(p))).collect();
                let declared: Vec<Vec<Tok>> = model.iter().map(flat).collect();
                let mut derived = Vec::new();
                if let Some(g) = d.generic_params() {
                    for p in g.params.items() {
                        if p.tk_prefix.is_none() {
                            let name = &p.name;
                            derived.push(norm(&toks(quote!(#name : #tr)), LOOSE));
                        }
                    }
                }
                if !interleaves(&got, &declared, &derived) {
                    return Err(format!(
                        "the derived where clause `{}` isn't made of the {} declared predicates and `{}` for each type param",
                        show(&toks(w.to_token_stream())),
                        declared.len(),
                        text
                    ));
                }
                for p in w.items.items() {
                    if p.left_side.is_empty() {
                        return Err("a derived predicate has no left side".into());
                    }
                }
                commas_ok(dump::where_clause(&w).get("items").unwrap(), got.len())?;
                // it can be used
                let mut copy = d.clone_decl();
                copy.set_where(Some(w));
                reparse(&copy.dump(), copy.tokens())?;
                continue;
            }
        }
        match d.where_clause() {
            Some(w) => preds_are(&model, w)?,
            None => return Err("adding a predicate leaves no where clause".into()),
        }
    }
    o.nontrivial = model.len() >= 2;
    let after = d.dump();
    if let Some(x) = compare(&before.mask(&["where_clause"]), &after.mask(&["where_clause"]), EXACT) {
        return Err(format!("another part changes: {}{x}", before.kind()));
    }
    if let (Some(b @ Node::Rec(..)), Some(a)) = (before.get("where_clause"), after.get("where_clause")) {
        list_kept(b, a, "items", &["tk_where"], 0)?;
    }
    reparse(&after, d.tokens())
}

/// The tokens of each argument, without brackets and commas.
fn split_args(t: &[Tok]) -> Result<Vec<Vec<Tok>>, String> {
    let is = |t: &Tok, c: char| matches!(t.k, TK::Punct(p, _) if p == c);
    if t.len() < 2 || !is(&t[0], '<') || !is(&t[t.len() - 1], '>') {
        return Err(format!("`{}` isn't a list in angle brackets", show(t)));
    }
    let mut out: Vec<Vec<Tok>> = Vec::new();
    let mut cur = Vec::new();
    for x in &t[1..t.len() - 1] {
        if is(x, ',') {
            if cur.is_empty() {
                return Err(format!("stray comma in `{}`", show(t)));
            }
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(x.clone());
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    Ok(out)
}

const SPANS: Norm = Norm {
    spans: true,
    spacing: false,
    none_groups: true,
};

fn c16(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let k = *s.pick(&[
        Kind::Struct,
        Kind::Struct,
        Kind::Enum,
        Kind::Union,
        Kind::Trait,
        Kind::Function,
        Kind::Impl,
    ]);
    let cfg = Cfg {
        p_generics: 90,
        p_attr: 5,
        big: 8,
        depth: 2,
        strict: true,
        ..Cfg::default()
    };
    let c = lex::make(s, cfg, |g| g.item_of(k, Ctx::Top, 0, 0));
    o.case(&c);
    let mut item = must_parse(c.stream.clone())?;
    let extra = if s.chance(30) { 1 + s.below(3) } else { 0 };
    for _ in 0..extra {
        let (p, _, what) = new_param(s, true);
        let slot = match &mut item {
            Item::Struct(x) => &mut x.generic_params,
            Item::Enum(x) => &mut x.generic_params,
            Item::Union(x) => &mut x.generic_params,
            Item::Trait(x) => &mut x.generic_params,
            Item::Function(x) => &mut x.generic_params,
            Item::Impl(x) => &mut x.impl_generic_params,
            _ => return Ok(()),
        };
        *slot = Some(slot.take().unwrap_or_default().with_param(p));
        o.text.push_str(&format!("\n.with_param({what})"));
        o.label("extended params");
    }
    let (inline, name): (Option<Option<TokenStream>>, Option<Ident>) = match &item {
        Item::Struct(x) => (
            Some(x.get_inline_generic_args().map(|a| a.to_token_stream())),
            Some(x.name.clone()),
        ),
        Item::Enum(x) => (
            Some(x.get_inline_generic_args().map(|a| a.to_token_stream())),
            Some(x.name.clone()),
        ),
        Item::Union(x) => (
            Some(x.get_inline_generic_args().map(|a| a.to_token_stream())),
            Some(x.name.clone()),
        ),
        _ => (None, None),
    };
    let params = item.generic_params();
    let Some(params) = params else {
        o.nontrivial = false;
        o.label("no params");
        if let Some(Some(a)) = inline {
            return Err(format!(
                "get_inline_generic_args gives `{}` without generic params",
                show(&toks(a))
            ));
        }
        return Ok(());
    };
    o.nontrivial = params.params.len() >= 2;
    let want: Vec<Vec<Tok>> = params
        .params
        .items()
        .map(|p| {
            let mut t = Vec::new();
            if let Some(TokenTree::Punct(a)) = &p.tk_prefix {
                t.push(tok(&TokenTree::Punct(a.clone())));
            }
            t.push(tok(&TokenTree::Ident(p.name.clone())));
            t
        })
        .collect();
    let kinds: Vec<bool> = params
        .params
        .items()
        .map(|p| matches!(&p.tk_prefix, Some(TokenTree::Punct(_))))
        .collect();
    let check = |what: &str, ts: TokenStream| -> Result<(), String> {
        let t = toks(ts.clone());
        let got = split_args(&t)?;
        let norm_all = |v: &[Vec<Tok>]| v.iter().map(|x| norm(x, SPANS)).collect::<Vec<_>>();
        if norm_all(&got) != norm_all(&want) {
            return Err(format!(
                "{what} of `{}` is `{}`",
                show(&toks(params.to_token_stream())),
                show(&t)
            ));
        }
        // usable as source text too
        let text = ts.to_string();
        match TokenStream::from_str(&text) {
            Ok(again) if same(&toks(again.clone()), &t, LOOSE) => Ok(()),
            _ => Err(format!("{what} prints as the text `{text}`")),
        }
    };
    check("as_inline_args", params.as_inline_args().to_token_stream())?;
    match inline {
        Some(Some(a)) => check("get_inline_generic_args", a)?,
        Some(None) => return Err("get_inline_generic_args gives None for generic params".into()),
        None => (),
    }
    let owned = params.as_inline_args().to_owned_args();
    check("to_owned_args", owned.to_token_stream())?;
    let got: Vec<bool> = owned
        .args
        .items()
        .map(|a| matches!(a, venial::GenericArg::Lifetime { .. }))
        .collect();
    if got != kinds {
        return Err(format!("to_owned_args: lifetime arguments are {got:?}, params are {kinds:?}"));
    }
    if owned.tk_turbofish_colons.is_some() {
        return Err("to_owned_args: turbofish out of nowhere".into());
    }
    // separated as the list is
    let mut plain = params.clone();
    for (p, _) in plain.params.iter_mut() {
        p.bound = None;
        if matches!(&p.tk_prefix, Some(TokenTree::Ident(_))) {
            p.tk_prefix = None;
        }
    }
    let plain = toks(plain.to_token_stream());
    let got = toks(owned.to_token_stream());
    if !same(&plain, &got, SPANS) {
        return Err(format!("to_owned_args of `{}` is `{}`", show(&plain), show(&got)));
    }
    // --- a derive: `impl<..> Trait for Name<..> where .. { }`
    if let Some(name) = name {
        let args = params.as_inline_args();
        let trait_ = quote!(some::Trait);
        let w = match &item {
            Item::Struct(x) => x.create_derive_where_clause(trait_.clone()),
            Item::Enum(x) => x.create_derive_where_clause(trait_.clone()),
            Item::Union(x) => x.create_derive_where_clause(trait_.clone()),
            _ => unreachable!(),
        };
        let ts = quote!(impl #params #trait_ for #name #args #w {});
        let i = must_parse(ts).map_err(|e| format!("a derived impl: {e}"))?;
        let Item::Impl(i) = i else {
            return Err("a derived impl isn't parsed as an impl".into());
        };
        let Some(g) = &i.impl_generic_params else {
            return Err("a derived impl has no generic params".into());
        };
        if let Some(d) = compare(&dump::generic_params(params), &dump::generic_params(g), SPANS) {
            return Err(format!("the params of a derived impl{d}"));
        }
        let p = match guard(|| i.self_ty.as_path()) {
            Ok(Some(p)) => p,
            _ => return Err("the self type of a derived impl isn't a path".into()),
        };
        let args = match &p.segments[..] {
            [seg] if seg.ident == name => seg.generic_args.clone(),
            _ => {
                return Err(format!(
                    "the self type of a derived impl is `{}`",
                    show(&toks(p.to_token_stream()))
                ))
            }
        };
        let Some(args) = args else {
            return Err("the self type of a derived impl has no arguments".into());
        };
        check("the arguments of a derived impl", args.to_token_stream())?;
        match &i.where_clause {
            Some(got) => {
                if let Some(d) = compare(&dump::where_clause(&w), &dump::where_clause(got), SPANS) {
                    return Err(format!("the where clause of a derived impl{d}"));
                }
            }
            None => return Err("a derived impl lost its where clause".into()),
        }
        o.label("derived impl");
    }
    Ok(())
}

// --- C17 ---

#[derive(Clone, Debug, PartialEq)]
struct Comma {
    joint: bool,
    /// The comma may also be the default one.
    or_default: bool,
}

#[derive(Clone)]
struct Model {
    v: Vec<(u32, Comma)>,
    skip_last: bool,
}

fn id(n: u32) -> Ident {
    Ident::new(&format!("v{n}"), Span::call_site())
}

fn comma(joint: bool) -> Punct {
    Punct::new(',', if joint { Spacing::Joint } else { Spacing::Alone })
}

fn agrees(m: &Model, p: &Punctuated<Ident>) -> Result<(), String> {
    if p.len() != m.v.len() || p.is_empty() != m.v.is_empty() || p.inner.len() != m.v.len() {
        return Err(format!(
            "len {} and is_empty {} of a list of {}",
            p.len(),
            p.is_empty(),
            m.v.len()
        ));
    }
    let got: Vec<String> = p.items().map(|i| i.to_string()).collect();
    let want: Vec<String> = m.v.iter().map(|(n, _)| id(*n).to_string()).collect();
    if got != want {
        return Err(format!("items are {got:?} instead of {want:?}"));
    }
    let ok = |c: &Comma, p: &Punct| {
        p.as_char() == ',' && {
            let j = p.spacing() == Spacing::Joint;
            j == c.joint || (c.or_default && !j)
        }
    };
    let n = if m.skip_last { m.v.len().saturating_sub(1) } else { m.v.len() };
    let puncts: Vec<&Punct> = p.punct().collect();
    if puncts.len() != n || !puncts.iter().zip(&m.v).all(|(p, (_, c))| ok(c, p)) {
        return Err(format!("commas are {puncts:?}, model {:?} (skip_last {})", m.v, m.skip_last));
    }
    // Deref
    if p.iter().map(|(i, _)| i.to_string()).collect::<Vec<_>>() != want {
        return Err("the slice differs from the items".into());
    }
    let t: Vec<TokenTree> = p.to_token_stream().into_iter().collect();
    let mut k = 0;
    let bad = || {
        format!(
            "prints as `{}`, model {:?} (skip_last {})",
            show(&toks_of(&t)),
            m.v,
            m.skip_last
        )
    };
    for (i, (n, c)) in m.v.iter().enumerate() {
        match t.get(k) {
            Some(TokenTree::Ident(x)) if *x == id(*n) => (),
            _ => return Err(bad()),
        }
        k += 1;
        if i + 1 < m.v.len() || !m.skip_last {
            match t.get(k) {
                Some(TokenTree::Punct(x)) if ok(c, x) => (),
                _ => return Err(bad()),
            }
            k += 1;
        }
    }
    if k != t.len() {
        return Err(bad());
    }
    let _ = format!("{p:?}");
    Ok(())
}

fn c17(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let steps = 1 + if s.chance(20) { s.below(30) } else { s.below(10) };
    let mut p: Punctuated<Ident> = if s.chance(50) { Punctuated::new() } else { Punctuated::default() };
    let mut m = Model {
        v: vec![],
        skip_last: false,
    };
    if !p.is_empty() || p.skip_last {
        return Err("a new list isn't empty".into());
    }
    let mut next = 0u32;
    agrees(&m, &p)?;
    if s.below(50) == 49 {
        let n = s.below(600);
        o.label("a long list");
        o.text.push_str(&format!("push of {n}; "));
        for _ in 0..n {
            let c = if s.below(20) == 19 { None } else { Some(false) };
            p.push(id(next), c.map(comma));
            m.skip_last = c.is_none();
            m.v.push((
                next,
                Comma {
                    joint: false,
                    or_default: false,
                },
            ));
            next += 1;
        }
        agrees(&m, &p)?;
    }
    for _ in 0..steps {
        let c = match s.below(3) {
            0 => None,
            1 => Some(false),
            _ => Some(true),
        };
        let n = m.v.len();
        match s.weighted(&[35, 30, 5, 8, 8, 7, 7]) {
            0 => {
                o.text.push_str(&format!("push(v{next}, {c:?}); "));
                p.push(id(next), c.map(comma));
                m.skip_last = c.is_none();
                m.v.push((
                    next,
                    Comma {
                        joint: c.unwrap_or(false),
                        or_default: false,
                    },
                ));
                next += 1;
            }
            1 => {
                let i = s.below(n as u32 + 1) as usize;
                o.text.push_str(&format!("insert({i}, v{next}, {c:?}); "));
                p.insert(i, id(next), c.map(comma));
                let entry = Comma {
                    joint: c.unwrap_or(false),
                    or_default: i < n,
                };
                if i == n {
                    m.skip_last = c.is_none();
                }
                m.v.insert(i, (next, entry));
                next += 1;
            }
            2 => {
                // out of range: panics, and the list stays what it was
                let i = n + 1 + s.below(3) as usize;
                o.text.push_str(&format!("insert({i}, v{next}, {c:?}) out of range; "));
                let mut q = p.clone();
                if guard(|| q.insert(i, id(next), c.map(comma))).is_ok() {
                    return Err(format!("insert at {i} of {n} doesn't panic"));
                }
                agrees(&m, &q)?;
            }
            3 if n >= 2 => {
                let (a, b) = (s.below(n as u32) as usize, s.below(n as u32) as usize);
                o.text.push_str(&format!("swap({a}, {b}); "));
                p.swap(a, b);
                m.v.swap(a, b);
            }
            4 if n >= 1 => {
                let a = s.below(n as u32) as usize;
                o.text.push_str(&format!("inner.remove({a}); "));
                p.inner.remove(a);
                m.v.remove(a);
            }
            5 => {
                let b = s.chance(50);
                o.text.push_str(&format!("skip_last = {b}; "));
                p.skip_last = b;
                m.skip_last = b;
            }
            6 if n >= 1 => {
                // a change through DerefMut, in a clone: the original has to stay
                let a = s.below(n as u32) as usize;
                o.text.push_str(&format!("clone and replace {a}; "));
                let mut q = p.clone();
                q[a].0 = id(next);
                let mut m2 = m.clone();
                m2.v[a].0 = next;
                agrees(&m2, &q)?;
                if s.chance(50) {
                    agrees(&m, &p)?;
                    p = q;
                    m = m2;
                }
                next += 1;
            }
            _ => {
                o.text.push_str("clone; ");
                p = p.clone();
            }
        }
        agrees(&m, &p)?;
    }
    o.nontrivial = steps >= 3;
    o.label(if m.skip_last { "ends without comma" } else { "ends with comma" });
    let _ = count(&[]);
    Ok(())
}
