//! C26: how the work grows with the size of an item.
//!
//! Work is counted, not timed: bytes and number of heap allocations made by the thread. Copying a
//! token stream, a token or a name allocates, so that repeated scanning shows up as well.

use super::guard;
use crate::engine::{Obs, Prop};
use crate::gen::{Cfg, Ctx, TyOpt, G};
use crate::lex;
use crate::tape::Src;
use crate::tok::{count, toks};
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use venial::{Item, TypeExpr};

pub struct Counting;

thread_local! {
    static WORK: Cell<u64> = const { Cell::new(0) };
}

fn add_work(n: usize) {
    let _ = WORK.try_with(|w| w.set(w.get() + n as u64 + 16));
}

// SAFETY: everything is left to `System`
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add_work(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add_work(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add_work(n.saturating_sub(l.size()));
        System.realloc(p, l, n)
    }
}

fn work<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let a = WORK.with(|w| w.get());
    let r = f();
    (r, WORK.with(|w| w.get()) - a)
}

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C26",
        rule: "a generated part (field, variant, parameter, predicate, attribute, member, type, token) repeated n and 4n times side by side, or a generated form nested n and 4n levels deep (types, groups, modules, invisible groups), n from 3 to 40 (up to some 4000 tokens); parsing, printing, cloning, debug output and the type and generics accessors may do at most 20 times the work (allocated bytes and allocations) for 4n than for n, where quadratic growth is 16 times. Non-trivial: a part of at most 330 tokens.",
        quick: 70_000,
        thorough: 720_000,
        run: c26,
    });
}

const TY: TyOpt = TyOpt {
    plus: false,
    brace_mac: false,
    top_for: true,
    start_lt: true,
};

fn text(s: &mut Src, f: impl FnOnce(&mut G)) -> String {
    let cfg = Cfg {
        big: 3,
        depth: 2,
        strict: true,
        kinds: [4, 4, 2, 4, 3, 3, 0, 2, 2, 1, 2, 2, 1],
        ..Cfg::default()
    };
    let mut g = G::new(s, cfg);
    f(&mut g);
    format!("{}\n", g.out)
}

fn ty(s: &mut Src) -> String {
    text(s, |g| {
        g.ty(TY, 2);
    })
}

fn attr(s: &mut Src) -> String {
    text(s, |g| {
        g.attribute(false);
    })
}

/// Builds the item for a given n.
type Build = Box<dyn Fn(usize) -> TokenStream>;

fn wide(before: &str, part: String, between: &str, after: &str) -> Build {
    let (before, between, after) = (before.to_string(), between.to_string(), after.to_string());
    Box::new(move |n| {
        let parts: Vec<&str> = (0..n).map(|_| part.as_str()).collect();
        lex::lex(&format!("{before} {} {after}", parts.join(&between)))
    })
}

fn deep(before: &str, open: String, core: String, close: String, after: &str) -> Build {
    let (before, after) = (before.to_string(), after.to_string());
    Box::new(move |n| lex::lex(&format!("{before} {}{core}{} {after}", open.repeat(n), close.repeat(n))))
}

/// `HOLE` stands for the innermost tokens.
fn invisible(item: &'static str, core: String) -> Build {
    Box::new(move |n| {
        let mut inner = lex::lex(&core);
        for _ in 0..n {
            inner = TokenTree::Group(Group::new(Delimiter::None, inner)).into();
        }
        fill(lex::lex(item), &inner)
    })
}

fn fill(ts: TokenStream, hole: &TokenStream) -> TokenStream {
    ts.into_iter()
        .flat_map(|t| match t {
            TokenTree::Ident(i) if i == "HOLE" => hole.clone(),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), fill(g.stream(), hole))).into(),
            t => t.into(),
        })
        .collect()
}

fn build(s: &mut Src) -> (&'static str, Build) {
    match s.below(38) {
        0 => ("named fields", wide("struct A {", format!("{}pub a: {}", attr(s), ty(s)), ",", "}")),
        1 => ("tuple fields", wide("struct A (", format!("{}pub {}", attr(s), ty(s)), ",", ",);")),
        2 => ("unit variants", wide("enum A {", format!("{}V = 1", attr(s)), ",", "}")),
        3 => ("tuple variants", wide("enum A {", format!("V({}, {})", ty(s), ty(s)), ",", ",}")),
        4 => ("named variants", wide("enum A {", format!("V {{ a: {} }}", ty(s)), ",", "}")),
        5 => ("type params", wide("struct A <", format!("T: B<{}>", ty(s)), ",", ">;")),
        6 => ("const params", wide("fn a <", format!("const T: {}", ty(s)), ",", ">() {}")),
        7 => ("lifetime params", wide("impl <", "'a: 'b + 'c".into(), ",", "> A {}")),
        8 => {
            let p = text(s, |g| {
                g.predicate();
            });
            ("where predicates", wide("struct A where", p, ",", ";"))
        }
        9 => {
            let p = text(s, |g| {
                g.predicate();
            });
            ("where predicates", wide("fn a() where", p, ",", ",{}"))
        }
        10 => ("fn params", wide("fn a (", format!("{}mut a: {}", attr(s), ty(s)), ",", ") {}")),
        11 => ("attributes", wide("", attr(s), "", "struct A;")),
        12 => ("attributes", wide("mod a { fn a() {}", attr(s), "", "fn b() {} }")),
        13 => ("inner attributes", wide("impl A {", "#![a(b, c)]".into(), "", "}")),
        14 => {
            let p = text(s, |g| {
                g.item_in(Ctx::Mod, 4, 0);
            });
            ("module members", wide("mod a {", p, "", "}"))
        }
        15 => {
            let p = text(s, |g| {
                let a = g.attributes(false);
                g.function(a, Ctx::Impl);
            });
            ("impl members", wide("impl A for B {", p, "", "}"))
        }
        16 => {
            let p = text(s, |g| {
                let a = g.attributes(false);
                g.constant(a, Ctx::Impl);
            });
            ("impl members", wide("impl A {", p, "", "}"))
        }
        17 => {
            let p = text(s, |g| {
                let a = g.attributes(false);
                g.function(a, Ctx::Trait);
            });
            ("trait members", wide("trait A {", p, "", "}"))
        }
        18 => {
            let p = text(s, |g| {
                let a = g.attributes(false);
                g.type_alias(a, Ctx::Trait);
            });
            ("trait members", wide("trait A {", p, "", "}"))
        }
        19 => {
            let p = text(s, |g| {
                let a = g.attributes(false);
                g.function(a, Ctx::Extern);
            });
            ("extern members", wide("extern {", p, "", "}"))
        }
        20 => ("use tree", wide("use a::{", "b::{c, d as e}".into(), ",", "};")),
        21 => ("macro body", wide("a! {", text(s, |g| g.soup(1)), "", "}")),
        22 => ("fn body", wide("fn a() {", format!("let a: {} = 1;", ty(s)), "", "}")),
        23 => ("initializer", wide("const A: B =", text(s, |g| g.expr(2)), "+", ";")),
        24 => ("bounds", wide("fn a<T:", format!("A<{}>", ty(s)), "+", ">() {}")),
        25 => ("generic arguments", wide("type A = B<", ty(s), ",", ">;")),
        26 => ("path segments", wide("type A =", format!("a::<{}>", ty(s)), "::", ";")),
        27 => ("attribute tokens", wide("#[a(", text(s, |g| g.soup(1)), ",", ")] enum A {}")),
        28 => {
            let m = *s.pick(&["mod a {", "mod a { fn b() {} struct C(D);", "pub mod a { #![b]", "#[b] mod a { mod c; "]);
            ("modules", deep("", m.into(), "struct A;".into(), "}".into(), ""))
        }
        29 => {
            let o = *s.pick(&["A<", "A::B<'a, C, ", "A<B=", "A<{1}, ", "A<B<C>, "]);
            let c = *s.pick(&[">", ",>", ", C>", "> ::C"]);
            ("generic type", deep("struct A(", o.into(), ty(s), c.into(), ");"))
        }
        30 => {
            let (o, c) = *s.pick(&[("(", ")"), ("[", "]"), ("(A,", ",B)"), ("[", "; 1]"), ("&(", ")"), ("fn(", ") -> A")]);
            ("grouped type", deep("struct A { a:", o.into(), ty(s), c.into(), "}"))
        }
        31 => {
            let o = *s.pick(&["&", "&'a ", "&mut ", "*const ", "*mut "]);
            ("pointer type", deep("fn a(a:", o.into(), ty(s), "".into(), ") {}"))
        }
        32 => {
            let (o, c) = *s.pick(&[("Fn(", ") -> A"), ("Fn(A) -> B<", ">"), ("<", " as A>::B"), ("dyn A<", ">")]);
            ("type", deep("const A:", o.into(), "T".into(), c.into(), "= 1;"))
        }
        33 => {
            let (o, c) = *s.pick(&[("A<B:", ">"), ("A<", ">"), ("Fn(&dyn ", ")"), ("A<B=", ", C = D>")]);
            ("bound", deep("trait A<T:", o.into(), "B".into(), c.into(), "> {}"))
        }
        34 => {
            let (o, c) = *s.pick(&[("(", ")"), ("{", "}"), ("[", "]"), ("a! { b", "}"), ("|a|", ""), ("-", ""), ("if a { b } else {", "}")]);
            ("value", deep("const A: B =", o.into(), "c".into(), c.into(), ";"))
        }
        35 => {
            let (o, c) = *s.pick(&[("{", "}"), ("fn a() {", "}"), ("if a { b } else {", "}")]);
            ("body", deep("fn a() {", o.into(), "c".into(), c.into(), "}"))
        }
        36 => ("attribute groups", deep("#[a", "(".into(), "b".into(), ")".into(), "] struct A;")),
        _ => match s.below(3) {
            0 => ("invisible groups", invisible("struct A { a: HOLE }", ty(s))),
            1 => ("invisible groups", invisible("enum A { B = HOLE }", "1".into())),
            _ => ("invisible groups", invisible("fn a() -> HOLE {}", ty(s))),
        },
    }
}

fn types(i: &Item, out: &mut Vec<TypeExpr>) {
    match i {
        Item::Struct(x) => out.extend(x.field_types().into_iter().cloned()),
        Item::TypeAlias(x) => out.extend(x.initializer_ty.clone()),
        Item::Constant(x) => out.push(x.ty.clone()),
        Item::Function(x) => {
            for (p, _) in x.params.iter() {
                if let venial::FnParam::Typed(t) = p {
                    out.push(t.ty.clone());
                }
            }
            out.extend(x.return_ty.clone());
        }
        _ => (),
    }
}

/// What each use of an item of that size costs.
fn costs(ts: TokenStream) -> Result<Vec<(&'static str, u64)>, String> {
    let (r, parse) = work(|| guard(|| venial::parse_item(ts)));
    let i = match r {
        Ok(Ok(i)) => i,
        Ok(Err(e)) => return Err(format!("a supported item is rejected with an error: {e}")),
        Err(m) => return Err(format!("a supported item is rejected with a panic: {m}")),
    };
    let mut t = Vec::new();
    types(&i, &mut t);
    let r = guard(|| {
        vec![
            ("parsing", parse),
            ("printing", work(|| i.to_token_stream().into_iter().count()).1),
            ("cloning", work(|| i.clone()).1),
            ("debug output", work(|| format!("{i:?}")).1),
            ("span()", work(|| i.span()).1),
            ("as_path()", work(|| t.iter().filter_map(|t| t.as_path()).count()).1),
            (
                "get_inline_generic_args()",
                work(|| i.generic_params().map(|g| g.as_inline_args().to_owned_args().to_token_stream().into_iter().count())).1,
            ),
        ]
    });
    r.map_err(|m| format!("using a parsed item panics: {m}"))
}

fn c26(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let n = 6 + s.below(35) as usize;
    let (what, b) = build(s);
    // quadratic growth is slow enough
    let size = count(&toks(b(1)));
    if size > 330 {
        o.label("part too large");
        return Ok(());
    }
    let n = n.min(4000 / 4 / size).max(3);
    o.label(what);
    o.nontrivial = true;
    o.text = format!("{n} and {} times, as here 2 times ({what}):\n{}", 4 * n, b(2));
    // small sizes first, to see an explosion early
    for n in [2, 3, 4, n] {
        let small = costs(b(n))?;
        let large = costs(b(4 * n))?;
        for ((op, x), (_, y)) in small.iter().zip(&large) {
            if *y > 20 * x + 20_000 {
                return Err(format!(
                    "{op} does {x} units of work for {n} times {what}, and {y} for {} times: more than quadratic growth",
                    4 * n
                ));
            }
        }
    }
    Ok(())
}
