//! C13: types seen as paths.

use super::guard;
use crate::dump;
use crate::engine::{Obs, Prop};
use crate::gen::{Cfg, TyInfo, G, PC, TY_ALL};
use crate::lex;
use crate::node::{compare, resolve, tokens_in};
use crate::tape::Src;
use crate::tok::{count, first_diff, same, show, toks, toks_of, Tok, CONTENT, EXACT, TK};
use proc_macro2::TokenTree;
use quote::ToTokens;
use venial::{Item, TypeExpr};

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C13",
        rule: "random types of every form (paths with generic arguments of all kinds and nesting, turbofish, leading `::`; references, tuples, arrays, pointers, fn pointers, dyn/impl, qualified paths, macros, never), bare or as a whole in an invisible group, as a TypeExpr of their own and as the type of a field, param, constant or alias of a parsed item; plus arbitrary tokens. as_path has to return exactly the generated segments and arguments for a path, None for another form, and never lose tokens; the path can be formatted for debugging. Non-trivial: at least 3 tokens.",
        quick: 3_600_000,
        thorough: 72_000_000,
        run: c13,
    });
}

fn inner_of(t: &[Tok]) -> Vec<Tok> {
    match t {
        [Tok {
            k: TK::Group('N', inner),
            ..
        }] => inner.clone(),
        t => t.to_vec(),
    }
}

fn check(info: &TyInfo, all: &[Tok], ty: &TypeExpr, o: &mut Obs) -> Result<(), String> {
    let tokens = tokens_in(all, info.r);
    let inner = inner_of(&tokens);
    let got = match guard(|| ty.as_path()) {
        Ok(p) => p,
        Err(m) => return Err(format!("as_path panics on `{}`: {m}", show(&tokens))),
    };
    match (&info.pc, got) {
        (PC::Yes(e), Some(p)) => {
            o.label("path");
            let want = resolve(e, &inner);
            if let Some(d) = compare(&want, &dump::path(&p), EXACT) {
                return Err(format!("path{d}"));
            }
            let out = toks(p.to_token_stream());
            if !same(&inner, &out, EXACT) {
                return Err(format!(
                    "the path prints differently: {}",
                    first_diff(&inner, &out, EXACT)
                ));
            }
            nested_args(&p)?;
            // Paths can be shown, with all of their names, and copied
            let text = guard(|| format!("{p:?}")).map_err(|m| format!("formatting the path of `{}` with {{:?}} panics: {m}", show(&tokens)))?;
            if let Some(x) = p.segments.iter().find(|x| !text.contains(&x.ident.to_string())) {
                return Err(format!("the debug output `{text}` of the path lacks `{}`", x.ident));
            }
            if text != format!("{:?}", p.clone()) {
                return Err("a clone of the path has other debug output".into());
            }
            Ok(())
        }
        (PC::Yes(_), None) => Err(format!("`{}` isn't recognised as a path", show(&tokens))),
        (PC::No(what), Some(p)) => Err(format!(
            "the {what} type `{}` is taken for the path `{}`",
            show(&tokens),
            show(&toks(p.to_token_stream()))
        )),
        (PC::No(what), None) => {
            o.label(what);
            Ok(())
        }
        (PC::Unspec, Some(p)) => {
            let out = toks(p.to_token_stream());
            if !same(&inner, &out, EXACT) {
                return Err(format!(
                    "the path of `{}` has other tokens: {}",
                    show(&tokens),
                    first_diff(&inner, &out, EXACT)
                ));
            }
            Ok(())
        }
        (PC::Unspec, None) => Ok(()),
    }
}

/// The arguments of a path are types as well.
fn nested_args(p: &venial::Path) -> Result<(), String> {
    for s in &p.segments {
        if let Some(a) = &s.generic_args {
            for a in a.args.items() {
                let ty = match a {
                    venial::GenericArg::Binding { ty, .. } => ty,
                    venial::GenericArg::TypeOrConst { expr } => expr,
                    _ => continue,
                };
                let t = toks_of(&ty.tokens);
                match guard(|| ty.as_path()) {
                    Err(m) => return Err(format!("as_path panics on `{}`: {m}", show(&t))),
                    Ok(Some(p)) => {
                        let out = toks(p.to_token_stream());
                        let inner = inner_of(&t);
                        if !same(&inner, &out, EXACT) {
                            return Err(format!(
                                "the path of `{}` has other tokens: {}",
                                show(&t),
                                first_diff(&inner, &out, EXACT)
                            ));
                        }
                        nested_args(&p)?;
                    }
                    Ok(None) => (),
                }
            }
        }
    }
    Ok(())
}

fn c13(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let mode = s.weighted(&[50, 35, 15]);
    if mode == 2 {
        return soup(s, o);
    }
    let depth = 1 + s.below(4);
    let cfg = Cfg {
        big: 8,
        depth,
        ..Cfg::default()
    };
    let mut info = None;
    let place = s.below(6);
    let wrap_all = s.chance(20);
    let mut c = lex::make(s, cfg, |g| {
        let ty = |g: &mut G| {
            let t = g.ty(TY_ALL, depth);
            if wrap_all && !g.wraps.contains(&t.r) {
                g.mark(t.r, "ty", false);
            }
            t
        };
        if mode == 0 {
            info = Some(ty(g));
            return crate::node::E::None;
        }
        match place {
            0 | 1 => {
                g.t("struct");
                g.t("A");
                g.group(if place == 0 { '(' } else { '{' }, |g| {
                    if place == 1 {
                        g.t("x");
                        g.t(":");
                    }
                    info = Some(ty(g));
                });
                if place == 0 {
                    g.t(";");
                }
            }
            2 => {
                g.t("fn");
                g.t("f");
                g.group('(', |g| {
                    g.t("x");
                    g.t(":");
                    info = Some(ty(g));
                });
                g.t(";");
            }
            3 => {
                g.t("const");
                g.t("X");
                g.t(":");
                info = Some(ty(g));
                g.t("=");
                g.t("0");
                g.t(";");
            }
            4 => {
                g.t("type");
                g.t("X");
                g.t("=");
                info = Some(ty(g));
                g.t(";");
            }
            _ => {
                g.t("union");
                g.t("U");
                g.group('{', |g| {
                    g.t("x");
                    g.t(":");
                    info = Some(ty(g));
                });
            }
        }
        crate::node::E::None
    });
    o.case(&c);
    let info = info.unwrap();
    o.nontrivial = count(&c.toks) >= 3;
    if mode == 0 {
        let ty = TypeExpr {
            tokens: c.stream.into_iter().collect(),
        };
        return check(&info, &c.toks, &ty, o);
    }
    o.label("type of a parsed item");
    let i = super::must_parse(std::mem::take(&mut c.stream))?;
    let ty = match &i {
        Item::Struct(x) => match &x.fields {
            venial::Fields::Tuple(f) => f.fields.items().next().map(|f| f.ty.clone()),
            venial::Fields::Named(f) => f.fields.items().next().map(|f| f.ty.clone()),
            _ => None,
        },
        Item::Union(x) => x.fields.fields.items().next().map(|f| f.ty.clone()),
        Item::Function(f) => match f.params.items().next() {
            Some(venial::FnParam::Typed(t)) => Some(t.ty.clone()),
            _ => None,
        },
        Item::Constant(x) => Some(x.ty.clone()),
        Item::TypeAlias(x) => x.initializer_ty.clone(),
        _ => None,
    };
    let Some(ty) = ty else {
        return Err("the item has no type".into());
    };
    check(&info, &c.toks, &ty, o)
}

/// Arbitrary tokens: None, or a path that is all of them.
fn soup(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let n = 1 + s.below(9);
    let mut text = String::new();
    for _ in 0..n {
        let w = *s.pick(&[
            "A ", "::", "<", ">", "B ", ",", "A ", "::", "<", ">", "<", ">", ",", "A<", ">", "A::", ",>", "x ", "'a ", "=", "(A) ", "[A] ", "0 ", "dyn ", "self ",
            "&", "crate ", "->", "{} ", ":", "mut ", "Self ", "as ", "+",
        ]);
        text.push_str(w);
    }
    let tokens: Vec<TokenTree> = lex::lex(&text).into_iter().collect();
    let t = toks_of(&tokens);
    o.text = show(&t);
    o.nontrivial = count(&t) >= 3;
    o.label("arbitrary tokens");
    let ty = TypeExpr { tokens };
    // a panic is a rejection of what isn't a type
    if let Ok(Some(p)) = guard(|| ty.as_path()) {
        o.label("arbitrary tokens that are a path");
        let out = toks(p.to_token_stream());
        if !same(&t, &out, CONTENT) {
            return Err(format!(
                "the path of `{}` has other tokens: {}",
                show(&t),
                first_diff(&t, &out, CONTENT)
            ));
        }
    }
    Ok(())
}
