//! C11: arbitrary token streams are rejected or kept whole.

use super::guard;
use crate::engine::{Obs, Prop};
use crate::gen::{Cfg, Ctx, G, ALL_KINDS};
use crate::lex;
use crate::props::structure::{kind_name, printed};
use crate::tape::Src;
use crate::tok::{count, first_diff, same, show, tok, toks, toks_of, Tok, CONTENT, EXACT};
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::str::FromStr;

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C11",
        rule: "token streams that are mostly not valid items: valid items of all kinds with 1 to 6 random edits at any depth (delete, duplicate, move, replace, insert, splice from another item, change delimiter, wrap in any group, change spacing), truncations, concatenations, and keyword-rich token soup. Whatever parse_item or consume_item accepts has to print back as exactly the tokens consumed, with nothing lost from the rest; two runs have to agree. Non-trivial: at least 4 tokens; classes say how many were accepted.",
        quick: 1_200_000,
        thorough: 24_000_000,
        run: c11,
    });
}

const WORDS: [&str; 48] = [
    "struct", "enum", "union", "fn", "impl", "trait", "mod", "const", "static", "type", "use",
    "extern", "crate", "pub", "unsafe", "async", "default", "auto", "where", "for", "mut", "self",
    "Self", "dyn", "macro_rules", "A", "B", "T", "x", "in", "as", "_", "super", "ref", "move",
    "r#fn", "r#struct", "let", "match", "if", "return", "box", "safe", "true", "static", "pub",
    "const", "where",
];
const OPS: [char; 20] = [
    ',', ';', ':', '=', '<', '>', '#', '!', '&', '\'', '-', '+', '*', '|', '?', '.', '$', '@', '/',
    '~',
];

fn word(w: &str) -> TokenTree {
    match TokenStream::from_str(w).unwrap().into_iter().next() {
        Some(t) => t,
        None => TokenTree::Ident(Ident::new("A", Span::call_site())),
    }
}

fn any_token(s: &mut Src, d: u32) -> Vec<TokenTree> {
    match s.weighted(&[35, 30, 8, 10, 10, 4, 3]) {
        0 => vec![word(s.pick(&WORDS))],
        1 => {
            let sp = if s.chance(40) { Spacing::Joint } else { Spacing::Alone };
            vec![TokenTree::Punct(Punct::new(*s.pick(&OPS), sp))]
        }
        2 => {
            let l = *s.pick(&["0", "\"C\"", "1.5", "'c'", "\"s\"", "b\"x\"", "1u8"]);
            vec![TokenTree::Literal(Literal::from_str(l).unwrap())]
        }
        3 => {
            // `::`, `->`, `=>`
            let (a, b) = *s.pick(&[(':', ':'), ('-', '>'), ('=', '>'), ('>', '>'), ('<', '<')]);
            vec![
                TokenTree::Punct(Punct::new(a, Spacing::Joint)),
                TokenTree::Punct(Punct::new(b, Spacing::Alone)),
            ]
        }
        4 => {
            let n = s.below(4);
            let mut inner = Vec::new();
            if d < 4 {
                for _ in 0..n {
                    inner.extend(any_token(s, d + 1));
                }
            }
            vec![group(s, inner)]
        }
        5 => vec![
            TokenTree::Punct(Punct::new('\'', Spacing::Joint)),
            word(s.pick(&["a", "static", "_"])),
        ],
        _ => {
            // an attribute
            let inner = word(s.pick(&["A", "doc", "cfg"]));
            vec![
                TokenTree::Punct(Punct::new('#', Spacing::Alone)),
                TokenTree::Group(Group::new(Delimiter::Bracket, TokenStream::from(inner))),
            ]
        }
    }
}

fn group(s: &mut Src, inner: Vec<TokenTree>) -> TokenTree {
    let d = *s.pick(&[
        Delimiter::Parenthesis,
        Delimiter::Brace,
        Delimiter::Bracket,
        Delimiter::None,
    ]);
    TokenTree::Group(Group::new(d, inner.into_iter().collect()))
}

/// One edit, at a random place.
fn edit(s: &mut Src, v: &mut Vec<TokenTree>, donor: &[TokenTree], d: u32) {
    // go down into a group?
    let groups: Vec<usize> = v
        .iter()
        .enumerate()
        .filter(|(_, t)| matches!(t, TokenTree::Group(_)))
        .map(|(i, _)| i)
        .collect();
    if d < 8 && !groups.is_empty() && s.chance(55) {
        let i = *s.pick(&groups);
        if let TokenTree::Group(g) = &v[i] {
            let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
            edit(s, &mut inner, donor, d + 1);
            let mut n = Group::new(g.delimiter(), inner.into_iter().collect());
            n.set_span(g.span());
            v[i] = TokenTree::Group(n);
        }
        return;
    }
    let n = v.len() as u32;
    let at = s.below(n + 1) as usize;
    let i = at.min(v.len().saturating_sub(1));
    match s.weighted(&[22, 14, 8, 14, 16, 8, 6, 6, 6, 14]) {
        0 if n > 0 => {
            v.remove(i);
        }
        1 => {
            let t = any_token(s, 2);
            for (k, t) in t.into_iter().enumerate() {
                v.insert(at + k, t);
            }
        }
        2 if n > 0 => {
            let t = v[i].clone();
            v.insert(at, t);
        }
        3 if n > 0 => {
            let t = any_token(s, 2);
            v.splice(i..i + 1, t);
        }
        4 if n > 1 => {
            let j = s.below(n) as usize;
            v.swap(i, j);
        }
        5 if !donor.is_empty() => {
            let a = s.below(donor.len() as u32) as usize;
            let len = 1 + s.below(4) as usize;
            let b = (a + len).min(donor.len());
            for (k, t) in donor[a..b].iter().enumerate() {
                v.insert(at + k, t.clone());
            }
        }
        6 if n > 0 => {
            // wrap a run in a group
            let b = (i + 1 + s.below(3) as usize).min(v.len());
            let run: Vec<TokenTree> = v.drain(i..b).collect();
            let g = group(s, run);
            v.insert(i, g);
        }
        7 if n > 0 => {
            // other delimiter, or unwrap
            if let TokenTree::Group(g) = v[i].clone() {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                if s.chance(50) {
                    v.splice(i..i + 1, inner);
                } else {
                    v[i] = group(s, inner);
                }
            } else if s.chance(50) {
                v.truncate(i);
            }
        }
        8 if n > 0 => {
            if let TokenTree::Punct(p) = &v[i] {
                let sp = match p.spacing() {
                    Spacing::Alone => Spacing::Joint,
                    Spacing::Joint => Spacing::Alone,
                };
                let mut q = Punct::new(p.as_char(), sp);
                q.set_span(p.span());
                v[i] = TokenTree::Punct(q);
            } else {
                v.remove(i);
            }
        }
        9 => {
            // a whole construct, half of the time where one could begin
            let ends: Vec<usize> = (0..=v.len())
                .filter(|&i| {
                    i == 0
                        || i == v.len()
                        || match &v[i - 1] {
                            TokenTree::Punct(p) => matches!(p.as_char(), ';' | ','),
                            TokenTree::Group(g) => g.delimiter() != Delimiter::None,
                            _ => false,
                        }
                })
                .collect();
            let at = if s.chance(50) { *s.pick(&ends) } else { at };
            let t = lex::lex(s.pick(&SNIPPETS));
            for (k, t) in t.into_iter().enumerate() {
                v.insert(at + k, t);
            }
        }
        _ => {
            let t = any_token(s, 2);
            v.extend(t);
        }
    }
}

const SNIPPETS: [&str; 40] = [
    "#![a]", "#![a = 1]", "//! a\n", "/// a\n", "#[a]", "#[a(b)]", "#", "#!", "pub(crate)", "pub(in a)", "crate", "<T>", "<>", "<'a, T: A>",
    "::<T>", "where T: A", "where T: A,", "where", ": A + B", "= 1", "-> T", "=> T", "'a", "&'a mut", "as b", "unsafe extern \"C\"", "for<'a>", "!",
    ";;", ",,", "a: T", "self", "mut", "\"C\"", "fn f();", "const A: B = 1;", "struct S;", "a!();", "a! {}", "{} {}",
];

fn small(s: &mut Src) -> Vec<TokenTree> {
    let cfg = Cfg {
        big: 4,
        depth: 2,
        ..Cfg::default()
    };
    let k = *s.pick(&ALL_KINDS);
    let mut g = G::new(s, cfg);
    g.item_of(k, Ctx::Top, 2, 20);
    let text = std::mem::take(&mut g.out);
    lex::lex(&text).into_iter().collect()
}

fn c11(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let mode = s.weighted(&[65, 15, 8, 12]);
    let mut v = match mode {
        0 => {
            let mut v = small(s);
            let donor = if s.chance(40) { small(s) } else { vec![] };
            let n = 1 + s.weighted(&[45, 25, 12, 8, 5, 5]);
            for _ in 0..n {
                edit(s, &mut v, &donor, 0);
            }
            o.label("edited item");
            v
        }
        1 => {
            let n = 1 + s.below(12);
            let mut v = Vec::new();
            for _ in 0..n {
                v.extend(any_token(s, 0));
            }
            o.label("token soup");
            v
        }
        2 => {
            let mut v = small(s);
            let n = s.below(v.len() as u32 + 1) as usize;
            v.truncate(n);
            o.label("truncated item");
            v
        }
        _ => {
            // keyword first, then soup
            let mut v = Vec::new();
            if s.chance(30) {
                v.push(word("pub"));
            }
            v.push(word(WORDS[s.below(12) as usize]));
            v.push(word(s.pick(&["A", "B", "crate", "fn", "mut"])));
            let n = s.below(8);
            for _ in 0..n {
                v.extend(any_token(s, 0));
            }
            o.label("soup after a keyword");
            v
        }
    };
    if s.chance(10) {
        let g = group(s, vec![]);
        v.push(g);
    }
    let stream: TokenStream = v.iter().cloned().collect();
    let input = toks_of(&v);
    o.text = show(&input);
    o.nontrivial = count(&input) >= 4;

    // --- parse_item
    let r = guard(|| venial::parse_item(stream.clone()));
    match &r {
        Ok(Ok(i)) => {
            o.label("parse_item accepts");
            let out = printed(i);
            if !same(&input, &out, EXACT) {
                let n = if same(&input, &out, CONTENT) { EXACT } else { CONTENT };
                return Err(format!(
                    "accepted as {}, but printed differently: {}\nprinted: {}",
                    kind_name(i),
                    first_diff(&input, &out, n),
                    show(&out)
                ));
            }
        }
        Ok(Err(e)) => {
            o.label("parse_item returns an error");
            if e.to_string().is_empty() {
                return Err("an error without message".into());
            }
        }
        Err(_) => o.label("parse_item panics"),
    }

    // --- consume_item
    let mut iter = stream.clone().into_iter().peekable();
    let r2 = guard(|| venial::consume_item(&mut iter));
    match (&r, &r2) {
        (Ok(Ok(_)), Ok(Ok(_))) | (Err(_), Ok(Ok(_))) | (Err(_), Err(_)) => (),
        (Ok(Err(_)), Ok(Err(_))) | (Err(_), Ok(Err(_))) => (),
        _ => {
            return Err(format!(
                "parse_item and consume_item disagree: {} / {}",
                verdict(&r),
                verdict(&r2)
            ))
        }
    }
    if let Ok(Ok(i)) = &r2 {
        o.label("consume_item accepts");
        let mut out = printed(i);
        let rest: Vec<TokenTree> = iter.collect();
        if r.is_ok() != rest.is_empty() {
            return Err(format!(
                "parse_item {} although consume_item leaves `{}`",
                verdict(&r),
                show(&toks_of(&rest))
            ));
        }
        out.extend(rest.iter().map(tok));
        if !same(&input, &out, EXACT) {
            let n = if same(&input, &out, CONTENT) { EXACT } else { CONTENT };
            return Err(format!(
                "consumed as {}, but the printed item and the rest of the stream aren't the input: {}\ngot: {}",
                kind_name(i),
                first_diff(&input, &out, n),
                show(&out)
            ));
        }
        let a = crate::dump::item(i);
        if rest.is_empty() {
            // what was accepted is accepted again, as the same
            let again = match guard(|| venial::parse_item(quote::ToTokens::to_token_stream(i))) {
                Ok(Ok(i)) => i,
                _ => return Err("the printed item is rejected when parsed again".into()),
            };
            let b = crate::dump::item(&again);
            if let Some(d) = crate::node::compare(&a, &b, EXACT) {
                return Err(format!("the printed item parses as something else: {}{d}", a.kind()));
            }
        }
        // the parts alone hold all tokens as well
        let parts: Vec<Tok> = crate::node::print(&a);
        let whole = toks(quote::ToTokens::to_token_stream(i));
        if !same(&parts, &whole, CONTENT) {
            return Err(format!(
                "the parts of the item don't make up the printed item: {}",
                first_diff(&whole, &parts, CONTENT)
            ));
        }
    }
    Ok(())
}

fn verdict(r: &Result<Result<venial::Item, venial::Error>, String>) -> String {
    match r {
        Ok(Ok(_)) => "accepts".into(),
        Ok(Err(e)) => format!("returns the error `{e}`"),
        Err(m) => format!("panics with `{m}`"),
    }
}
