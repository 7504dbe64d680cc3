//! From generated text to the token stream that is parsed.

use crate::gen::{Cfg, Ctx, Kind, G};
use crate::node::{resolve, Node, E, R};
use crate::tape::Src;
use crate::tok::{sp, toks, Tok};
use crate::HarnessBug;
use proc_macro2::{Delimiter, Group, Punct, Spacing, TokenStream, TokenTree};
use std::collections::{BTreeMap, HashSet};
use std::str::FromStr;

pub fn lex(text: &str) -> TokenStream {
    match TokenStream::from_str(text) {
        Ok(ts) => ts,
        Err(e) => std::panic::panic_any(HarnessBug(format!("generated text doesn't lex: {e}: {text:?}"))),
    }
}

/// Spacing as `quote!` produces it: only the inside of multi-character operators is joint.
pub fn quote_spacing(ts: TokenStream, joint: &HashSet<usize>) -> TokenStream {
    ts.into_iter()
        .map(|tt| match tt {
            TokenTree::Punct(p) => {
                let lo = sp(p.span()).0;
                let s = if joint.contains(&lo) && p.spacing() == Spacing::Joint {
                    Spacing::Joint
                } else {
                    Spacing::Alone
                };
                let mut n = Punct::new(p.as_char(), s);
                n.set_span(p.span());
                TokenTree::Punct(n)
            }
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), quote_spacing(g.stream(), joint));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            tt => tt,
        })
        .collect()
}

/// Every punct as far apart as possible, or all joint where the next token is a punct, without
/// touching `::`, `->` and lifetimes.
pub fn respace(ts: TokenStream, joint: &HashSet<usize>, src: &mut Src) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let n = v.len();
    (0..n)
        .map(|i| match &v[i] {
            TokenTree::Punct(p) => {
                let lo = sp(p.span()).0;
                let next_punct = matches!(v.get(i + 1), Some(TokenTree::Punct(_)));
                // `:` next to `::` would change its meaning
                let colon = p.as_char() == ':';
                let s = if joint.contains(&lo) {
                    p.spacing()
                } else if next_punct && !colon && src.chance(50) {
                    Spacing::Joint
                } else {
                    Spacing::Alone
                };
                let mut q = Punct::new(p.as_char(), s);
                q.set_span(p.span());
                TokenTree::Punct(q)
            }
            TokenTree::Group(g) => {
                let mut q = Group::new(g.delimiter(), respace(g.stream(), joint, src));
                q.set_span(g.span());
                TokenTree::Group(q)
            }
            tt => tt.clone(),
        })
        .collect()
}

/// Put the tokens of each range in an invisible group.
pub fn wrap(ts: TokenStream, wraps: &[R]) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = Vec::new();
    let mut i = 0;
    while i < v.len() {
        let lo = sp(v[i].span()).0;
        // the longest range that starts here
        let best = wraps.iter().filter(|r| r.0 == lo).max_by_key(|r| r.1).copied();
        if let Some(r) = best {
            let mut j = i;
            while j < v.len() && sp(v[j].span()).1 <= r.1 {
                j += 1;
            }
            if j > i && sp(v[j - 1].span()).1 == r.1 {
                let rest: Vec<R> = wraps.iter().filter(|x| **x != r).copied().collect();
                let first = v[i].span();
                let last = v[j - 1].span();
                let inner = wrap(v[i..j].iter().cloned().collect(), &rest);
                let mut g = Group::new(Delimiter::None, inner);
                if let Some(s) = first.join(last) {
                    g.set_span(s);
                }
                out.push(TokenTree::Group(g));
                i = j;
                continue;
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), wrap(g.stream(), wraps));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            tt => out.push(tt.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

/// A generated item and everything that is known about it.
pub struct Case {
    pub text: String,
    pub stream: TokenStream,
    pub toks: Vec<Tok>,
    pub exp: Node,
    pub joint: HashSet<usize>,
    pub wraps: Vec<R>,
    pub complex: Vec<R>,
    pub labels: BTreeMap<&'static str, u32>,
}

/// How tokens reach the parser: from source text, as `quote!` makes them, with invisible groups.
pub fn finish(text: String, e: E, joint: HashSet<usize>, wraps: Vec<R>, quote: bool) -> Case {
    let mut stream = lex(&text);
    if quote {
        stream = quote_spacing(stream, &joint);
    }
    if !wraps.is_empty() {
        stream = wrap(stream, &wraps);
    }
    let t = toks(stream.clone());
    let exp = resolve(&e, &t);
    Case {
        text,
        stream,
        toks: t,
        exp,
        joint,
        wraps,
        complex: vec![],
        labels: BTreeMap::new(),
    }
}

/// Generate with `f`; the transport mode is part of the tape.
pub fn make(s: &mut Src, mut cfg: Cfg, f: impl FnOnce(&mut G) -> E) -> Case {
    let quote = s.chance(25);
    if s.chance(25) {
        cfg.p_wrap = 12;
    }
    let mut g = G::new(s, cfg);
    let e = f(&mut g);
    let (out, joint, wraps, labels, complex) = (
        std::mem::take(&mut g.out),
        std::mem::take(&mut g.joint),
        std::mem::take(&mut g.wraps),
        std::mem::take(&mut g.labels),
        std::mem::take(&mut g.complex),
    );
    let mut c = finish(out, e, joint, wraps, quote);
    c.labels = labels;
    c.complex = complex;
    if quote {
        c.labels.insert("quote spacing", 1);
    }
    if !c.wraps.is_empty() {
        c.labels.insert("invisible groups", 1);
    }
    c
}

pub fn item(s: &mut Src, cfg: Cfg) -> Case {
    make(s, cfg, |g| g.item())
}

pub fn item_kind(s: &mut Src, cfg: Cfg, k: Kind) -> Case {
    make(s, cfg, |g| g.item_of(k, Ctx::Top, 0, 0))
}
