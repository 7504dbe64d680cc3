//! Known findings: defects that are recorded and not repaired. Each is tried again on every run.

use super::{parse, Parsed};
use crate::tok::{same, toks, CONTENT};
use proc_macro2::{Delimiter, Group, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::str::FromStr;

/// The KNOWN-FINDING lines of property `id`, for the findings that still fail.
pub fn findings(id: &str, text: &str) -> Result<Vec<String>, String> {
    let mut out = Vec::new();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: property=") else {
            continue;
        };
        let bad = || format!("known_findings.txt: {line}");
        let (prop, rest) = rest.split_once(' ').ok_or_else(bad)?;
        if prop != id {
            continue;
        }
        let (kind, rest) = rest.split_once(" `").ok_or_else(bad)?;
        let (input, what) = rest.rsplit_once("` ").ok_or_else(bad)?;
        // the input ends at the first backtick
        let (input, what) = match input.split_once("` ") {
            Some((i, w)) => (i, format!("{w}` {what}")),
            None => (input, what.to_string()),
        };
        let fails = match kind {
            "reject" => {
                let ts = TokenStream::from_str(input).map_err(|_| bad())?;
                !accepted(ts)
            }
            "reject-group" => {
                let ts = TokenStream::from_str(input).map_err(|_| bad())?;
                !accepted(invisible(ts))
            }
            // the visibility of the first field of a tuple struct is taken for part of its type
            "vis-in-type" => {
                let ts = TokenStream::from_str(input).map_err(|_| bad())?;
                match parse(invisible(ts)) {
                    Parsed::Item(venial::Item::Struct(s)) => match s.fields {
                        venial::Fields::Tuple(f) => f.fields.first().is_some_and(|f| f.0.vis_marker.is_none()),
                        _ => true,
                    },
                    _ => true,
                }
            }
            "apostrophe-spacing" => {
                let p = super::guard(|| {
                    venial::GenericParam::bounded_lifetime("a", quote::quote!('b).into_iter().collect())
                });
                !matches!(
                    p.map(|p| p.tk_prefix),
                    Ok(Some(TokenTree::Punct(p))) if p.spacing() == Spacing::Joint
                )
            }
            _ => return Err(bad()),
        };
        if fails {
            out.push(format!("KNOWN-FINDING: property={id} `{input}`: {what}"));
        }
    }
    Ok(out)
}

/// `inv![ ... ]` stands for an invisible group.
fn invisible(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i..] {
            [TokenTree::Ident(id), TokenTree::Punct(_), TokenTree::Group(g), ..] if id == "inv" => {
                out.push(TokenTree::Group(Group::new(Delimiter::None, invisible(g.stream()))));
                i += 3;
            }
            [TokenTree::Group(g), ..] => {
                let mut new = Group::new(g.delimiter(), invisible(g.stream()));
                new.set_span(g.span());
                out.push(TokenTree::Group(new));
                i += 1;
            }
            _ => {
                out.push(v[i].clone());
                i += 1;
            }
        }
    }
    out.into_iter().collect()
}

fn accepted(ts: TokenStream) -> bool {
    match parse(ts.clone()) {
        Parsed::Item(i) => same(&toks(ts), &toks(i.to_token_stream()), CONTENT),
        _ => false,
    }
}
