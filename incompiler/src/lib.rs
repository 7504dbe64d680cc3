//! A procedural macro that runs venial inside of the compiler and reports what it did.
//!
//! `check! { 17 struct A; }` appends a report on item 17 to the file `VPBT_OUT` and expands to nothing.

mod derived;
#[allow(dead_code)]
#[path = "../../harness/src/dump.rs"]
mod dump;
#[allow(dead_code)]
#[path = "../../harness/src/node.rs"]
mod node;
#[allow(dead_code)]
#[path = "../../harness/src/tok.rs"]
mod tok;
#[allow(dead_code)]
#[path = "../../harness/src/wire.rs"]
mod wire;

use proc_macro2::{Spacing, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[allow(dead_code)]
struct HarnessBug(String);

/// An item, and the impls that a macro writes for it.
#[proc_macro]
pub fn derived(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    answer(input, true)
}

#[proc_macro_attribute]
pub fn attribute(_args: proc_macro::TokenStream, input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    answer(input, true)
}

#[proc_macro_derive(Derived)]
pub fn derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    answer(input, false)
}

fn answer(input: proc_macro::TokenStream, print: bool) -> proc_macro::TokenStream {
    let r = catch_unwind(AssertUnwindSafe(|| derived::derived(input.into(), print)));
    let message = match r {
        Ok(t) => return t.into(),
        Err(p) => match (p.downcast_ref::<String>(), p.downcast_ref::<&str>()) {
            (Some(s), _) => s.clone(),
            (_, Some(s)) => s.to_string(),
            _ => "?".into(),
        },
    };
    let message = format!("panic: {message}");
    quote::quote!(compile_error!(#message);).into()
}

#[proc_macro]
pub fn check(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let mut tokens = TokenStream::from(input).into_iter();
    let index = tokens.next().expect("index");
    let base = format!("{:?}", index.span());
    let input: Vec<TokenTree> = tokens.collect();
    let stream: TokenStream = input.iter().cloned().collect();
    let r = catch_unwind(AssertUnwindSafe(|| report(stream, &input)));
    let text = match r {
        Ok(t) => t,
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else if p.downcast_ref::<HarnessBug>().is_some() {
                return proc_macro::TokenStream::new();
            } else {
                "panic".to_string()
            };
            format!("panic\n{m}")
        }
    };
    let out = std::env::var("VPBT_OUT").expect("VPBT_OUT");
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(out).expect("VPBT_OUT");
    // index, base span, length, text
    let line = format!("{index}\n{base}\n{}\n{text}\n", text.len());
    f.write_all(line.as_bytes()).expect("VPBT_OUT");
    proc_macro::TokenStream::new()
}

fn report(stream: TokenStream, input: &[TokenTree]) -> String {
    match venial::parse_item(stream) {
        Ok(item) => {
            let printed: Vec<TokenTree> = item.to_token_stream().into_iter().collect();
            let diff = diff(input, &printed).unwrap_or_default();
            // span() covers the item
            let first = format!("{:?}", input[0].span());
            let last = format!("{:?}", input[input.len() - 1].span());
            let span = format!("{:?}", item.span());
            // what else users do with an item
            let _ = format!("{item:?} {item:#?} {:?}", item.name());
            let again = item.clone().to_token_stream().to_string() == item.to_token_stream().to_string();
            let mut t = String::from("item\n");
            t.push_str(&format!("{}\n{first}\n{last}\n{span}\n{again}\n", diff.replace('\n', " ")));
            wire::write(&dump::item(&item), &mut t);
            t
        }
        Err(e) => {
            let tokens: Vec<TokenTree> = e.to_compile_error().into_iter().collect();
            let spans: Vec<String> = tokens.iter().map(|t| format!("{:?}", t.span())).collect();
            format!("error\n{}\n{:?}\n{}\n{}", e, e.span(), spans.join(" "), e.to_compile_error())
        }
    }
}

fn span_eq(a: Span, b: Span) -> bool {
    format!("{a:?}") == format!("{b:?}")
}

/// The first difference in text, spacing, delimiters, nesting or span.
fn diff(a: &[TokenTree], b: &[TokenTree]) -> Option<String> {
    for (x, y) in a.iter().zip(b) {
        let same = match (x, y) {
            (TokenTree::Ident(x), TokenTree::Ident(y)) => x.to_string() == y.to_string(),
            (TokenTree::Literal(x), TokenTree::Literal(y)) => x.to_string() == y.to_string(),
            (TokenTree::Punct(x), TokenTree::Punct(y)) => {
                x.as_char() == y.as_char() && (x.spacing() == Spacing::Joint) == (y.spacing() == Spacing::Joint)
            }
            (TokenTree::Group(x), TokenTree::Group(y)) => {
                if x.delimiter() != y.delimiter() {
                    false
                } else {
                    let (i, j): (Vec<_>, Vec<_>) =
                        (x.stream().into_iter().collect(), y.stream().into_iter().collect());
                    if let Some(d) = diff(&i, &j) {
                        return Some(d);
                    }
                    true
                }
            }
            _ => false,
        };
        if !same {
            return Some(format!("`{x}` ({x:?}) is printed as `{y}` ({y:?})"));
        }
        if !span_eq(x.span(), y.span()) {
            return Some(format!("`{x}` at {:?} is printed at {:?}", x.span(), y.span()));
        }
    }
    if a.len() != b.len() {
        return Some(format!("{} tokens are printed as {}", a.len(), b.len()));
    }
    None
}
