//! The properties.

mod builders;
mod compiler;
pub mod cost;
mod derive;
mod edit;
mod errors;
mod findings;
mod fuzz;
pub mod history;
mod meta;
mod parts;
mod paths;
mod reject;
mod structure;

pub use findings::findings;

use crate::engine::{panic_text, Prop};
use crate::gen::{Cfg, G};
use crate::tape::{hash64, Src};
use proc_macro2::TokenStream;
use std::panic::{catch_unwind, AssertUnwindSafe};
use venial::{Error, Item};

pub enum Parsed {
    Item(Item),
    Err(Error),
    Panic(String),
}

/// Run code of venial that may panic on bad input.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => match panic_text(p) {
            Ok(m) => Err(m),
            Err(m) => std::panic::panic_any(crate::HarnessBug(m)),
        },
    }
}

pub fn parse(ts: TokenStream) -> Parsed {
    match guard(|| venial::parse_item(ts)) {
        Ok(Ok(i)) => Parsed::Item(i),
        Ok(Err(e)) => Parsed::Err(e),
        Err(m) => Parsed::Panic(m),
    }
}

/// Parse an item that has to be accepted.
pub fn must_parse(ts: TokenStream) -> Result<Item, String> {
    match parse(ts) {
        Parsed::Item(i) => Ok(i),
        Parsed::Err(e) => Err(format!("a supported item is rejected with an error: {e}")),
        Parsed::Panic(m) => Err(format!("a supported item is rejected with a panic: {m}")),
    }
}

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    structure::add(&mut v);
    fuzz::add(&mut v);
    paths::add(&mut v);
    builders::add(&mut v);
    errors::add(&mut v);
    edit::add(&mut v);
    meta::add(&mut v);
    reject::add(&mut v);
    compiler::add(&mut v);
    cost::add(&mut v);
    derive::add(&mut v);
    history::add(&mut v);
    v.sort_by_key(|p| p.id);
    v
}

/// For validation of the generator with other parsers: items that are valid Rust.
pub fn print_generated(seed: u64, n: u64) -> i32 {
    for i in 0..n {
        let mut src = Src::random(hash64(&[seed.to_le_bytes(), i.to_le_bytes()].concat()));
        let cfg = Cfg {
            strict: true,
            ..Cfg::default()
        };
        let mut g = G::new(&mut src, cfg);
        g.item();
        println!("{}\u{1}", g.out);
    }
    0
}
