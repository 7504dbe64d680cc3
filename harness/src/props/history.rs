//! C27: what a call gives depends on its input alone, not on the calls before it or beside it.

use super::{guard, parse, Parsed};
use crate::engine::{Obs, Prop};
use crate::gen::{Cfg, Ctx, Kind, ALL_KINDS, G};
use crate::tape::{hash64, Src};
use crate::HarnessBug;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::str::FromStr;
use venial::{GenericParam, Item, TypeExpr, WhereClausePredicate};

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C27",
        rule: "a random history of 1 to 6 inputs, valid and broken, each parsed and printed 1 to 1500 times (and now and then queried and edited), in 1 to 4 threads of a fresh process, followed by 2 to 6 probes and by every input of the history once more; everything about each of these (tree, tokens, locations, error, panic or not, results of queries and builders) has to be as in a fresh process without that history; half of the histories run with other environment variables and working directory, and there the probes are made by a destructor during a panic. Non-trivial: at least 20 calls before the probes.",
        quick: 10_000,
        thorough: 180_000,
        run: c27,
    });
}

/// Everything that can be seen of one input.
fn digest(text: &str) -> String {
    proc_macro2::extra::invalidate_current_thread_spans();
    match TokenStream::from_str(text) {
        Ok(ts) => digest_of(ts),
        Err(_) => "no tokens".into(),
    }
}

fn digest_of(ts: TokenStream) -> String {
    let mut o = String::new();
    let before = format!("{ts:?}");
    match parse(ts.clone()) {
        Parsed::Panic(_) => o.push_str("panic"),
        Parsed::Err(e) => {
            let _ = write!(o, "error {e} {e:?} {:?} {:?}", e.span(), e.to_compile_error());
        }
        Parsed::Item(i) => {
            let _ = write!(o, "item {i:?} {:?}", i.to_token_stream());
            match guard(|| queries(&i)) {
                Ok(q) => o.push_str(&q),
                Err(_) => o.push_str("panic in a query"),
            }
            if let Err(_) = guard(|| {
                let mut i = i.clone();
                i.attributes_mut().clear();
                let _ = write!(o, "{:?}", i.to_token_stream());
            }) {
                o.push_str("panic in an edit");
            }
            // no call changes the item
            let _ = write!(o, "again {:?}", i.to_token_stream());
        }
    }
    if before != format!("{ts:?}") {
        o.push_str("the input has changed");
    }
    o
}

fn types(o: &mut String, all: impl IntoIterator<Item = TypeExpr>) {
    for t in all {
        let _ = match guard(|| t.as_path()) {
            Ok(p) => write!(o, "path {p:?}"),
            Err(_) => write!(o, "path panic"),
        };
    }
}

fn queries(i: &Item) -> String {
    let mut o = String::new();
    let _ = write!(o, "{:?} {:?} {:?}", i.name(), i.span(), i.generic_params().map(|g| g.span()));
    if let Some(g) = i.generic_params() {
        let _ = write!(
            o,
            "{:?} {:?}",
            g.as_inline_args().to_token_stream(),
            g.as_inline_args().to_owned_args().to_token_stream()
        );
    }
    macro_rules! built {
        ($x:expr) => {{
            let x = $x;
            let p = WhereClausePredicate::parse(quote!(ZZ: Clone));
            let y = x
                .clone()
                .with_param(GenericParam::ty("ZZ"))
                .with_param(GenericParam::lifetime("zz"))
                .with_where_predicate(p);
            let _ = write!(o, "{:?}", y.to_token_stream());
            let w = x.create_derive_where_clause(quote!(some::Trait));
            let _ = write!(o, "{:?}", w.to_token_stream());
        }};
    }
    match i {
        Item::Struct(x) => {
            built!(x);
            let names: Vec<String> = x.field_names().into_iter().collect();
            let _ = write!(o, "{names:?}");
            types(&mut o, x.field_types().into_iter().cloned());
        }
        Item::Enum(x) => {
            built!(x);
            let _ = write!(o, "{}", x.is_c_enum());
        }
        Item::Union(x) => built!(x),
        Item::Impl(x) => types(&mut o, x.trait_ty.iter().cloned().chain([x.self_ty.clone()])),
        Item::Constant(x) => types(&mut o, [x.ty.clone()]),
        Item::Function(x) => types(&mut o, x.return_ty.clone()),
        _ => (),
    }
    o
}

fn short(s: &str) -> String {
    let s: String = s.chars().take(160).collect();
    s.replace('\n', " ")
}

/// The same, called by a destructor while a panic unwinds the stack.
fn digest_unwinding(text: &str) -> String {
    struct Late<'a>(&'a str, &'a mut String);
    impl Drop for Late<'_> {
        fn drop(&mut self) {
            *self.1 = digest(self.0);
        }
    }
    let mut out = String::new();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _late = Late(text, &mut out);
        std::panic::resume_unwind(Box::new(()));
    }));
    out
}

/// In a process of its own: the history in every thread, then the probes.
pub fn child() -> i32 {
    let mut text = String::new();
    if std::io::stdin().read_to_string(&mut text).is_err() {
        return 2;
    }
    let mut rest = &text[..];
    let mut threads = 1;
    let mut unwinding = false;
    let mut ops: Vec<(u32, String)> = Vec::new();
    let mut probes: Vec<String> = Vec::new();
    while let Some((head, tail)) = rest.split_once('\n') {
        let w: Vec<u32> = head.split(' ').filter_map(|x| x.parse().ok()).collect();
        rest = tail;
        match (head.as_bytes()[0], &w[..]) {
            (b't', [t, u]) => {
                threads = *t;
                unwinding = *u > 0;
            }
            (k, [reps, len]) => {
                let len = *len as usize;
                let body = rest[..len].to_string();
                rest = &rest[len..];
                if k == b'o' {
                    ops.push((*reps, body));
                } else {
                    probes.push(body);
                }
            }
            _ => return 2,
        }
    }
    let run = |t: u32| -> Vec<String> {
        for k in 0..ops.len() {
            let (reps, text) = &ops[(k + t as usize) % ops.len()];
            let Ok(ts) = TokenStream::from_str(text) else { continue };
            for i in 0..*reps {
                if i % 50 == 0 {
                    digest_of(ts.clone());
                } else if let Parsed::Item(i) = parse(ts.clone()) {
                    let _ = guard(|| i.to_token_stream());
                }
            }
        }
        probes
            .iter()
            .map(|p| if unwinding { digest_unwinding(p) } else { digest(p) })
            .collect()
    };
    let all: Vec<Vec<String>> = std::thread::scope(|sc| {
        let handles: Vec<_> = (0..threads)
            .map(|t| {
                let run = &run;
                std::thread::Builder::new()
                    .name(["worker", "main", "rustc", "a"][t as usize % 4].to_string())
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || run(t))
                    .unwrap()
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let mut out = String::new();
    for one in all {
        for d in one {
            let _ = writeln!(out, "{:016x} {}", hash64(d.as_bytes()), short(&d));
        }
    }
    let _ = std::io::stdout().write_all(out.as_bytes());
    0
}

/// Variables a build sets, and others.
const ENV: [(&str, &str); 20] = [
    ("CARGO", "cargo"), ("CARGO_PKG_NAME", "venial"), ("CARGO_CRATE_NAME", "main"), ("CARGO_MANIFEST_DIR", "/"), ("CARGO_PRIMARY_PACKAGE", "1"),
    ("OUT_DIR", "/nowhere"), ("DEBUG", "1"), ("PROFILE", "release"), ("RUST_BACKTRACE", "1"), ("RUST_LOG", "trace"),
    ("RUSTC", "rustc"), ("CI", "true"), ("DOCS_RS", "1"), ("LANG", "de_DE.UTF-8"), ("TZ", "Asia/Tokyo"), ("NO_COLOR", "1"),
    ("HOME", "/nowhere"), ("USER", "nobody"), ("VENIAL_DEBUG", "1"), ("TERM", "dumb"),
];

fn run_child(threads: u32, other: Option<u64>, ops: &[(u32, String)], probes: &[String]) -> Result<Vec<String>, String> {
    let bug = |m: String| -> ! { std::panic::panic_any(HarnessBug(m)) };
    let mut text = format!("t {threads} {}\n", other.is_some_and(|x| x & 1 > 0) as u32);
    for (reps, body) in ops {
        let _ = write!(text, "o {reps} {}\n{body}", body.len());
    }
    for body in probes {
        let _ = write!(text, "p 0 {}\n{body}", body.len());
    }
    let exe = std::env::current_exe().expect("harness: current_exe");
    let mut command = Command::new(exe);
    command.env_clear();
    if let Some(x) = other {
        let all = ENV.iter().enumerate().filter(|(k, _)| x >> (k + 1) & 1 > 0);
        command.envs(all.map(|(_, v)| *v)).current_dir("/");
    }
    let mut c = match command
        .arg("--history-child")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => bug(format!("cannot start a process: {e}")),
    };
    let mut stdin = c.stdin.take().unwrap();
    let _ = stdin.write_all(text.as_bytes());
    drop(stdin);
    let out = match c.wait_with_output() {
        Ok(o) => o,
        Err(e) => bug(format!("cannot wait for a process: {e}")),
    };
    match (out.status.signal(), out.status.code()) {
        (Some(9 | 15), _) => bug("a process was ended from outside".into()),
        (Some(s), _) => Err(format!("the process is ended by signal {s}")),
        (None, Some(0)) => Ok(String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect()),
        (None, c) => bug(format!("a process ended with {c:?}")),
    }
}

/// One input: how it is written, and how many tokens it has.
fn input(s: &mut Src, o: &mut Obs, broken: bool) -> (String, u32) {
    let cfg = Cfg {
        big: 4,
        depth: 2,
        ..Cfg::default()
    };
    let k = if s.chance(35) { Kind::Module } else { *s.pick(&ALL_KINDS) };
    let how = if broken { s.weighted(&[40, 25, 15, 20]) } else { 9 };
    let mut g = G::new(s, cfg);
    g.item_of(k, Ctx::Top, 0, if how == 0 { 60 } else { 0 });
    let mut text = std::mem::take(&mut g.out);
    let toks = std::mem::take(&mut g.toks);
    let n = toks.len() as u32;
    match how {
        0 => o.label("complex discriminants"),
        1 => {
            // without one of its tokens
            let (lo, hi) = toks[s.below(n) as usize];
            text.replace_range(lo..hi, " ");
            o.label("a token less");
        }
        2 => {
            let (lo, _) = toks[s.below(n) as usize];
            let x = *s.pick(&[" , ", " ; ", " zz ", " : ", " {} ", " () ", " > ", " < ", " # ", " = "]);
            text.insert_str(lo, x);
            o.label("a token more");
        }
        3 => {
            // cut, with the delimiters closed
            let (_, hi) = toks[s.below(n) as usize];
            text.truncate(hi);
            let mut open = Vec::new();
            for (lo, hi) in &toks {
                if *hi > text.len() {
                    break;
                }
                match &text[*lo..*hi] {
                    "(" => open.push(')'),
                    "[" => open.push(']'),
                    "{" => open.push('}'),
                    ")" | "]" | "}" => {
                        open.pop();
                    }
                    _ => (),
                }
            }
            text.push(' ');
            text.extend(open.into_iter().rev());
            o.label("cut");
        }
        _ => o.label("valid"),
    }
    (text, n)
}

fn c27(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let threads = *s.pick(&[1, 1, 1, 2, 4]);
    let mut budget = 40_000 / threads;
    let mut ops = Vec::new();
    let mut probes = Vec::new();
    let mut calls = 0;
    for _ in 0..1 + s.below(6) {
        let broken = s.chance(65);
        let (text, n) = input(s, o, broken);
        let most = (budget / n.max(1)).clamp(1, 1500);
        // from once to as often as the budget has it, by orders of magnitude
        let e = s.below(12);
        let reps = ((1u32 << e) + s.below(1 << e)).min(most);
        budget = budget.saturating_sub(reps * n);
        calls += reps;
        probes.push(text.clone());
        ops.push((reps, text));
    }
    for _ in 0..2 + s.below(5) {
        let broken = s.chance(20);
        probes.push(input(s, o, broken).0);
    }
    o.nontrivial = calls >= 20;
    if threads > 1 {
        o.label("several threads");
    }
    if calls >= 500 {
        o.label("500 or more calls");
    }
    for (r, t) in &ops {
        let _ = writeln!(o.text, "{r} times: {t}");
    }
    for p in &probes[ops.len()..] {
        let _ = writeln!(o.text, "probe: {p}");
    }
    let _ = writeln!(o.text, "threads: {threads}");
    let back: Vec<String> = probes.iter().rev().cloned().collect();
    let other = if s.chance(50) { Some(1 | (s.below(1 << 20) as u64) << 1) } else { None };
    if other.is_some() {
        o.label("other environment, during a panic");
        let _ = writeln!(o.text, "environment: {other:?}");
    }
    let mut fresh = run_child(1, None, &[], &back)?;
    fresh.reverse();
    let after = run_child(threads, other, &ops, &probes).map_err(|m| format!("after the history, {m}"))?;
    if fresh.len() != probes.len() {
        return Err(format!("{} of {} probes have a result", fresh.len(), probes.len()));
    }
    for t in 0..threads as usize {
        for (k, want) in fresh.iter().enumerate() {
            let got = after.get(t * fresh.len() + k).map_or("nothing", |x| x);
            if want != got {
                return Err(format!(
                    "`{}` gives something else after other calls than in a fresh process:\n  {}\ninstead of\n  {}",
                    probes[k],
                    short(got),
                    short(want)
                ));
            }
        }
    }
    Ok(())
}
