//! C25: venial in a procedural macro, run by rustc.

use crate::engine::{Obs, Prop};
use crate::gen::{Cfg, Ctx, ALL_KINDS, G};
use crate::lex;
use crate::node::{compare, Node, R};
use crate::tape::Src;
use crate::tok::{count, Tok, FLAT, TK};
use crate::wire::Reader;
use crate::HarnessBug;
use std::collections::HashMap;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C25",
        rule: "batches of 1 to 60 random items, given by rustc to a procedural macro that uses venial: as source tokens, and through macro_rules! with types, expressions, paths and attribute contents as $fragments. The macro reports the parsed tree and how the printed tokens differ from its input; the tree is compared with the generated one. Non-trivial: a batch with at least 8 tokens.",
        quick: 2_100,
        thorough: 21_000,
        run: c25,
    });
}

struct One {
    text: String,
    exp: Node,
    complex: Vec<R>,
    /// Through `macro_rules!`, with these fragments.
    fragments: Vec<(R, &'static str)>,
    kind: &'static str,
}

fn one(s: &mut Src, o: &mut Obs) -> One {
    let wraps = s.chance(40);
    let cfg = Cfg {
        strict: true,
        big: 8,
        p_wrap: if wraps { 15 } else { 0 },
        ..Cfg::default()
    };
    let complex = if s.chance(8) { 40 } else { 0 };
    let k = *s.pick(&ALL_KINDS);
    let mut g = G::new(s, cfg);
    let e = g.item_of(k, Ctx::Top, 0, complex);
    let (text, joint) = (std::mem::take(&mut g.out), std::mem::take(&mut g.joint));
    let (all, kinds) = (std::mem::take(&mut g.wraps), std::mem::take(&mut g.wrap_kinds));
    let complex = std::mem::take(&mut g.complex);
    for l in g.labels.keys() {
        o.label(l);
    }
    // what can be a macro argument: outermost groups of a known kind
    let inside = |a: &R, b: &R| a != b && b.0 <= a.0 && a.1 <= b.1;
    let dollar = text.contains('$');
    let mut fragments: Vec<(R, &'static str)> = Vec::new();
    let mut lost = false;
    for (r, (kind, needed)) in all.iter().zip(&kinds) {
        let ok = !dollar
            && !kind.is_empty()
            && !all.iter().zip(&kinds).any(|(x, (k, _))| !k.is_empty() && inside(r, x))
            && !fragments.iter().any(|f| f.0 == *r);
        if ok {
            fragments.push((*r, kind));
        } else if *needed {
            lost = true;
        }
    }
    if lost {
        // not supported without its group
        o.label("needs groups that macro_rules! can't make");
        return one(s, o);
    }
    fragments.sort();
    let ranges: Vec<R> = fragments.iter().map(|f| f.0).collect();
    let c = lex::finish(text, e, joint, ranges, false);
    if count(&c.toks) >= 8 {
        o.nontrivial = true;
    }
    One {
        kind: c.exp.kind(),
        text: c.text,
        exp: strings(&c.exp),
        complex,
        fragments,
    }
}

fn bug(m: String) -> ! {
    std::panic::panic_any(HarnessBug(m))
}

/// String literals by value: the compiler writes doc comments in another way.
fn strings(n: &Node) -> Node {
    match n {
        Node::Rec(k, f) => Node::Rec(k, f.iter().map(|(k, v)| (*k, strings(v))).collect()),
        Node::List(l) => Node::List(l.iter().map(strings).collect()),
        Node::Grp(d, s, i) => Node::Grp(*d, *s, Box::new(strings(i))),
        Node::T(t) => Node::T(string_toks(t)),
        n => n.clone(),
    }
}

fn string_toks(t: &[Tok]) -> Vec<Tok> {
    t.iter()
        .map(|t| {
            let k = match &t.k {
                TK::Lit(l) => TK::Lit(string_value(l).unwrap_or_else(|| l.clone())),
                TK::Group(d, inner) => TK::Group(*d, string_toks(inner)),
                k => k.clone(),
            };
            Tok { k, ..t.clone() }
        })
        .collect()
}

fn string_value(l: &str) -> Option<String> {
    if let Some(r) = l.strip_prefix('r') {
        let q = r.find('"')?;
        let end = format!("\"{}", &r[..q]);
        let body = r[q + 1..].strip_suffix(&end)?;
        return Some(format!("\"{}", body.replace("\r\n", "\n")));
    }
    let body = l.strip_prefix('"')?.strip_suffix('"')?.replace("\r\n", "\n");
    let mut out = String::from("\"");
    let mut it = body.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next()? {
            'n' => out.push('\n'),
            't' => out.push('\t'),
            'r' => out.push('\r'),
            '0' => out.push('\0'),
            'x' => {
                let h: String = [it.next()?, it.next()?].iter().collect();
                out.push(u8::from_str_radix(&h, 16).ok()? as char);
            }
            'u' => {
                let mut h = String::new();
                for c in it.by_ref() {
                    match c {
                        '{' | '_' => (),
                        '}' => break,
                        c => h.push(c),
                    }
                }
                out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            '\n' => {
                while it.peek().is_some_and(|c| c.is_ascii_whitespace()) {
                    it.next();
                }
            }
            c => out.push(c),
        }
    }
    Some(out)
}

/// The source file, and where in it the index of each item is.
fn source(items: &[One]) -> String {
    let mut f = String::from("#![no_std]\n#![allow(warnings)]\n");
    for (i, x) in items.iter().enumerate() {
        if x.fragments.is_empty() {
            f.push_str(&format!("vpmac::check! {{ {i} {}\n}}\n", x.text));
            continue;
        }
        let (mut params, mut body, mut args) = (String::new(), String::new(), String::new());
        let mut at = 0;
        for (j, (r, kind)) in x.fragments.iter().enumerate() {
            let sep = if j > 0 { ";" } else { "" };
            params.push_str(&format!("{sep} $a{j}: {kind}"));
            args.push_str(&format!("{sep} {}\n", &x.text[r.0..r.1]));
            body.push_str(&x.text[at..r.0]);
            body.push_str(&format!(" $a{j} "));
            at = r.1;
        }
        body.push_str(&x.text[at..]);
        f.push_str(&format!(
            "macro_rules! m{i} {{ ({params}) => {{ vpmac::check! {{ {i} {body}\n}} }} }}\nm{i}! {{ {args} }}\n"
        ));
    }
    f
}

struct Tools {
    rustc: PathBuf,
    lib: PathBuf,
}

fn tools() -> &'static Tools {
    static T: OnceLock<Tools> = OnceLock::new();
    T.get_or_init(|| {
        let exe = std::env::current_exe().unwrap_or_default();
        let root = exe.ancestors().nth(4).map(Path::to_path_buf).unwrap_or_default();
        let lib = match std::env::var("VPBT_MAC") {
            Ok(x) => PathBuf::from(x),
            Err(_) => root.join("incompiler/target/release/libvpmac.so"),
        };
        if !lib.exists() {
            bug(format!("{} is missing: build.sh makes it", lib.display()));
        }
        let out = Command::new("rustc").args(["--print", "sysroot"]).current_dir("/").output();
        let rustc = match out {
            Ok(o) if o.status.success() => {
                PathBuf::from(String::from_utf8_lossy(&o.stdout).trim()).join("bin/rustc")
            }
            _ => bug("there is no rustc".into()),
        };
        Tools { rustc, lib }
    })
}

struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let name = format!("vpbt-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed));
        let dir = std::env::temp_dir().join(name);
        if let Err(e) = std::fs::create_dir(&dir) {
            bug(format!("no scratch directory {}: {e}", dir.display()));
        }
        Scratch(dir)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Report {
    base: String,
    text: String,
}

/// Run the compiler: what the macro wrote, whether the file compiles and the messages.
pub fn rustc(file: &str) -> (String, Result<(bool, String), String>) {
    let t = tools();
    let dir = Scratch::new();
    let (src, out) = (dir.0.join("case.rs"), dir.0.join("out"));
    if std::fs::write(&src, file).is_err() || std::fs::write(&out, "").is_err() {
        bug("cannot write in the scratch directory".into());
    }
    let r = Command::new("timeout")
        .arg("120")
        .arg(&t.rustc)
        .args(["--edition", "2021", "--crate-name", "case", "--crate-type", "lib", "--emit=metadata"])
        .args(["--cap-lints", "allow", "--error-format", "short", "-C", "codegen-units=1"])
        .arg("-o")
        .arg(dir.0.join("case.rmeta"))
        .arg("--extern")
        .arg(format!("vpmac={}", t.lib.display()))
        .arg(&src)
        .current_dir(&dir.0)
        .env("VPBT_OUT", &out)
        .env_remove("RUSTFLAGS")
        .stdin(Stdio::null())
        .output();
    let r = match r {
        Ok(r) => r,
        Err(e) => bug(format!("cannot run rustc: {e}")),
    };
    let stderr = String::from_utf8_lossy(&r.stderr).into_owned();
    let status = match (r.status.signal(), r.status.code()) {
        (None, Some(c @ (0 | 1))) => Ok((c == 0, stderr)),
        (None, Some(124)) => Err("the compiler hangs".to_string()),
        // `timeout` passes on how the compiler ended
        (s, c) => Err(format!("the compiler crashes ({s:?}, {c:?}): {}", stderr.lines().next().unwrap_or(""))),
    };
    (std::fs::read_to_string(&out).unwrap_or_default(), status)
}

/// Reports by index, and what else there is to say.
fn compile(file: &str) -> (HashMap<usize, Vec<Report>>, Result<String, String>) {
    let (text, status) = rustc(file);
    let mut all: HashMap<usize, Vec<Report>> = HashMap::new();
    let mut rest = text.as_str();
    while !rest.is_empty() {
        let mut head = rest.splitn(4, '\n');
        let parsed = (|| {
            let i: usize = head.next()?.parse().ok()?;
            let base = head.next()?.to_string();
            let n: usize = head.next()?.parse().ok()?;
            let tail = head.next()?;
            let text = tail.get(..n)?.to_string();
            Some((i, Report { base, text }, tail.get(n + 1..)?))
        })();
        let Some((i, r, tail)) = parsed else { break };
        all.entry(i).or_default().push(r);
        rest = tail;
    }
    (all, status.map(|s| s.1))
}

/// `#0 bytes(26..27)`
fn bytes(span: &str) -> Option<(i64, i64)> {
    let (_, r) = span.split_once("bytes(")?;
    let (a, b) = r.split_once(')')?.0.split_once("..")?;
    Some((a.parse().ok()?, b.parse().ok()?))
}

fn judge(i: usize, x: &One, r: &Report) -> Result<(), String> {
    let (what, rest) = r.text.split_once('\n').unwrap_or((&r.text, ""));
    match what {
        "panic" => Err(format!("venial panics in the compiler: {rest}")),
        "error" => {
            let mut l = rest.lines();
            let (msg, span) = (l.next().unwrap_or(""), l.next().unwrap_or(""));
            if x.complex.is_empty() {
                return Err(format!("a supported item is rejected in the compiler: {msg}"));
            }
            if !x.fragments.is_empty() {
                return Ok(());
            }
            // the source position of the message
            let (Some(b), Some(s)) = (bytes(&r.base), bytes(span)) else {
                return Err(format!("the error has no position in the source: {span}"));
            };
            let start = b.0 + format!("{i} ").len() as i64;
            // rustc reads `\r\n` as `\n`
            let lf = |i: usize| i - x.text[..i].matches("\r\n").count();
            let c = (lf(x.complex[0].0) as i64 + start, lf(x.complex[0].1) as i64 + start);
            if s.0 < c.0 || s.1 > c.1 {
                return Err(format!("the error is at {s:?}, the complex value is at {c:?}"));
            }
            for p in l.next().unwrap_or("").split('#').filter(|p| !p.is_empty()) {
                if !bytes(p).is_some_and(|p| p.0 >= c.0 && p.1 <= c.1) {
                    return Err(format!("to_compile_error() is at #{p}, the complex value is at {c:?}"));
                }
            }
            Ok(())
        }
        "item" => {
            let mut l = rest.splitn(6, '\n');
            let mut next = || l.next().unwrap_or("");
            let (diff, first, last, span, again) = (next(), next(), next(), next(), next());
            let tree = next();
            if !x.complex.is_empty() {
                return Err("a complex discriminant is accepted".into());
            }
            if !diff.is_empty() {
                return Err(format!("in the compiler, the printed item isn't the input: {diff}"));
            }
            if again != "true" {
                return Err("a clone prints other tokens".into());
            }
            let got = match Reader(tree).node() {
                Some(n) => strings(&n),
                None => bug(format!("unreadable report: {}", r.text)),
            };
            if let Some(d) = compare(&x.exp, &got, FLAT) {
                return Err(format!("in the compiler, the parsed {} is another: {d}", x.kind));
            }
            // joining spans isn't possible in every compiler
            if let (Some(f), Some(l), Some(s)) = (bytes(first), bytes(last), bytes(span)) {
                if x.fragments.is_empty() && (s.0 != f.0 || s.1 < f.1 || s.1 > l.1) {
                    return Err(format!("span() is {span}, the item starts at {first} and ends at {last}"));
                }
            }
            Ok(())
        }
        _ => bug(format!("unreadable report: {}", r.text)),
    }
}

fn c25(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let n = 1 + s.below(60);
    let items: Vec<One> = (0..n).map(|_| one(s, o)).collect();
    let file = source(&items);
    o.text = file.clone();
    let (reports, status) = compile(&file);
    let stderr = status.map_err(|m| format!("with venial in a procedural macro, {m}"))?;
    for (i, x) in items.iter().enumerate() {
        let Some(r) = reports.get(&i).and_then(|r| r.first()) else {
            if !x.fragments.is_empty() {
                // rustc doesn't take it as such a fragment
                o.label("macro_rules! fragment not accepted by rustc");
                continue;
            }
            let first: Vec<&str> = stderr.lines().take(3).collect();
            bug(format!("no report for item {i}: {}: {}", x.text, first.join(" | ")));
        };
        o.label(if x.fragments.is_empty() { "source tokens" } else { "through macro_rules!" });
        if let Err(m) = judge(i, x, r) {
            o.text = format!("item {i} of {n}, alone:\n{}", source(&items[i..i + 1]));
            return Err(m);
        }
    }
    Ok(())
}
