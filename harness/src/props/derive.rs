//! C28: code that a macro writes with venial's answers compiles.

use super::compiler::rustc;
use crate::engine::{Obs, Prop};
use crate::tape::Src;

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C28",
        rule: "batches of 1 to 40 random definitions that rustc accepts, each given to a function-like, attribute or derive macro that prints the item and adds the impls, matches, wrappers and reads that derive and attribute macros write with venial's queries and builders; a part of them through macro_rules! with types as $fragments. rustc is the oracle: the whole has to compile, checked types included. Non-trivial: a batch in which a definition has generics or a where clause.",
        quick: 700,
        thorough: 14_000,
        run: c28,
    });
}

const PRELUDE: &str = "#![allow(warnings)]
pub trait Describe { fn go(&self); }
pub trait Owned {}
pub fn needs<T: Describe>() {}
pub trait Extra<'z, Z, Y: Clone, const N: usize> {}
pub trait Blank<T = ()> {}
impl<T: ?Sized, U> Blank<U> for T {}
pub struct Arr<T, const N: usize>(pub [T; N]);
impl<T: Clone, const N: usize> Clone for Arr<T, N> { fn clone(&self) -> Self { loop {} } }
pub struct Sgn<const I: i32>;
pub struct Flag<const B: bool, const C: char>;
pub const ONE: isize = 1;
";

/// What a type may mention.
#[derive(Clone, Default)]
struct Env {
    lifetimes: Vec<String>,
    types: Vec<String>,
    /// Those with `Item`.
    iters: Vec<String>,
    consts: Vec<String>,
}

struct Def {
    /// Goes before the macro call.
    before: String,
    /// With types between \u{1} and \u{2}.
    text: String,
    /// Given as `$a: ty`.
    fragments: bool,
    /// `derived! { .. }`, `#[attribute] ..` or `#[derive(Derived)] ..`
    how: &'static str,
    kind: &'static str,
}

struct D<'a> {
    s: &'a mut Src,
    env: Env,
    generic: bool,
    before: String,
    n: u32,
}

const NAMES: [&str; 12] = ["a", "b", "c", "_x", "r#type", "r#fn", "x1", "é", "r#where", "field", "union", "auto"];
const TYPE_NAMES: [&str; 7] = ["S", "Foo", "r#Struct", "Ünion", "_Under", "E9", "Default"];

impl D<'_> {
    fn ty(&mut self, d: u32) -> String {
        let k = if d > 2 { self.s.below(9) } else { self.s.below(34) };
        let lt = |me: &mut Self| match me.env.lifetimes.is_empty() || me.s.chance(20) {
            true => "'static".to_string(),
            false => me.s.pick(&me.env.lifetimes.clone()).clone(),
        };
        match k {
            0 | 1 => "u8".into(),
            2 => "String".into(),
            3 => "()".into(),
            4 => "bool".into(),
            5..=8 => match self.env.types.is_empty() {
                true => "i32".into(),
                false => self.s.pick(&self.env.types.clone()).clone(),
            },
            9 => {
                let l = lt(self);
                // `&'static T` needs `T: 'static`
                let t = if l == "'static" { "str".to_string() } else { self.ty(d + 1) };
                let t = if t.contains("'static") || self.outlives(&t, &l) { "u8".into() } else { t };
                format!("&{l} {}{t}", if self.s.chance(30) { "mut " } else { "" })
            }
            10 => format!("[{}; 3]", self.ty(d + 1)),
            11 => format!("[{}; {{ 1 + 2 }}]", self.ty(d + 1)),
            12 => match self.env.consts.is_empty() {
                true => format!("[{}; 1 + 2]", self.ty(d + 1)),
                false => {
                    let c = self.s.pick(&self.env.consts.clone()).clone();
                    format!("[{}; {c}]", self.ty(d + 1))
                }
            },
            13 => format!("Vec<{}>", self.ty(d + 1)),
            14 => format!("Option<{},>", self.ty(d + 1)),
            15 => format!("({}, {})", self.ty(d + 1), self.ty(d + 1)),
            16 => format!("({},)", self.ty(d + 1)),
            17 => format!("Box<dyn Fn({}) -> {}>", self.ty(d + 1), self.ty(d + 1)),
            18 => "Box<dyn Fn(&u8) -> &u8 + Send + 'static>".into(),
            19 => format!("fn({}) -> {}", self.ty(d + 1), self.ty(d + 1)),
            20 => format!("unsafe extern \"C\" fn(x: {}, ...)", self.ty(d + 1)),
            21 => "for<'x> fn(&'x u8, &u8) -> &'x u8".into(),
            22 => format!("std::collections::BTreeMap<{}, {}>", self.ty(d + 1), self.ty(d + 1)),
            23 => format!("::std::vec::Vec<{}>", self.ty(d + 1)),
            24 => match self.env.consts.is_empty() {
                true => format!("crate::Arr<{}, 3>", self.ty(d + 1)),
                false => {
                    let c = self.s.pick(&self.env.consts.clone()).clone();
                    format!("crate::Arr<{}, {c}>", self.ty(d + 1))
                }
            },
            25 => format!("crate::Arr<{}, {{ 4 >> 1 }}>", self.ty(d + 1)),
            26 => "crate::Sgn<-1>".into(),
            27 => "crate::Flag<true, '>'>".into(),
            28 => match self.env.iters.is_empty() {
                true => "<Vec<u8> as IntoIterator>::Item".into(),
                false => {
                    let t = self.s.pick(&self.env.iters.clone()).clone();
                    match self.s.below(3) {
                        0 => format!("{t}::Item"),
                        1 => format!("<{t} as Iterator>::Item"),
                        _ => format!("<{t} as ::std::iter::Iterator>::Item"),
                    }
                }
            },
            29 => format!("std::marker::PhantomData<fn() -> {}>", self.ty(d + 1)),
            30 => format!("*const {}", self.ty(d + 1)),
            31 => format!("Box<dyn crate::Blank<{}>>", self.ty(d + 1)),
            32 => format!("({})", self.ty(d + 1)),
            _ => "<u8 as ToOwned>::Owned".into(),
        }
    }
    /// Whether a reference to this type may be too long.
    fn outlives(&self, t: &str, l: &str) -> bool {
        self.env.lifetimes.iter().any(|x| x != l && t.contains(x.as_str()))
    }
    fn marked(&mut self) -> String {
        format!("\u{1}{}\u{2}", self.ty(0))
    }
    fn attrs(&mut self, pool: &[&str]) -> String {
        let mut r = String::new();
        for _ in 0..self.s.weighted(&[6, 2, 1]) {
            let common = ["#[allow(dead_code)] ", "/// A comment\n", "#[doc = \"x\"] ", "#[cfg(all())] ", "/** b */ "];
            let k = self.s.below((common.len() + pool.len()) as u32) as usize;
            let a = if k < common.len() { common[k] } else { pool[k - common.len()] };
            if !r.contains(a) {
                r.push_str(a);
            }
        }
        r
    }
    fn vis(&mut self) -> String {
        self.s.pick(&["", "", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) ", "pub "]).to_string()
    }
    fn bound(&mut self) -> String {
        let pool = [
            "Clone", "Copy", "Clone + Copy", "Fn(u8) -> u8", "for<'x> Fn(&'x u8) -> &'x u8", "Into<Vec<u8>>",
            "PartialEq<Option<u8>>", "crate::Blank", "crate::Blank<Vec<u8>> + Send", "'static", "Sized +", "(Clone)",
            "for<'x> crate::Blank<&'x u8>", "crate::Blank<fn() -> u8>", "Fn() -> Vec<Vec<u8>> + Clone",
            "std::ops::Add<Output = u8>", "crate::Blank<[u8; { 1 + 2 }]>", "::core::marker::Send",
        ];
        self.s.pick(&pool).to_string()
    }
    /// `<..>`, with what it declares added to the names in scope.
    fn generics(&mut self) -> String {
        if self.s.chance(25) {
            return String::new();
        }
        let k = self.n;
        let mut ps = Vec::new();
        let nl = self.s.weighted(&[4, 3, 2]);
        for i in 0..nl {
            let n = format!("'{}{k}", ["a", "bc"][i]);
            let b = match i {
                1 => ["", ": 'a0", ":"][self.s.below(3) as usize].replace("'a0", &format!("'a{k}")),
                _ => ["", ":", ": 'static"][self.s.weighted(&[6, 1, 1])].to_string(),
            };
            ps.push(format!("{n}{b}"));
            self.env.lifetimes.push(n);
        }
        let mut rest = Vec::new();
        for i in 0..self.s.weighted(&[3, 4, 2, 1]) {
            let n = format!("{}{k}", ["T", "U", "r#W"][i]);
            let b = match self.s.below(5) {
                0 | 1 => String::new(),
                2 => ":".into(),
                3 if self.s.chance(40) => {
                    self.env.iters.push(n.clone());
                    ["", ": Iterator<Item = u8>", ": Iterator + Clone"][1 + self.s.below(2) as usize].into()
                }
                _ => format!(": {}", self.bound()),
            };
            rest.push(format!("{n}{b}"));
            self.env.types.push(n);
        }
        for i in 0..self.s.weighted(&[5, 2, 1]) {
            let n = format!("{}{k}", ["N", "K"][i]);
            let at = self.s.below(rest.len() as u32 + 1) as usize;
            rest.insert(at, format!("const {n}: usize"));
            self.env.consts.push(n);
        }
        ps.extend(rest);
        if ps.is_empty() {
            return "<>".into();
        }
        self.generic = true;
        format!("<{}{}>", ps.join(", "), if self.s.chance(20) { "," } else { "" })
    }
    fn wher(&mut self) -> String {
        if self.s.chance(55) {
            return String::new();
        }
        self.generic = true;
        let mut ps = Vec::new();
        for _ in 0..self.s.below(4) {
            let t = match self.env.types.is_empty() {
                true => "u8".to_string(),
                false => self.s.pick(&self.env.types.clone()).clone(),
            };
            let p = match self.s.below(12) {
                0 if t != "u8" => format!("{t}: {}", self.bound()),
                1 => format!("Vec<{t}>: Sized"),
                2 => format!("for<'x> &'x {t}: crate::Blank<{t}>"),
                3 => format!("[{t}; 3]: crate::Blank"),
                4 => format!("({t}, u8): Sized"),
                5 => format!("crate::Arr<{t}, {{ 3 }}>: crate::Blank<Vec<{t}>>"),
                6 => format!("{t}:"),
                7 if self.env.lifetimes.len() > 1 => format!("{1}: {0}", self.env.lifetimes[0], self.env.lifetimes[1]),
                8 => format!("fn({t}) -> u8: Copy"),
                9 => format!("Option<{t}>: Sized"),
                10 if !self.env.lifetimes.is_empty() => format!("{t}: crate::Blank + {}", self.env.lifetimes[0]),
                11 => "u8: Copy".into(),
                _ => format!("{t}: Sized + Send"),
            };
            if p.starts_with("u8:") && p.contains("Send") {
                continue;
            }
            ps.push(p);
        }
        format!(" where {}{} ", ps.join(", "), if !ps.is_empty() && self.s.chance(40) { "," } else { "" })
    }
    /// A type that uses every parameter.
    fn phantom(&self) -> String {
        let mut r = String::from("std::marker::PhantomData<(");
        for l in &self.env.lifetimes {
            r.push_str(&format!("&{l} (), "));
        }
        for t in &self.env.types {
            r.push_str(&format!("fn() -> {t}, "));
        }
        r + ")>"
    }
    fn names(&mut self, n: usize) -> Vec<&'static str> {
        let mut all = NAMES.to_vec();
        (0..n).map(|_| all.remove(self.s.below(all.len() as u32) as usize)).collect()
    }
    fn named(&mut self, n: usize, extra: Option<String>, vis: bool, wrap: bool) -> String {
        let mut f = Vec::new();
        for name in self.names(n) {
            let t = self.marked();
            let t = if wrap { format!("::std::mem::ManuallyDrop<{}>", t.replace(['\u{1}', '\u{2}'], "")) } else { t };
            let v = if vis { self.vis() } else { String::new() };
            f.push(format!("{}{v}{name}: {t}", self.attrs(&[])));
        }
        if let Some(t) = extra {
            f.push(format!("phantom: {t}"));
        }
        let comma = if !f.is_empty() && self.s.chance(60) { "," } else { "" };
        format!("{{ {}{comma} }}", f.join(", "))
    }
    fn tuple(&mut self, n: usize, extra: Option<String>, vis: bool) -> String {
        let mut f = Vec::new();
        for _ in 0..n {
            let v = if vis { self.vis() } else { String::new() };
            f.push(format!("{}{v}{}", self.attrs(&[]), self.marked()));
        }
        f.extend(extra);
        let comma = if !f.is_empty() && self.s.chance(40) { "," } else { "" };
        format!("({}{comma})", f.join(", "))
    }
    fn extra(&self) -> Option<String> {
        let none = self.env.lifetimes.is_empty() && self.env.types.is_empty();
        (!none).then(|| self.phantom())
    }
    fn strukt(&mut self, name: &str, vis: &str) -> String {
        let a = self.attrs(&["#[repr(C)] ", "#[must_use] ", "#[non_exhaustive] ", "#[deprecated(note = \"x\")] "]);
        let g = self.generics();
        let extra = self.extra();
        let n = self.s.count(5);
        if self.s.chance(1) {
            let mut f: Vec<String> = (0..257 + n).map(|_| self.ty(3)).collect();
            f.extend(extra);
            return format!("{a}{vis}struct {name}{g}({});", f.join(", "));
        }
        match self.s.below(5) {
            0 | 1 => {
                let w = self.wher();
                format!("{a}{vis}struct {name}{g}{w}{}", self.named(n, extra, true, false))
            }
            2 if extra.is_none() => {
                let w = self.wher();
                format!("{a}{vis}struct {name}{g}{w};")
            }
            _ => {
                let t = self.tuple(n, extra, true);
                let w = self.wher();
                format!("{a}{vis}struct {name}{g}{t}{w};")
            }
        }
    }
    fn union(&mut self, name: &str, vis: &str) -> String {
        let a = self.attrs(&["#[repr(C)] "]);
        let g = self.generics();
        let extra = self.extra();
        let n = self.s.count(4) + 1;
        let w = self.wher();
        format!("{a}{vis}union {name}{g}{w}{}", self.named(n, extra, true, true))
    }
    fn enumeration(&mut self, name: &str, vis: &str) -> String {
        let mut a = self.attrs(&["#[must_use] ", "#[non_exhaustive] "]);
        let c_like = self.s.chance(35);
        let g = if c_like && self.s.chance(70) { String::new() } else { self.generics() };
        let w = self.wher();
        let extra = self.extra();
        let n = self.s.count(6);
        let mut names = vec!["A", "Bb", "r#Match", "É", "_V", "None", "Ok", "E1"];
        let mut v = Vec::new();
        let values = n > 0 && self.s.chance(if c_like { 70 } else { 15 });
        if values && (extra.is_some() || !c_like) {
            a.push_str("#[repr(i32)] ");
        }
        for i in 0..n {
            let name = names.remove(self.s.below(names.len() as u32) as usize);
            let m = self.s.count(4);
            let body = match self.s.below(3) {
                _ if c_like && extra.is_none() => String::new(),
                0 => String::new(),
                1 => self.tuple(m, None, false),
                _ => self.named(m, None, false, false),
            };
            let value = if values && (i == 0 || self.s.chance(60)) {
                let x = 100 * i;
                match self.s.below(6) {
                    0 => format!(" = {x}"),
                    1 => format!(" = {x:#x}"),
                    2 => format!(" = ({x} + 1)"),
                    3 => format!(" = {{ let y = {x}; y + 2 }}"),
                    4 => format!(" = (-{x} - 1)"),
                    _ if i == 0 && extra.is_none() && !a.contains("repr") => " = ONE".into(),
                    _ => format!(" = {x}_i{}", if a.contains("repr") { "32" } else { "size" }),
                }
            } else {
                String::new()
            };
            v.push(format!("{}{name}{body}{value}", self.attrs(&[])));
        }
        if let Some(t) = extra {
            let n = self.s.weighted(&[3, 2, 1]);
            v.push(format!("Phantom{}", self.tuple(n, Some(t), false)));
        }
        let comma = if !v.is_empty() && self.s.chance(60) { "," } else { "" };
        format!("{a}{vis}enum {name}{g}{w}{{ {}{comma} }}", v.join(", "))
    }
    /// The names of the item around stay visible.
    fn function(&mut self, name: &str, vis: &str, receiver: bool, place: &str) -> String {
        let outer = self.env.clone();
        self.n += 1;
        let a = self.attrs(&["#[inline] ", "#[must_use] ", "#[cold] "]);
        let mut q = String::new();
        let kind = self.s.below(6);
        if kind == 1 && !place.starts_with("trait") {
            q.push_str("const ");
        }
        if kind == 2 {
            q.push_str("async ");
        }
        if self.s.chance(20) {
            q.push_str("unsafe ");
        }
        if kind == 3 {
            q.push_str(["extern ", "extern \"C\" ", "extern r\"Rust\" "][self.s.below(3) as usize]);
        }
        let before = self.env.clone();
        let g = self.generics();
        let mut ps = Vec::new();
        let lt = self.env.lifetimes.clone();
        if receiver && self.s.chance(60) {
            let l = match lt.is_empty() {
                true => "'_".to_string(),
                false => self.s.pick(&lt).clone(),
            };
            let body = place != "trait;";
            let r = match self.s.below(8) {
                0 => "&self".to_string(),
                1 => "&mut self".into(),
                2 if body => "mut self".into(),
                3 => "self: Box<Self>".into(),
                4 => "self: &Self".into(),
                5 if l == "'_" || !place.starts_with("trait") => "& '_ self".into(),
                6 => "self: ::std::rc::Rc<Self>".into(),
                _ => "self".into(),
            };
            ps.push(r);
        }
        let mut names = self.names(7);
        names.retain(|n| *n != name);
        // every type and constant has to be known from the arguments
        let new = |all: &[String], old: &[String]| all[old.len()..].to_vec();
        let mut types: Vec<String> = new(&self.env.types, &before.types);
        for c in new(&self.env.consts, &before.consts) {
            types.push(format!("[u8; {c}]"));
        }
        for _ in 0..self.s.count(2) {
            if types.len() < 6 && kind != 3 {
                let t = if self.s.chance(15) { "impl Clone + Send".into() } else { self.marked() };
                types.push(t);
            }
        }
        let at = self.s.below(types.len().max(1) as u32) as usize;
        if !types.is_empty() {
            types.rotate_left(at);
        }
        for (t, n) in types.iter().zip(&names) {
            let m = if place != "trait;" && self.s.chance(15) { "mut " } else { "" };
            ps.push(format!("{}{m}{n}: {t}", if self.s.chance(8) { "#[allow(warnings)] " } else { "" }));
        }
        let ret = match self.s.below(3) {
            0 => String::new(),
            1 => " -> ()".into(),
            _ => format!(" -> {}", self.marked()),
        };
        let w = self.wher();
        let comma = if !ps.is_empty() && self.s.chance(25) { "," } else { "" };
        let body = if place == "trait;" { ";" } else { " { loop {} }" };
        self.env = outer;
        format!("{a}{vis}{q}fn {name}{g}({}{comma}){ret}{w}{body}", ps.join(", "))
    }
    fn constant(&mut self, name: &str, vis: &str, place: &str) -> String {
        let a = self.attrs(&[]);
        let pool = [
            ("u8", "3"),
            ("&'static str", "\"a;b\""),
            ("[u8; { 1 + 1 }]", "[1, 2]"),
            ("fn(u8) -> u8", "|x| x"),
            ("Option<(u8, i8)>", "Some((1, -1))"),
            ("crate::Arr<u8, { 2 }>", "crate::Arr([1, 2])"),
            ("bool", "1 < 2 && (3 > 2)"),
            ("<u8 as ToOwned>::Owned", "{ let x = 1; x }"),
            ("&'static [Option<u8>; 1]", "&[Some::<u8>(1)]"),
            ("std::marker::PhantomData<fn() -> Vec<Vec<u8>>>", "std::marker::PhantomData::<_>"),
            ("usize", "if true { 1 } else { 2 }"),
        ];
        let (t, v) = *self.s.pick(&pool);
        let k = match place {
            "" => *self.s.pick(&["const", "static", "static mut"]),
            _ => "const",
        };
        format!("{a}{vis}{k} {name}: \u{1}{t}\u{2} = {v};")
    }
    fn alias(&mut self, name: &str, vis: &str) -> String {
        let a = self.attrs(&[]);
        let t = self.ty(0);
        format!("{a}{vis}type {name} = \u{1}{t}\u{2};")
    }
    fn tr(&mut self, name: &str, vis: &str) -> String {
        let a = self.attrs(&["#[must_use] "]);
        let u = if self.s.chance(15) { "unsafe " } else { "" };
        let g = self.generics();
        let sup = match self.s.below(6) {
            0 => ": Sized".to_string(),
            1 => ": crate::Blank + Send".into(),
            2 => ": 'static".into(),
            3 => ":".into(),
            4 => format!(": crate::Blank<{}> +", self.ty(1)),
            _ => String::new(),
        };
        let w = self.wher();
        let mut m = String::new();
        let names = self.names(6);
        for i in 0..self.s.count(5) {
            let t = match self.s.below(5) {
                0 => {
                    let a = self.attrs(&[]);
                    let b = *self.s.pick(&["", ": Clone", ": Copy + Into<u64>", ":"]);
                    format!("{a}type Ty{i}{b};")
                }
                1 => self.constant(&format!("C{i}"), "", "trait"),
                k => {
                    let place = if k == 2 { "trait" } else { "trait;" };
                    let mut f = self.function(names[i], "", true, place);
                    // by value, the type has to be sized
                    if f.contains(" where ") {
                        f = f.replacen(" where ", " where Self: Sized, ", 1);
                    } else if !sup.contains("Sized") {
                        let cut = f.rfind(if k == 2 { " { loop {} }" } else { ";" }).unwrap_or(f.len());
                        f.insert_str(cut, " where Self: Sized");
                    }
                    f
                }
            };
            m.push_str(&t);
            m.push(' ');
        }
        format!("{a}{vis}{u}trait {name}{g}{sup}{w}{{ {m}}}")
    }
    fn imp(&mut self) -> String {
        let a = self.attrs(&[]);
        let g = self.generics();
        let l = self.env.lifetimes.first().cloned().unwrap_or("'static".into());
        let t = self.phantom();
        let host = match self.s.below(3) {
            0 => format!("Host<{l}, {t}, 3>"),
            1 => format!("Host<{l}, {t}, {{ 1 }}>"),
            _ => format!("Host<{l}, {t}, {}>", self.env.consts.first().cloned().unwrap_or("7".into())),
        };
        // all constants have to be used
        let host = match self.env.consts.len() {
            0 => host,
            1 => format!("Host<{l}, {t}, {}>", self.env.consts[0]),
            _ => format!("Host<{l}, crate::Arr<{t}, {}>, {}>", self.env.consts[1], self.env.consts[0]),
        };
        let w = self.wher();
        let names = self.names(6);
        self.before = "pub struct Host<'a, T, const N: usize>(std::marker::PhantomData<(&'a (), T)>);\
            pub trait Tr<T> { type Out; const K: u8; fn f(&self, x: T) -> Self::Out; fn g<'a>(x: &'a u8) -> &'a u8 where Self: Sized { x } }"
            .into();
        if self.s.chance(30) {
            let x = self.ty(1);
            let o = self.marked();
            return format!(
                "{a}impl{g} Tr<{x}> for {host}{w} {{ type Out = {o}; const K: u8 = {{ 1 + 2 }}; fn f(&self, x: {x}) -> Self::Out {{ loop {{}} }} }}"
            );
        }
        let mut m = String::new();
        for i in 0..self.s.count(5) {
            let v = self.vis();
            let t = match self.s.below(4) {
                0 => self.constant(&format!("C{i}"), &v, "impl"),
                _ => self.function(names[i], &v, true, "impl"),
            };
            m.push_str(&t);
            m.push(' ');
        }
        format!("{a}impl{g} {host}{w}{{ {m}}}")
    }
    fn module(&mut self, name: &str, vis: &str, d: u32) -> String {
        let a = self.attrs(&[]);
        let inner = if self.s.chance(20) { "#![allow(dead_code)] " } else { "" };
        let mut m = String::new();
        for i in 0..self.s.count(4) {
            let n = format!("M{i}");
            let v = "pub ".to_string();
            self.env = Env::default();
            let t = match self.s.below(10) {
                0 => self.strukt(&n, &v),
                1 => self.enumeration(&n, &v).replace("ONE", "(crate::ONE)"),
                2 => self.union(&n, &v),
                3 => self.function(&n, &v, false, ""),
                4 => self.constant(&n, &v, ""),
                5 => self.alias(&n, &v),
                6 => self.tr(&n, &v),
                7 => "use std::{fmt as f0, collections::{self as c0, *}};".replace('0', &i.to_string()),
                8 if d < 2 => self.module(&n, &v, d + 1),
                _ => format!("extern \"C\" {{ pub fn e{i}(x: u8) -> *const u8; static X{i}: [u8; 2]; }}"),
            };
            self.env = Env::default();
            m.push_str(&t);
            m.push(' ');
        }
        format!("{a}{vis}mod {name} {{ {inner}{m}}}")
    }
}

fn def(s: &mut Src, o: &mut Obs) -> Def {
    let mut d = D {
        s,
        env: Env::default(),
        generic: false,
        before: String::new(),
        n: 0,
    };
    let name = *d.s.pick(&TYPE_NAMES);
    let vis = d.vis();
    let fname = *d.s.pick(&["f", "r#fn", "_g", "é"]);
    let (kind, text) = match d.s.weighted(&[6, 6, 3, 4, 4, 4, 2, 2, 2, 1]) {
        0 => ("struct", d.strukt(name, &vis)),
        1 => ("enum", d.enumeration(name, &vis)),
        2 => ("union", d.union(name, &vis)),
        3 => ("fn", d.function(fname, &vis, false, "")),
        4 => ("impl", d.imp()),
        5 => ("trait", d.tr(name, &vis)),
        6 => ("const", d.constant("X", &vis, "")),
        7 => ("alias", d.alias(name, &vis)),
        8 => ("module", d.module("r#mod", &vis, 0)),
        _ => ("extern", "extern \"C\" { fn f(x: u8) -> *const [u8; 2]; pub static mut X: Option<&'static u8>; }".into()),
    };
    if d.generic {
        o.nontrivial = true;
    }
    let fragments = text.contains('\u{1}') && d.s.chance(25);
    let how = match d.s.weighted(&[4, 2, 3]) {
        2 if matches!(kind, "struct" | "enum" | "union") => "#[derive(vpmac::Derived)]",
        0 => "",
        _ => "#[vpmac::attribute]",
    };
    o.label(kind);
    o.label(if how.is_empty() { "derived! { .. }" } else { how });
    Def {
        how,
        before: std::mem::take(&mut d.before),
        text,
        fragments,
        kind,
    }
}

/// One definition in a module of its own, with the macro or as it is.
fn module(i: usize, d: &Def, with: bool) -> String {
    let mac = |t: &str| match d.how {
        _ if !with => t.to_string(),
        "" => format!("vpmac::derived! {{ {t}\n}}"),
        how => format!("{how} {t}"),
    };
    let body = if d.fragments {
        let (mut body, mut params, mut args) = (String::new(), String::new(), String::new());
        for (j, piece) in d.text.split('\u{1}').enumerate() {
            let Some((ty, rest)) = piece.split_once('\u{2}') else {
                body.push_str(piece);
                continue;
            };
            let sep = if j > 1 { "; " } else { "" };
            params.push_str(&format!("{sep}$a{j}: ty"));
            args.push_str(&format!("{sep}{ty}"));
            body.push_str(&format!("$a{j}{rest}"));
        }
        format!("macro_rules! m {{ ({params}) => {{ {} }} }}\nm! {{ {args} }}", mac(&body))
    } else {
        mac(&d.text.replace(['\u{1}', '\u{2}'], ""))
    };
    format!("mod m{i} {{ use crate::*; {}\n{body}\n}}\n", d.before)
}

fn file(defs: &[Def], with: bool) -> String {
    let mut f = PRELUDE.to_string();
    for (i, d) in defs.iter().enumerate() {
        f.push_str(&module(i, d, with));
    }
    f
}

/// The first message, without the place.
fn first(messages: &str) -> &str {
    let l = messages.lines().find(|l| l.contains("error")).unwrap_or("");
    l.find("error").map_or("", |i| &l[i..])
}

fn c28(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let n = 1 + s.below(40);
    let defs: Vec<Def> = (0..n).map(|_| def(s, o)).collect();
    let text = file(&defs, true);
    o.text = text[PRELUDE.len()..].to_string();
    let run = |f: &str| rustc(f).1.map_err(|m| format!("with venial in a procedural macro, {m}"));
    let (fine, _) = run(&text)?;
    if fine {
        return Ok(());
    }
    let mut left = Vec::new();
    for (i, d) in defs.into_iter().enumerate() {
        let one = [d];
        let text = file(&one, true);
        let (fine, messages) = run(&text)?;
        let [d] = one;
        if !fine {
            let (bare, _) = run(&file(std::slice::from_ref(&d), false))?;
            if bare {
                o.text = format!("item {i} of {n}, alone:\n{text}");
                return Err(format!("what a macro writes for this {} doesn't compile: {}", d.kind, first(&messages)));
            }
            o.label("not accepted by rustc without the macro");
        } else {
            left.push(d);
        }
    }
    let text = file(&left, true);
    let (fine, messages) = run(&text)?;
    if !fine {
        o.text = text;
        return Err(format!(
            "definitions that compile alone don't compile together: {}",
            first(&messages)
        ));
    }
    Ok(())
}
