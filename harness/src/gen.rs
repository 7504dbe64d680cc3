//! Generator of Rust items: writes source text and, at the same time, the tree of what venial
//! has to find in it.

use crate::node::{opt, punctuated, rec, E, R};
use crate::tape::Src;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Struct,
    Enum,
    Union,
    Function,
    Impl,
    Trait,
    Module,
    Constant,
    TypeAlias,
    Use,
    Macro,
    ExternBlock,
    ExternCrate,
}

pub const ALL_KINDS: [Kind; 13] = [
    Kind::Struct,
    Kind::Enum,
    Kind::Union,
    Kind::Function,
    Kind::Impl,
    Kind::Trait,
    Kind::Module,
    Kind::Constant,
    Kind::TypeAlias,
    Kind::Use,
    Kind::Macro,
    Kind::ExternBlock,
    Kind::ExternCrate,
];

#[derive(Clone)]
pub struct Cfg {
    /// Weight of each kind, in the order of `ALL_KINDS`.
    pub kinds: [u32; 13],
    pub p_attr: u32,
    pub p_vis: u32,
    pub p_generics: u32,
    pub p_where: u32,
    /// Chance that a type or value is wrapped in an invisible group.
    pub p_wrap: u32,
    /// Everything that is wrapped is also supported without the group.
    pub unwrappable: bool,
    /// Allow long lists.
    pub big: u32,
    /// Nesting of types and expressions.
    pub depth: u32,
    /// Only syntax which rustc and syn accept as well (no legacy `crate` visibility).
    pub strict: bool,
    /// Defaults of generic params (how venial stores them is unspecified).
    pub defaults: bool,
    /// Chance that an enum variant has a discriminant.
    pub p_discr: u32,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            kinds: [4, 4, 2, 4, 3, 3, 2, 2, 2, 1, 2, 2, 1],
            p_attr: 20,
            p_vis: 35,
            p_generics: 35,
            p_where: 25,
            p_wrap: 0,
            unwrappable: false,
            big: 40,
            depth: 3,
            strict: false,
            defaults: true,
            p_discr: 25,
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ctx {
    Top,
    Mod,
    Impl,
    Trait,
    Extern,
}

/// Which type syntax is allowed at the top level of a type.
#[derive(Clone, Copy)]
pub struct TyOpt {
    /// `dyn A + B`
    pub plus: bool,
    /// `m! { .. }`
    pub brace_mac: bool,
    /// the `for` keyword
    pub top_for: bool,
    /// starts with `<`
    pub start_lt: bool,
}

pub const TY_ALL: TyOpt = TyOpt {
    plus: true,
    brace_mac: true,
    top_for: true,
    start_lt: true,
};
const TY_SIG: TyOpt = TyOpt {
    plus: true,
    brace_mac: false,
    top_for: true,
    start_lt: true,
};

/// Whether a type is a path.
#[derive(Clone, Debug)]
pub enum PC {
    Yes(E),
    No(&'static str),
    Unspec,
}

/// A type in the source.
#[derive(Clone, Debug)]
pub struct TyInfo {
    pub r: R,
    pub pc: PC,
}

pub struct G<'a> {
    pub s: &'a mut Src,
    pub cfg: Cfg,
    pub out: String,
    pub toks: Vec<R>,
    style: u32,
    prev: String,
    pub joint: HashSet<usize>,
    pub wraps: Vec<R>,
    /// For each of `wraps`, the `macro_rules!` fragment it is, and whether the item isn't supported
    /// without the group.
    pub wrap_kinds: Vec<(&'static str, bool)>,
    pub labels: BTreeMap<&'static str, u32>,
    /// Ranges of complex discriminants.
    pub complex: Vec<R>,
    budget: i32,
    /// Write one very long list of that kind.
    long: Option<Long>,
    /// Write one deeply nested type.
    deep: bool,
    /// Write that many modules within each other.
    chain: u32,
}

/// What is long, in a case with something long.
#[derive(Clone, Copy, PartialEq)]
enum Long {
    List,
    Body,
    Attrs,
    Path,
    Args,
    Soup,
    Bounds,
}

fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

fn is_op(c: char) -> bool {
    "~!@#$%^&*-=+|;:,<.>/?".contains(c)
}

fn need_space(prev: &str, next: &str) -> bool {
    let c = match prev.chars().last() {
        Some(c) => c,
        None => return false,
    };
    let d = next.chars().next().unwrap();
    let prev_first = prev.chars().next().unwrap();
    if is_word(c) && (is_word(d) || d == '"' || d == '\'' || d == '#') {
        return true;
    }
    if (c == '"' || c == '\'') && (is_word(d) || d == '"' || d == '\'' || d == '#') {
        return true;
    }
    if c == '#' && (is_word(d) || prev.len() > 1) {
        return true;
    }
    if d == '.' && (prev_first.is_ascii_digit() || c == '.') {
        return true;
    }
    if c == '.' && d.is_ascii_digit() && prev.len() > 1 {
        return true;
    }
    if c == '.' && prev_first.is_ascii_digit() {
        return true;
    }
    if c == '/' || d == '/' {
        return true;
    }
    if is_op(c) && is_op(d) {
        // what would make another operator
        let bad = matches!(
            (c, d),
            (':', ':') | ('-', '>') | ('=', '=' | '>') | ('<', '-' | '=') | ('.', '.') | ('|', '|')
                | ('!' | '.' | '+' | '-' | '*' | '%' | '^' | '&' | '|' | '~', '=')
        );
        // `a >` followed by `=>` or `==` would read as `>=`
        if bad || (c == '>' && d == '=' && next.len() > 1) {
            return true;
        }
    }
    false
}

const WS: [&str; 8] = [
    " ",
    "\n",
    "\t",
    "  \n  ",
    " /* c */ ",
    " // c, d > e\n",
    "/* a /* nested */ b */",
    "\r\n",
];

const PLAIN: [&str; 50] = [
    "lazy_static", "thread_local", "constant", "where_", "fn_", "self_", "pubkey", "structure", "implement", "mutable",
    "dynamic", "Self_",
    "A", "B", "T", "x", "foo", "Bar", "a_b", "_x", "U8", "item", "Value", "X1", "zip", "Inner",
    "Foo", "Kind", "data", "N", "M", "Q", "Result", "Vec", "Option", "z9", "Fn", "FnMut", "u32", "str", "bool",
    "usize", "Box", "PhantomData", "Send", "Clone", "test", "main", "new", "S",
];
const KEYWORDS: [&str; 30] = [
    "as", "async", "auto", "const", "crate", "default", "dyn", "enum", "extern", "fn", "for", "impl", "in", "macro_rules",
    "mod", "mut", "pub", "ref", "safe", "self", "static", "struct", "super", "trait", "type", "union", "unsafe", "use",
    "where", "true",
];
const WEIRD: [&str; 48] = [
    "union", "default", "auto", "r#type", "r#fn", "r#struct", "r#mod", "r#where", "r#pub",
    "r#const", "r#impl", "r#for", "r#unsafe", "été", "变量", "macro_rules", "raw", "safe", "__",
    "r#enum", "r#static", "r#dyn", "r#mut", "r#as", "String", "compile_error",
    "r#async", "r#await", "r#try", "r#match", "r#use", "r#extern", "r#trait", "r#union", "r#default", "r#auto",
    "r#safe", "r#raw", "r#ref", "r#move", "r#in", "r#let", "r#box", "r#macro_rules", "r#true", "gen", "r#gen", "ſ",
];
/// Attributes with a meaning to somebody.
const ATTRS: [&str; 22] = [
    "unsafe", "path", "rustfmt", "self", "crate", "type",
    "doc", "derive", "cfg", "cfg_attr", "repr", "serde", "inline", "allow", "deny", "must_use", "non_exhaustive",
    "test", "automatically_derived", "default", "macro_use", "no_mangle",
];
const LIFETIMES: [&str; 17] = [
    "'r#fn", "'r#in", "'a_rather_long_name", "'a", "'b", "'c", "'static", "'_", "'long_name", "'été", "'x1", "'de", "'A", "'_a", "'static_", "'self_", "'const_",
];

/// Pieces of doc comments.
const DOC: [&str; 22] = [
    "a", "word ", " ", "é", "变", "😀", "\"", "\\", "'", "`", "{", "}", "(", "<", ">", ",", ";", "#", "\t", "\u{202f}", "```", "\\n",
];
const ABIS: [&str; 10] = [
    "\"C\"", "\"system\"", "\"Rust\"", "\"C-unwind\"", "\"stdcall\"", "\"rust-call\"", "\"efiapi\"", "r\"C\"",
    "r#\"Rust\"#", "\"\"",
];

const LITS: [&str; 40] = [
    "0",
    "1",
    "42",
    "\"s\"",
    "1u8",
    "0xFF_u64",
    "0b1010",
    "0o17",
    "1_000",
    "1.0",
    "2e10",
    "1.5f32",
    "\"a, b > c; {\"",
    "\"esc \\\" \\n \\u{1F600} \\\\\"",
    "\"ünïcödé\"",
    "r\"raw\"",
    "r#\"raw \" hash\"#",
    "r##\"two \"# hashes\"##",
    "b\"bytes\\x00\"",
    "br#\"raw bytes\"#",
    "'c'",
    "'\\''",
    "'\\u{41}'",
    "'é'",
    "b'x'",
    "b'\\\\'",
    "c\"cstr\"",
    "18446744073709551615u64",
    "0i128",
    "9999999999usize",
    "'>'",
    "','",
    "\"\"",
    "\"::\"",
    "1.",
    "3.14e-2",
    "0x1F",
    "\"line\\\n   continued\"",
    "\"two\nlines\"",
    "'\"'",
];

impl<'a> G<'a> {
    pub fn new(s: &'a mut Src, cfg: Cfg) -> Self {
        let style = s.weighted(&[30, 25, 30, 15]) as u32;
        let mut g = G {
            s,
            cfg,
            out: String::new(),
            toks: Vec::new(),
            style,
            prev: String::new(),
            joint: HashSet::new(),
            wraps: Vec::new(),
            wrap_kinds: Vec::new(),
            labels: BTreeMap::new(),
            complex: Vec::new(),
            budget: 700,
            long: None,
            deep: false,
            chain: 0,
        };
        // now and then, something out of the ordinary
        match g.s.below(300) {
            297 => g.chain = 5 + g.s.below(100),
            298 => g.deep = true,
            299 => g.long = Some(Long::List),
            292..=296 => {
                g.long = Some(*g.s.pick(&[Long::Body, Long::Attrs, Long::Path, Long::Args, Long::Soup, Long::Bounds]))
            }
            _ => (),
        }
        match style {
            1 => g.label("tight layout"),
            3 => g.label("comments in layout"),
            _ => (),
        }
        g
    }

    /// Mark a range to be put in an invisible group.
    pub fn mark(&mut self, r: R, fragment: &'static str, needed: bool) {
        self.wraps.push(r);
        self.wrap_kinds.push((fragment, needed));
    }

    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }

    // --- writing ---

    /// Write one token (a multi-character operator and a lifetime count as one).
    pub fn t(&mut self, text: &str) -> R {
        let need = need_space(&self.prev, text);
        match self.style {
            0 => {
                if !self.out.is_empty() {
                    self.out.push(' ');
                }
            }
            1 => {
                if need {
                    self.out.push(' ');
                }
            }
            2 => {
                if need || (!self.out.is_empty() && self.s.chance(50)) {
                    self.out.push(' ');
                }
            }
            _ => {
                let k = self.s.below(16) as usize;
                if k < WS.len() {
                    let w = WS[k];
                    // a comment right after `/` would not be one
                    if self.prev == "/" && w.starts_with('/') {
                        self.out.push(' ');
                    }
                    self.out.push_str(w);
                } else if need || k < 12 {
                    self.out.push(' ');
                }
            }
        }
        let lo = self.out.len();
        self.out.push_str(text);
        let hi = self.out.len();
        let first = text.chars().next().unwrap();
        if text.starts_with('\'') && !text[1..].contains('\'') {
            self.joint.insert(lo);
        } else if is_op(first) && !text.starts_with("//") && !text.starts_with("/*") {
            for i in lo..hi - 1 {
                self.joint.insert(i);
            }
        }
        self.prev.clear();
        self.prev.push_str(text);
        self.toks.push((lo, hi));
        self.budget -= 1;
        (lo, hi)
    }

    /// The range of what `f` writes.
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> (Option<R>, T) {
        let n = self.toks.len();
        let v = f(self);
        if self.toks.len() == n {
            (None, v)
        } else {
            let lo = self.toks[n].0;
            let hi = self.toks[self.toks.len() - 1].1;
            (Some((lo, hi)), v)
        }
    }

    pub fn range(&mut self, f: impl FnOnce(&mut Self)) -> R {
        self.span(f).0.expect("harness: no tokens written")
    }

    pub fn group<T>(&mut self, d: char, f: impl FnOnce(&mut Self) -> T) -> (R, T) {
        let c = match d {
            '(' => ")",
            '{' => "}",
            _ => "]",
        };
        let lo = self.t(&d.to_string()).0;
        let v = f(self);
        let hi = self.t(c).1;
        (( lo, hi), v)
    }

    /// A great length, once, if that kind of list is to be long.
    fn long(&mut self, what: Long) -> Option<usize> {
        if self.long != Some(what) {
            return None;
        }
        self.long = None;
        self.label(match what {
            Long::List => "list of 40 or more",
            Long::Body => "40 or more members",
            Long::Attrs => "40 or more attributes",
            Long::Path => "path of 40 or more segments",
            Long::Args => "40 or more generic arguments",
            Long::Soup => "40 or more other tokens",
            Long::Bounds => "40 or more bounds",
        });
        Some(40 + self.s.below(260) as usize)
    }

    fn count(&mut self, d: u32) -> usize {
        if d == 0 {
            if let Some(n) = self.long(Long::List) {
                return n;
            }
        }
        let max = if self.budget < 0 {
            1
        } else if d >= 2 {
            3
        } else if d == 1 {
            6
        } else {
            self.cfg.big
        };
        self.s.count(max)
    }

    /// `x, y, z` with or without a trailing comma.
    fn comma_list(
        &mut self,
        n: usize,
        mut f: impl FnMut(&mut Self, usize) -> E,
    ) -> (Vec<E>, Vec<R>) {
        let mut items = Vec::new();
        let mut commas = Vec::new();
        for i in 0..n {
            items.push(f(self, i));
            if i + 1 < n {
                commas.push(self.t(","));
            } else if self.s.chance(35) {
                self.label("trailing comma");
                commas.push(self.t(","));
            }
        }
        if n >= 8 {
            self.label("list of 8 or more");
        }
        (items, commas)
    }

    // --- small things ---

    pub fn name_text(&mut self) -> String {
        match self.s.weighted(&[66, 15, 15, 4]) {
            0 => (*self.s.pick(&PLAIN)).to_string(),
            3 => {
                self.label("name made from a keyword");
                let k = *self.s.pick(&KEYWORDS);
                let mut first = k[..1].to_uppercase();
                first.push_str(&k[1..]);
                match self.s.below(8) {
                    0 => format!("_{k}"),
                    1 => format!("{k}s"),
                    2 => format!("is_{k}"),
                    3 if k != "self" => first,
                    4 => k.to_uppercase(),
                    5 => format!("{k}2"),
                    6 => format!("{k}é"),
                    _ => format!("{k}_"),
                }
            }
            1 => {
                let p = *self.s.pick(&PLAIN);
                let n = self.s.below(300);
                if n == 299 {
                    self.label("long name");
                    return p.repeat(100);
                }
                format!("{p}{n}")
            }
            _ => {
                self.label("raw, unicode or contextual name");
                (*self.s.pick(&WEIRD)).to_string()
            }
        }
    }

    pub fn ident(&mut self) -> R {
        let n = self.name_text();
        self.t(&n)
    }

    fn lifetime(&mut self) -> R {
        let l = *self.s.pick(&LIFETIMES);
        self.t(l)
    }

    /// E of a `Lifetime`
    fn lifetime_e(r: R) -> E {
        rec(
            "Lifetime",
            vec![
                ("tk_apostrophe", E::T((r.0, r.0 + 1))),
                ("name", E::T((r.0 + 1, r.1))),
            ],
        )
    }

    pub fn literal(&mut self) -> R {
        if self.s.below(8) == 7 {
            self.label("random literal");
            let l = self.random_literal();
            return self.t(&l);
        }
        let l = *self.s.pick(&LITS);
        self.t(l)
    }

    /// Strings of any length and content, numbers of any size.
    fn random_literal(&mut self) -> String {
        const CHARS: [&str; 24] = [
            "a", "Z", "0", " ", "_", "é", "ß", "变", "😀", "\u{301}", ",", ">", "<", ";", "{", ")", "'", "//", "/*", "#",
            "r", "::", "\u{a0}", "\n",
        ];
        const ESC: [&str; 8] = ["\\\"", "\\\\", "\\n", "\\u{1F600}", "\\x41", "\\0", "\\'", "\\\n   "];
        let kind = self.s.weighted(&[40, 20, 10, 20, 10]);
        let n = match self.s.below(6) {
            0 => 0,
            1 | 2 => self.s.below(8),
            3 | 4 => self.s.below(60),
            _ => self.s.below(400),
        };
        if kind == 3 {
            let mut t = String::from("1");
            for _ in 0..n.min(60) {
                t.push(char::from(b'0' + self.s.below(10) as u8));
            }
            t.push_str(["", "u128", "i8", ".5", ".0f64", "e7", "_usize", "f32"][self.s.below(8) as usize]);
            return t;
        }
        let mut t = String::new();
        for _ in 0..n {
            let escape = kind != 1 && self.s.below(6) == 5;
            let c = if escape { *self.s.pick(&ESC) } else { *self.s.pick(&CHARS) };
            // byte strings are ASCII
            if kind != 2 || (c.is_ascii() && !c.contains("u{")) {
                t.push_str(c);
            }
        }
        match kind {
            1 => {
                let h = "#".repeat(1 + self.s.below(4) as usize);
                format!("r{h}\"{t}\"{h}")
            }
            2 => format!("b\"{t}\""),
            4 => format!("\"{t}\"_suffix"),
            _ => format!("\"{t}\""),
        }
    }

    /// Any tokens, in balanced groups.
    pub fn soup(&mut self, d: u32) {
        let n = match self.long(Long::Soup) {
            Some(n) => n,
            None => self.count(d.max(1)),
        };
        const OPS: [&str; 34] = [
            ",", ":", ";", "=", "<", ">", "::", "->", "=>", "+", "-", "*", "&", "|", "!", "?", "@",
            "..", "..=", "==", "&&", "||", "<<", ">>", "<=", ">=", "!=", "+=", "$", "%", "^", "~",
            ".", "#",
        ];
        const KW: [&str; 20] = [
            "fn", "struct", "where", "for", "pub", "impl", "mut", "self", "Self", "const", "as",
            "in", "if", "match", "_", "true", "crate", "unsafe", "enum", "mod",
        ];
        let mut starts = Vec::new();
        for _ in 0..n {
            starts.push(self.toks.len());
            match self.s.weighted(&[30, 20, 25, 8, 5, 12]) {
                0 => {
                    self.ident();
                }
                1 => {
                    self.literal();
                }
                2 => {
                    let op = *self.s.pick(&OPS);
                    // lone tokens stay apart from what follows
                    self.t(op);
                }
                3 => {
                    let k = *self.s.pick(&KW);
                    self.t(k);
                }
                4 => {
                    self.lifetime();
                }
                _ => {
                    if d < 4 {
                        let c = *self.s.pick(&['(', '[', '{']);
                        self.group(c, |g| g.soup(d + 1));
                    }
                }
            }
        }
        // macro arguments such as `$e`
        if self.cfg.p_wrap > 0 && !starts.is_empty() && self.s.chance(25) {
            let a = starts[self.s.below(starts.len() as u32) as usize];
            let b = if self.s.chance(50) {
                starts.iter().copied().find(|b| *b > a).unwrap_or(self.toks.len())
            } else {
                self.toks.len()
            };
            if a < b {
                let r = (self.toks[a].0, self.toks[b - 1].1);
                self.label("invisible group among other tokens");
                self.mark(r, "", false);
            }
        }
    }

    // --- paths and types ---

    /// Path in a type or trait position. `last_sugar`: allow `Fn(A) -> B` at the end.
    fn path(&mut self, d: u32, last_sugar: bool, turbofish: u32) -> PC {
        self.path_o(d, last_sugar, turbofish, true)
    }

    fn path_o(&mut self, d: u32, last_sugar: bool, turbofish: u32, top_for: bool) -> PC {
        let mut segs = Vec::new();
        let n = match self.s.weighted(&[60, 25, 10, 5]) {
            0 => 1,
            1 => 2,
            2 => 3,
            _ => 4 + self.s.below(4) as usize,
        };
        let n = self.long(Long::Path).unwrap_or(n);
        let lead = self.s.chance(8);
        let mut unspec = false;
        // after `self` and `super`
        let mut up = false;
        if lead {
            self.label("path with leading `::`");
        }
        for i in 0..n {
            let colons = if i > 0 || lead { Some(self.t("::")) } else { None };
            let mut kw = false;
            let ident = if up && i + 1 < n && self.s.chance(40) {
                kw = true;
                self.label("path with several `super`");
                self.t("super")
            } else if i == 0 && !lead {
                match self.s.weighted(&[75, 8, 5, 4, 4]) {
                    0 => self.ident(),
                    1 => {
                        if n == 1 {
                            self.t("Self")
                        } else {
                            kw = true;
                            self.t("crate")
                        }
                    }
                    2 if n > 1 => {
                        kw = true;
                        up = true;
                        self.t("self")
                    }
                    3 if n > 1 => {
                        kw = true;
                        up = true;
                        self.t("super")
                    }
                    4 if n > 1 => self.t("Self"),
                    _ => self.ident(),
                }
            } else {
                self.ident()
            };
            up &= kw;
            let p_args = if i + 1 == n { 35 } else { 10 };
            let mut args = E::None;
            if !kw && d > 0 && self.budget > 0 && self.s.chance(p_args) {
                if last_sugar && i + 1 == n && self.s.chance(25) {
                    self.label("Fn(A) -> B path");
                    unspec = true;
                    self.group('(', |g| {
                        let n = g.count(2);
                        g.comma_list(n, |g, _| {
                            g.ty(TY_ALL, d - 1);
                            E::None
                        });
                    });
                    if self.s.chance(60) {
                        self.t("->");
                        self.ty(
                            TyOpt {
                                plus: false,
                                top_for,
                                ..TY_SIG
                            },
                            d - 1,
                        );
                    }
                } else {
                    args = self.generic_args(d - 1, turbofish);
                }
            }
            segs.push(rec(
                "PathSegment",
                vec![
                    ("tk_separator_colons", opt(colons)),
                    ("ident", E::T(ident)),
                    ("generic_args", args),
                ],
            ));
        }
        if unspec {
            PC::Unspec
        } else {
            PC::Yes(E::List(segs))
        }
    }

    fn generic_args(&mut self, d: u32, turbofish: u32) -> E {
        let turbo = if self.s.chance(turbofish) {
            self.label("turbofish");
            Some(self.t("::"))
        } else {
            None
        };
        let lt = self.t("<");
        let n = match self.long(Long::Args) {
            Some(n) => n,
            None => self.count(d.max(1)),
        };
        let mut stage = 0;
        let (items, commas) = self.comma_list(n, |g, _| {
            // lifetimes, then types and consts, then bindings and constraints
            stage = stage.max(g.s.weighted(&[15, 70, 15]));
            match stage {
                0 => {
                    g.label("lifetime argument");
                    let r = g.lifetime();
                    rec("LifetimeArg", vec![("lifetime", Self::lifetime_e(r))])
                }
                1 => match g.s.weighted(&[80, 8, 4, 4, 4]) {
                    1 => {
                        let r = g.literal();
                        rec("TypeOrConst", vec![("expr", E::T(r))])
                    }
                    2 => {
                        let r = g.range(|g| {
                            g.t("-");
                            g.t("1");
                        });
                        rec("TypeOrConst", vec![("expr", E::T(r))])
                    }
                    3 => {
                        g.label("block argument");
                        let (r, _) = g.group('{', |g| g.expr(1));
                        rec("TypeOrConst", vec![("expr", E::T(r))])
                    }
                    4 => {
                        let r = g.t("true");
                        rec("TypeOrConst", vec![("expr", E::T(r))])
                    }
                    _ => {
                        let t = g.ty(TY_ALL, d);
                        rec("TypeOrConst", vec![("expr", E::T(t.r))])
                    }
                },
                _ => match g.s.weighted(&[80, 20]) {
                    0 => {
                        g.label("binding argument");
                        let i = g.ident();
                        let eq = g.t("=");
                        let t = match g.s.weighted(&[80, 8, 4, 4, 4]) {
                            0 => g.ty(TY_ALL, d).r,
                            k => {
                                g.label("binding of a const");
                                g.range(|g| match k {
                                    1 => {
                                        g.literal();
                                    }
                                    2 => {
                                        g.t("-");
                                        g.literal();
                                    }
                                    3 => {
                                        g.group('{', |g| g.expr(1));
                                    }
                                    _ => {
                                        g.t("true");
                                    }
                                })
                            }
                        };
                        rec(
                            "Binding",
                            vec![
                                ("ident", E::T(i)),
                                ("tk_equals", E::T(eq)),
                                ("ty", E::T(t)),
                            ],
                        )
                    }
                    _ => {
                        // `Item: Bound`, `Item<'a> = T`: how the argument is classified is unspecified
                        g.ident();
                        if d > 0 && g.s.chance(30) {
                            g.label("binding with arguments");
                            g.generic_args(d - 1, 0);
                            if g.s.chance(70) {
                                g.t("=");
                                g.ty(TY_ALL, d - 1);
                                return E::Any;
                            }
                        }
                        g.t(":");
                        g.bounds(d, true);
                        E::Any
                    }
                },
            }
        });
        let gt = self.t(">");
        rec(
            "GenericArgList",
            vec![
                ("tk_turbofish_colons", opt(turbo)),
                ("tk_l_bracket", E::T(lt)),
                ("args", punctuated(items, commas)),
                ("tk_r_bracket", E::T(gt)),
            ],
        )
    }

    /// A type; sometimes it is marked to be wrapped in an invisible group.
    pub fn ty(&mut self, o: TyOpt, d: u32) -> TyInfo {
        let wrap = self.cfg.p_wrap > 0 && self.s.chance(self.cfg.p_wrap);
        let (r, pc) = self.span(|g| g.ty_inner(o, d));
        let r = r.expect("harness: empty type");
        if wrap {
            self.mark(r, "ty", false);
        }
        TyInfo { r, pc }
    }

    fn for_lifetimes(&mut self) {
        self.label("for<'a>");
        self.t("for");
        self.t("<");
        if self.s.chance(8) {
            self.t(">");
            return;
        }
        let n = 1 + self.s.below(2) as usize;
        self.comma_list(n, |g, _| {
            let l = *g.s.pick(&["'a", "'b", "'c"]);
            g.t(l);
            E::None
        });
        self.t(">");
    }

    /// `A<(&A::<[A<..>]>,)>`, to depth `n`
    fn deep_ty(&mut self, n: u32, angle: bool) {
        if n == 0 {
            self.ident_not_weird();
            return;
        }
        let groups = if angle { 0 } else { 15 };
        match self.s.weighted(&[50, 15, groups, 10, groups]) {
            0 => {
                self.ident_not_weird();
                self.t("<");
                self.deep_ty(n - 1, angle);
                self.t(">");
            }
            1 => {
                self.ident_not_weird();
                self.t("::");
                self.t("<");
                self.t("'a");
                self.t(",");
                self.deep_ty(n - 1, angle);
                self.t(",");
                self.ident_not_weird();
                self.t(">");
            }
            2 => {
                self.group('[', |g| g.deep_ty(n - 1, angle));
            }
            3 => {
                self.t("&");
                self.deep_ty(n - 1, angle);
            }
            _ => {
                self.group('(', |g| {
                    g.deep_ty(n - 1, angle);
                    g.t(",");
                    g.ident_not_weird();
                });
            }
        }
    }

    fn ty_inner(&mut self, o: TyOpt, d: u32) -> PC {
        if self.deep {
            self.deep = false;
            self.label("type of depth 20 or more");
            self.t("&");
            let n = 20 + self.s.below(280);
            // only angle brackets, so that they are nested in each other as deeply
            let angle = self.s.chance(60);
            self.deep_ty(n, angle);
            return PC::No("reference");
        }
        if d == 0 || self.budget < 0 {
            return self.path(0, false, 0);
        }
        let d = d - 1;
        let inner_no_plus = TyOpt {
            plus: false,
            ..o
        };
        match self.s.weighted(&[44, 10, 6, 6, 4, 6, 8, 6, 2, 4, 3, 3]) {
            0 => self.path_o(d + 1, true, 15, o.top_for),
            1 => {
                self.t("&");
                if self.s.chance(40) {
                    self.lifetime();
                }
                if self.s.chance(40) {
                    self.t("mut");
                }
                self.ty(TyOpt { start_lt: true, ..inner_no_plus }, d);
                PC::No("reference")
            }
            2 => {
                self.group('(', |g| {
                    let n = g.count(2);
                    let n1 = n == 1;
                    for i in 0..n {
                        g.ty(TY_ALL, d);
                        if i + 1 < n || n1 || g.s.chance(30) {
                            g.t(",");
                        }
                    }
                });
                PC::No("tuple")
            }
            3 => {
                self.group('[', |g| {
                    g.ty(TY_ALL, d);
                    if g.s.chance(60) {
                        g.t(";");
                        g.expr(1);
                    }
                });
                PC::No("array")
            }
            4 => {
                self.t("*");
                let m = *self.s.pick(&["const", "mut"]);
                self.t(m);
                self.ty(TyOpt { start_lt: true, ..inner_no_plus }, d);
                PC::No("pointer")
            }
            5 => {
                self.label("fn pointer type");
                if o.top_for && self.s.chance(25) {
                    self.for_lifetimes();
                }
                if self.s.chance(20) {
                    self.t("unsafe");
                }
                if self.s.chance(20) {
                    self.t("extern");
                    if self.s.chance(60) {
                        let a = *self.s.pick(&ABIS);
                        self.t(a);
                    }
                }
                self.t("fn");
                self.group('(', |g| {
                    let n = g.count(2);
                    g.comma_list(n, |g, i| {
                        if g.s.chance(4) {
                            g.attribute(false);
                        }
                        if i > 0 && i + 1 == n && g.s.chance(10) {
                            g.t("...");
                            return E::None;
                        }
                        if g.s.chance(30) {
                            let p = *g.s.pick(&["_", "x", "y"]);
                            g.t(p);
                            g.t(":");
                        }
                        g.ty(TY_ALL, d);
                        E::None
                    });
                });
                if self.s.chance(60) {
                    self.t("->");
                    self.ty(TyOpt { start_lt: true, ..inner_no_plus }, d);
                }
                PC::No("fn pointer")
            }
            6 => {
                self.label("dyn or impl type");
                let k = *self.s.pick(&["dyn", "impl"]);
                self.t(k);
                let max = if o.plus { 3 } else { 1 };
                self.trait_bounds(d, max, o.top_for);
                PC::No("dyn or impl")
            }
            7 if o.start_lt => {
                self.label("<T as Trait>::Item type");
                self.t("<");
                self.ty(TY_ALL, d);
                if self.s.chance(70) {
                    self.t("as");
                    self.path(d, false, 0);
                }
                self.t(">");
                let n = 1 + self.s.below(2);
                for _ in 0..n {
                    self.t("::");
                    self.ident();
                    if d > 0 && self.s.chance(20) {
                        self.generic_args(d - 1, 0);
                    }
                }
                PC::No("qualified path")
            }
            8 => {
                self.t("!");
                PC::No("never")
            }
            9 => {
                self.label("parenthesized type");
                self.group('(', |g| {
                    g.ty(TY_ALL, d);
                });
                PC::No("parenthesized")
            }
            10 => {
                self.label("macro type");
                self.ident_not_weird();
                self.t("!");
                let delims: &[char] = if o.brace_mac {
                    &['(', '[', '{']
                } else {
                    &['(', '[']
                };
                let c = *self.s.pick(delims);
                self.group(c, |g| g.soup(2));
                PC::No("macro")
            }
            11 => {
                // single segment
                let r = self.ident();
                PC::Yes(E::List(vec![rec(
                    "PathSegment",
                    vec![
                        ("tk_separator_colons", E::None),
                        ("ident", E::T(r)),
                        ("generic_args", E::None),
                    ],
                )]))
            }
            _ => self.path_o(d + 1, true, 15, o.top_for),
        }
    }

    pub fn ident_not_weird(&mut self) -> R {
        let p = *self.s.pick(&PLAIN);
        self.t(p)
    }

    /// `A + ?Sized + 'a`; at least one.
    fn trait_bounds(&mut self, d: u32, max: u32, allow_for: bool) {
        let n = 1 + self.s.below(max) as usize;
        let n = self.long(Long::Bounds).unwrap_or(n);
        for i in 0..n {
            if i > 0 {
                self.t("+");
            }
            let k = self.s.weighted(&[68, 10, 8, 6, 6, 2]);
            match k {
                1 if i > 0 => {
                    self.lifetime();
                }
                2 if allow_for => {
                    self.for_lifetimes();
                    self.path_o(d, true, 0, allow_for);
                }
                3 => {
                    self.t("?");
                    if self.s.chance(80) {
                        self.t("Sized");
                    } else {
                        self.path(d, false, 0);
                    }
                }
                5 if i > 0 => {
                    self.label("use<..> bound");
                    self.t("use");
                    self.t("<");
                    let n = self.s.below(4) as usize;
                    self.comma_list(n, |g, k| {
                        if k == 0 && g.s.chance(50) {
                            g.lifetime();
                        } else {
                            g.ident();
                        }
                        E::None
                    });
                    self.t(">");
                }
                4 => {
                    self.group('(', |g| {
                        match g.s.below(6) {
                            0 | 1 => {
                                g.t("?");
                            }
                            2 => g.for_lifetimes(),
                            _ => (),
                        }
                        g.path(d, false, 0);
                    });
                }
                _ => {
                    let (r, _) = self.span(|g| g.path_o(d, true, 0, allow_for));
                    if self.cfg.p_wrap > 0 && self.s.chance(self.cfg.p_wrap) {
                        if let Some(r) = r {
                            self.mark(r, "path", false);
                        }
                    }
                }
            }
        }
    }

    /// Bound tokens after a colon. May be empty.
    pub fn bounds(&mut self, d: u32, allow_for: bool) -> Option<R> {
        if self.s.chance(7) {
            self.label("empty bound");
            return None;
        }
        if self.s.chance(12) {
            return self.lifetime_bounds();
        }
        let max = if self.s.chance(5) { 9 } else { 3 };
        Some(self.range(|g| {
            g.trait_bounds(d, max, allow_for);
            g.last_plus();
        }))
    }

    /// `A + B +` is fine.
    fn last_plus(&mut self) {
        if self.s.chance(3) {
            self.label("bound that ends with +");
            self.t("+");
        }
    }

    fn lifetime_bounds(&mut self) -> Option<R> {
        if self.s.chance(7) {
            self.label("empty bound");
            return None;
        }
        Some(self.range(|g| {
            let n = 1 + g.s.below(3);
            for i in 0..n {
                if i > 0 {
                    g.t("+");
                }
                g.lifetime();
            }
            g.last_plus();
        }))
    }

    fn bound_e(colon: R, tokens: Option<R>) -> E {
        rec(
            "GenericBound",
            vec![
                ("tk_colon", E::T(colon)),
                ("tokens", tokens.map_or(E::Empty, E::T)),
            ],
        )
    }

    // --- expressions ---

    pub fn expr(&mut self, d: u32) {
        let (r, _) = self.span(|g| g.expr_inner(d));
        if self.cfg.p_wrap > 0 && self.s.chance(4) {
            if let Some(r) = r {
                self.mark(r, "expr", false);
            }
        }
    }

    fn expr_inner(&mut self, d: u32) {
        if d == 0 || self.budget < 0 {
            self.atom();
            return;
        }
        match self.s.weighted(&[30, 30, 8, 6, 6, 5, 5, 5, 5, 4, 3, 3, 3, 3]) {
            0 => self.primary(d),
            9 => {
                // field, index, `?`
                self.ident_not_weird();
                let n = 1 + self.s.below(3);
                for _ in 0..n {
                    match self.s.below(4) {
                        0 => {
                            self.t(".");
                            self.t("await");
                        }
                        1 => {
                            self.t(".");
                            self.t("0");
                        }
                        2 => {
                            self.group('[', |g| g.expr(d - 1));
                        }
                        _ => {
                            self.t("?");
                        }
                    }
                }
            }
            10 => {
                let k = *self.s.pick(&["& mut", "& raw const", "- -", "! !", "& &", "* *", ".. ", "..=", "return", "break 'a"]);
                k.split_whitespace().for_each(|k| {
                    self.t(k);
                });
                self.primary(d - 1);
            }
            11 => {
                let k = *self.s.pick(&["async", "async move", "unsafe", "loop", "const", "'a : loop", "while true", "for x in ()"]);
                k.split_whitespace().for_each(|k| {
                    if k == "()" {
                        self.group('(', |_| ());
                    } else {
                        self.t(k);
                    }
                });
                self.block(d - 1);
            }
            12 => {
                let empty = self.s.chance(30);
                self.group('(', |g| {
                    if !empty {
                        g.expr(d - 1);
                        g.t(",");
                        if g.s.chance(60) {
                            g.expr(d - 1);
                        }
                    }
                });
            }
            13 => {
                self.t("if");
                self.t("let");
                self.ident_not_weird();
                self.group('(', |g| {
                    g.t("ref");
                    g.ident_not_weird();
                    g.t("@");
                    g.t("0");
                    g.t("..=");
                    g.t("9");
                });
                self.t("=");
                self.atom_paren();
                self.block(d - 1);
                if self.s.chance(40) {
                    self.t("else");
                    self.block(d - 1);
                }
            }
            1 => {
                // comparison operators can't be chained
                const OPS: [&str; 18] = [
                    "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "<", ">", "<=",
                    ">=", "==", "!=",
                ];
                let i = self.s.below(18) as usize;
                if i >= 12 {
                    self.label("comparison operator in value");
                }
                self.primary(d - 1);
                self.t(OPS[i]);
                self.primary(d - 1);
                if i < 12 {
                    let more = self.s.below(3);
                    for _ in 0..more {
                        self.t(OPS[i]);
                        self.primary(d - 1);
                    }
                }
            }
            2 => {
                let op = *self.s.pick(&["-", "!", "&", "*"]);
                self.t(op);
                self.primary(d - 1);
            }
            3 => {
                self.label("closure in value");
                if self.s.chance(30) {
                    self.t("move");
                }
                if self.s.chance(30) {
                    self.t("||");
                    self.primary(d - 1);
                } else {
                    self.t("|");
                    let n = 1 + self.s.below(2) as usize;
                    for i in 0..n {
                        if i > 0 {
                            self.t(",");
                        }
                        self.ident();
                        if self.s.chance(40) {
                            self.t(":");
                            self.ty(
                                TyOpt {
                                    plus: false,
                                    ..TY_ALL
                                },
                                d - 1,
                            );
                        }
                    }
                    self.t("|");
                    self.primary(d - 1);
                }
            }
            4 => {
                self.t("match");
                self.atom_paren();
                self.group('{', |g| {
                    let n = g.s.below(3);
                    for _ in 0..n {
                        let k = *g.s.pick(&["_", "_", "1 | 2", "- 1", "'a' ..= 'z'", "A :: B", "x @ _", "_ if true", "& x", "ref mut x", "_ if a < b"]);
                        k.split(' ').for_each(|k| {
                            g.t(k);
                        });
                        g.t("=>");
                        g.primary(d - 1);
                        g.t(",");
                    }
                });
            }
            5 => {
                self.t("if");
                self.atom_paren();
                self.block(d - 1);
                self.t("else");
                self.block(d - 1);
            }
            6 => {
                self.primary(d - 1);
                self.t("as");
                self.path(d - 1, false, 0);
            }
            7 => {
                self.atom_paren();
                let op = *self.s.pick(&["..", "..="]);
                self.t(op);
                self.atom_paren();
            }
            _ => {
                self.label("struct literal in value");
                self.ident_not_weird();
                self.group('{', |g| {
                    let n = g.count(2);
                    for i in 0..n {
                        g.ident();
                        g.t(":");
                        g.primary(d - 1);
                        if i + 1 < n || g.s.chance(50) {
                            g.t(",");
                        }
                    }
                });
            }
        }
    }

    fn atom(&mut self) {
        match self.s.below(3) {
            0 => {
                self.literal();
            }
            1 => {
                self.ident_not_weird();
            }
            _ => {
                let b = *self.s.pick(&["true", "false"]);
                self.t(b);
            }
        }
    }

    fn atom_paren(&mut self) {
        self.group('(', |g| g.atom());
    }

    fn primary(&mut self, d: u32) {
        if d == 0 || self.budget < 0 {
            self.atom();
            return;
        }
        match self.s.weighted(&[30, 14, 8, 6, 8, 6, 8, 6, 4]) {
            0 => self.atom(),
            1 => self.expr_path(d),
            2 => {
                self.expr_path(d);
                self.group('(', |g| {
                    let n = g.count(2);
                    for i in 0..n {
                        g.expr(d - 1);
                        if i + 1 < n {
                            g.t(",");
                        }
                    }
                });
            }
            3 => {
                self.block(d - 1);
            }
            4 => {
                self.group('(', |g| g.expr(d - 1));
            }
            5 => {
                self.group('[', |g| {
                    g.expr(d - 1);
                    if g.s.chance(50) {
                        g.t(";");
                        g.atom();
                    } else {
                        g.t(",");
                        g.expr(d - 1);
                    }
                });
            }
            6 => {
                self.ident_not_weird();
                self.t(".");
                self.ident_not_weird();
                if self.s.chance(40) {
                    self.label("turbofish");
                    self.t("::");
                    self.t("<");
                    self.ty(TY_ALL, d - 1);
                    self.t(">");
                }
                self.group('(', |g| g.expr(d - 1));
            }
            7 => {
                self.ident_not_weird();
                self.t("!");
                let c = *self.s.pick(&['(', '[']);
                self.group(c, |g| g.soup(2));
            }
            _ => {
                self.t("<");
                self.ty(TY_ALL, d - 1);
                self.t("as");
                self.path(d - 1, false, 0);
                self.t(">");
                self.t("::");
                self.ident_not_weird();
            }
        }
    }

    fn expr_path(&mut self, d: u32) {
        let n = 1 + self.s.below(3);
        if self.s.chance(12) {
            self.t("::");
        }
        for i in 0..n {
            if i > 0 {
                self.t("::");
            }
            self.ident_not_weird();
            if self.s.chance(15) {
                self.generic_args(d - 1, 100);
            }
        }
    }

    /// `{ statements }`
    pub fn block(&mut self, d: u32) -> R {
        self.group('{', |g| {
            if g.s.chance(3) {
                g.attribute(true);
            }
            let n = g.s.below(3);
            for _ in 0..n {
                match g.s.below(8) {
                    3 => {
                        let k = *g.s.pick(&["unsafe", "loop", "const", "'a : loop"]);
                        k.split(' ').for_each(|k| {
                            g.t(k);
                        });
                        g.group('{', |_| ());
                    }
                    4 => {
                        g.t("struct");
                        g.ident_not_weird();
                        g.t(";");
                    }
                    5 => {
                        g.t("return");
                        g.expr(d);
                        g.t("?");
                        g.t(";");
                    }
                    0 => {
                        g.t("let");
                        g.ident_not_weird();
                        if g.s.chance(30) {
                            g.t(":");
                            g.ty(TY_ALL, d);
                        }
                        g.t("=");
                        g.expr(d);
                        g.t(";");
                    }
                    1 => {
                        g.ident_not_weird();
                        g.atom_paren();
                        g.t(";");
                    }
                    _ => {
                        g.t("fn");
                        g.ident_not_weird();
                        g.group('(', |_| ());
                        g.group('{', |_| ());
                    }
                }
            }
            if g.s.chance(40) {
                g.atom();
            }
        })
        .0
    }

    // --- attributes, visibility, generics ---

    pub fn attribute(&mut self, inner: bool) -> E {
        let doc = self.s.weighted(&[75, 15, 10]);
        if doc == 1 {
            self.label("doc comment");
            let txt = if self.s.below(4) == 3 {
                let mut t = String::from(" ");
                let n = match self.s.below(3) {
                    0 => self.s.below(6),
                    1 => self.s.below(40),
                    _ => self.s.below(300),
                };
                for _ in 0..n {
                    t.push_str(self.s.pick(&DOC));
                }
                t
            } else {
                (*self.s.pick(&[" doc", "", " it's \"quoted\" \\ {", " a > b, c", " é"])).to_string()
            };
            let text = format!("{}{}", if inner { "//!" } else { "///" }, txt);
            let r = self.t(&text);
            self.out.push('\n');
            return E::Doc(r, inner);
        }
        if doc == 2 {
            self.label("doc comment");
            let txt = *self.s.pick(&[" doc ", " two\n lines ", " x /* nested */ y "]);
            let text = format!("{}{}*/", if inner { "/*!" } else { "/**" }, txt);
            let r = self.t(&text);
            return E::Doc(r, inner);
        }
        let hash = self.t("#");
        let bang = if inner { Some(self.t("!")) } else { None };
        let (br, inside) = self.group('[', |g| g.attribute_inside());
        rec(
            "Attribute",
            vec![
                ("tk_hash", E::T(hash)),
                ("tk_bang", opt(bang)),
                ("tk_brackets", E::Grp('[', br, Box::new(inside))),
            ],
        )
    }

    pub fn attribute_inside(&mut self) -> E {
        // `#[$meta]` in a macro
        if self.cfg.p_wrap > 0 && !self.cfg.unwrappable && self.s.chance(8) {
            self.label("attribute contents in an invisible group");
            let r = self.range(|g| {
                g.attribute_contents();
            });
            self.mark(r, "meta", true);
            return rec(
                "Inside",
                vec![
                    ("path", E::Empty),
                    ("value", rec("Group", vec![("group", E::Grp('N', r, Box::new(E::Within(r))))])),
                ],
            );
        }
        self.attribute_contents()
    }

    fn attribute_contents(&mut self) -> E {
        let path = self.range(|g| {
            let n = match g.s.weighted(&[75, 15, 10]) {
                0 => 1,
                1 => 2,
                _ => 3,
            };
            if n > 1 {
                g.label("attribute path of several segments");
            }
            if g.s.chance(4) {
                g.t("::");
            }
            for i in 0..n {
                if i > 0 {
                    g.t("::");
                }
                if i == 0 && g.s.chance(4) {
                    g.label("attribute path with a keyword");
                    let k = match n {
                        1 => "unsafe",
                        _ => *g.s.pick(&["crate", "self", "super"]),
                    };
                    g.t(k);
                } else if g.s.chance(25) {
                    let a = *g.s.pick(&ATTRS);
                    g.t(a);
                } else {
                    g.ident();
                }
            }
        });
        let value = match self.s.weighted(&[30, 45, 25]) {
            0 => rec("Empty", vec![]),
            1 => {
                let c = *self.s.pick(&['(', '(', '(', '[', '{']);
                let (r, toks) = self.group(c, |g| g.span(|g| g.soup(1)).0);
                rec(
                    "Group",
                    vec![("group", E::Grp(c, r, Box::new(toks.map_or(E::Empty, E::T))))],
                )
            }
            _ => {
                let eq = self.t("=");
                let r = self.range(|g| {
                    if !g.cfg.strict && g.s.chance(8) {
                        // in the input of a macro it can be anything
                        g.label("attribute with any tokens for a value");
                        g.literal();
                        g.soup(1);
                        if g.s.chance(30) {
                            let c = *g.s.pick(&[",", ";", "=", ":"]);
                            g.t(c);
                        }
                    } else if g.s.chance(70) {
                        g.literal();
                    } else {
                        g.primary(2);
                    }
                });
                // `#[doc = $text]` in a macro
                if self.cfg.p_wrap > 0 && self.s.chance(self.cfg.p_wrap) {
                    self.mark(r, "expr", false);
                }
                rec("Equals", vec![("tk_equals", E::T(eq)), ("tokens", E::T(r))])
            }
        };
        rec("Inside", vec![("path", E::T(path)), ("value", value)])
    }

    pub fn attributes(&mut self, inner: bool) -> E {
        let mut v = Vec::new();
        if self.budget > 0 && self.s.chance(self.cfg.p_attr) {
            let n = match self.long(Long::Attrs) {
                Some(n) => n,
                None => 1 + self.s.count(12),
            };
            for _ in 0..n {
                v.push(self.attribute(inner));
            }
            self.label(if inner { "inner attributes" } else { "attributes" });
        }
        E::List(v)
    }

    pub fn vis(&mut self) -> E {
        if !self.s.chance(self.cfg.p_vis) {
            return E::None;
        }
        let k = self.s.weighted(&[40, 20, 8, 8, 12, 5]);
        if k == 5 && !self.cfg.strict {
            self.label("legacy `crate` visibility");
            let r = self.t("crate");
            return rec("VisMarker", vec![("tk_token1", E::T(r)), ("tk_token2", E::None)]);
        }
        let p = self.t("pub");
        let g = match k {
            1 | 2 | 3 => {
                self.label("restricted visibility");
                let w = ["crate", "self", "super"][k - 1];
                Some(self.group('(', |g| g.t(w)).0)
            }
            4 => {
                self.label("restricted visibility");
                Some(
                    self.group('(', |g| {
                        g.t("in");
                        let n = 1 + g.s.below(3);
                        for i in 0..n {
                            if i > 0 {
                                g.t("::");
                                if i == 1 && g.s.chance(25) {
                                    g.t("super");
                                } else {
                                    g.ident();
                                }
                            } else {
                                let w = *g.s.pick(&["crate", "self", "super"]);
                                g.t(w);
                            }
                        }
                    })
                    .0,
                )
            }
            _ => None,
        };
        rec("VisMarker", vec![("tk_token1", E::T(p)), ("tk_token2", opt(g))])
    }

    pub fn generics(&mut self) -> E {
        if !self.s.chance(self.cfg.p_generics) {
            return E::None;
        }
        self.generics_list()
    }

    pub fn generics_list(&mut self) -> E {
        self.label("generic params");
        let d = self.cfg.depth.saturating_sub(1);
        let lt = self.t("<");
        let n = self.count(0);
        let mut stage = 0;
        let (items, commas) = self.comma_list(n, |g, _| {
            stage = stage.max(g.s.weighted(&[35, 65]));
            if stage == 0 {
                g.label("lifetime param");
                let l = g.lifetime();
                let bound = if g.s.chance(35) {
                    let c = g.t(":");
                    let b = g.lifetime_bounds();
                    Self::bound_e(c, b)
                } else {
                    E::None
                };
                return rec(
                    "GenericParam",
                    vec![
                        ("tk_prefix", E::T((l.0, l.0 + 1))),
                        ("name", E::T((l.0 + 1, l.1))),
                        ("bound", bound),
                    ],
                );
            }
            if g.s.chance(25) {
                g.label("const param");
                let k = g.t("const");
                let name = g.ident();
                let c = g.t(":");
                let t = g.ty(
                    TyOpt {
                        plus: false,
                        ..TY_ALL
                    },
                    d.min(1),
                );
                let mut bound = Self::bound_e(c, Some(t.r));
                if g.cfg.defaults && g.s.chance(10) {
                    g.label("param default");
                    g.t("=");
                    match g.s.below(3) {
                        0 => {
                            g.literal();
                        }
                        1 => {
                            g.ident();
                        }
                        _ => {
                            g.block(0);
                        }
                    }
                    bound = E::Any;
                }
                return rec(
                    "GenericParam",
                    vec![
                        ("tk_prefix", E::T(k)),
                        ("name", E::T(name)),
                        ("bound", bound),
                    ],
                );
            }
            let name = g.ident();
            let bound = if g.s.chance(45) {
                g.label("bounded param");
                let c = g.t(":");
                let b = g.bounds(d, true);
                if g.cfg.defaults && g.s.chance(6) {
                    g.label("param default");
                    g.t("=");
                    g.ty(TY_ALL, 1);
                    E::Any
                } else {
                    Self::bound_e(c, b)
                }
            } else {
                E::None
            };
            rec(
                "GenericParam",
                vec![
                    ("tk_prefix", E::None),
                    ("name", E::T(name)),
                    ("bound", bound),
                ],
            )
        });
        let gt = self.t(">");
        rec(
            "GenericParamList",
            vec![
                ("tk_l_bracket", E::T(lt)),
                ("params", punctuated(items, commas)),
                ("tk_r_bracket", E::T(gt)),
            ],
        )
    }

    pub fn predicate(&mut self) -> E {
        let d = self.cfg.depth.saturating_sub(1);
        if self.s.chance(15) {
            let l = self.lifetime();
            let c = self.t(":");
            let b = self.lifetime_bounds();
            return rec(
                "WhereClausePredicate",
                vec![("left_side", E::T(l)), ("bound", Self::bound_e(c, b))],
            );
        }
        let left = self.range(|g| {
            if g.s.chance(12) {
                g.for_lifetimes();
            }
            if g.s.chance(50) {
                g.ident();
            } else {
                g.label("where predicate on a complex type");
                g.ty(
                    TyOpt {
                        plus: false,
                        brace_mac: false,
                        top_for: true,
                        start_lt: true,
                    },
                    d,
                );
            }
        });
        let c = self.t(":");
        let b = self.bounds(d, true);
        rec(
            "WhereClausePredicate",
            vec![("left_side", E::T(left)), ("bound", Self::bound_e(c, b))],
        )
    }

    pub fn where_clause(&mut self) -> E {
        if !self.s.chance(self.cfg.p_where) {
            return E::None;
        }
        self.label("where clause");
        let w = self.t("where");
        let n = self.count(0);
        let (items, commas) = self.comma_list(n, |g, _| g.predicate());
        rec(
            "WhereClause",
            vec![("tk_where", E::T(w)), ("items", punctuated(items, commas))],
        )
    }

    // --- items ---

    fn tuple_fields(&mut self, d: u32) -> E {
        let (r, (items, commas)) = self.group('(', |g| {
            let n = g.count(d);
            g.comma_list(n, |g, _| {
                let attributes = g.attributes(false);
                let vis = g.vis();
                let dd = g.cfg.depth;
                let legacy = matches!(&vis, E::Rec(_, f) if {
                    matches!(f[0].1, E::T(r) if r.1 - r.0 == 5)
                });
                let t = if legacy {
                    // `crate ::A` would be a path
                    let r = g.ident();
                    TyInfo { r, pc: PC::Unspec }
                } else {
                    g.ty(TY_ALL, dd)
                };
                rec(
                    "TupleField",
                    vec![
                        ("attributes", attributes),
                        ("vis_marker", vis),
                        ("ty", E::T(t.r)),
                    ],
                )
            })
        });
        E::Grp('(', r, Box::new(punctuated(items, commas)))
    }

    fn named_fields(&mut self, d: u32) -> E {
        let (r, (items, commas)) = self.group('{', |g| {
            let n = g.count(d);
            g.comma_list(n, |g, _| {
                let attributes = g.attributes(false);
                let vis = g.vis();
                let name = g.ident();
                let colon = g.t(":");
                let dd = g.cfg.depth;
                let t = g.ty(TY_ALL, dd);
                rec(
                    "NamedField",
                    vec![
                        ("attributes", attributes),
                        ("vis_marker", vis),
                        ("name", E::T(name)),
                        ("tk_colon", E::T(colon)),
                        ("ty", E::T(t.r)),
                    ],
                )
            })
        });
        E::Grp('{', r, Box::new(punctuated(items, commas)))
    }

    fn struct_item(&mut self, attributes: E) -> E {
        let vis = self.vis();
        let tk = self.t("struct");
        let name = self.ident();
        let generics = self.generics();
        let mut f = vec![
            ("attributes", attributes),
            ("vis_marker", vis),
            ("tk_struct", E::T(tk)),
            ("name", E::T(name)),
            ("generic_params", generics),
        ];
        match self.s.weighted(&[20, 40, 40]) {
            0 => {
                self.label("unit struct");
                let w = self.where_clause();
                f.push(("where_clause", w));
                f.push(("fields", rec("Unit", vec![])));
                f.push(("tk_semicolon", E::T(self.t(";"))));
            }
            1 => {
                self.label("tuple struct");
                let fields = self.tuple_fields(0);
                let w = self.where_clause();
                f.push(("fields", rec("Tuple", vec![("tk_parens", fields)])));
                f.push(("where_clause", w));
                f.push(("tk_semicolon", E::T(self.t(";"))));
            }
            _ => {
                self.label("named struct");
                let w = self.where_clause();
                let fields = self.named_fields(0);
                f.push(("where_clause", w));
                f.push(("fields", rec("Named", vec![("tk_braces", fields)])));
                f.push(("tk_semicolon", E::None));
            }
        }
        rec("Struct", f)
    }

    fn union_item(&mut self, attributes: E) -> E {
        let vis = self.vis();
        let tk = self.t("union");
        let name = self.ident();
        let generics = self.generics();
        let w = self.where_clause();
        let fields = self.named_fields(0);
        rec(
            "Union",
            vec![
                ("attributes", attributes),
                ("vis_marker", vis),
                ("tk_union", E::T(tk)),
                ("name", E::T(name)),
                ("generic_params", generics),
                ("where_clause", w),
                ("fields", fields),
            ],
        )
    }

    /// A single-token discriminant.
    fn simple_discriminant(&mut self) -> R {
        match self.s.weighted(&[50, 20, 20, 10]) {
            0 => self.literal(),
            1 => self.ident(),
            2 => self.group('(', |g| g.expr(2)).0,
            _ => self.group('{', |g| g.expr(2)).0,
        }
    }

    /// A discriminant of several tokens.
    pub fn complex_discriminant(&mut self) -> R {
        let r = self.range(|g| match g.s.below(8) {
            0 => {
                g.t("-");
                g.t("1");
            }
            1 => {
                g.ident();
                g.t("::");
                g.ident();
            }
            2 => {
                g.atom();
                let op = *g.s.pick(&["+", "<<", "*", "|", "<", ">"]);
                g.t(op);
                g.atom();
            }
            3 => {
                g.ident();
                g.group('(', |g| g.atom());
            }
            4 => {
                g.atom();
                g.t("as");
                g.ident();
            }
            5 => {
                g.group('(', |g| g.expr(1));
                g.t("+");
                g.atom();
            }
            6 => {
                g.ident();
                g.t("!");
                g.group('(', |g| g.soup(2));
            }
            _ => {
                g.t("!");
                g.ident();
            }
        });
        self.complex.push(r);
        r
    }

    fn enum_item(&mut self, attributes: E, complex: u32) -> E {
        let vis = self.vis();
        let tk = self.t("enum");
        let name = self.ident();
        let generics = self.generics();
        let w = self.where_clause();
        let (r, (items, commas)) = self.group('{', |g| {
            let n = g.count(0);
            g.comma_list(n, |g, _| {
                let attributes = g.attributes(false);
                let vis = if g.s.chance(20) { g.vis() } else { E::None };
                let name = g.ident();
                let fields = match g.s.weighted(&[40, 30, 30]) {
                    0 => rec("Unit", vec![]),
                    1 => {
                        g.label("tuple variant");
                        let f = g.tuple_fields(1);
                        rec("Tuple", vec![("tk_parens", f)])
                    }
                    _ => {
                        g.label("named variant");
                        let f = g.named_fields(1);
                        rec("Named", vec![("tk_braces", f)])
                    }
                };
                let value = if g.s.chance(g.cfg.p_discr) {
                    let eq = g.t("=");
                    if g.s.chance(complex) {
                        let v = g.complex_discriminant();
                        rec(
                            "EnumVariantValue",
                            vec![("tk_equal", E::T(eq)), ("value", E::T(v))],
                        )
                    } else {
                        g.label("discriminant");
                        let wrap = g.cfg.p_wrap > 0 && g.s.chance(g.cfg.p_wrap);
                        let v = if wrap {
                            let simple = g.cfg.unwrappable;
                            let v = g.range(|g| {
                                if simple {
                                    g.simple_discriminant();
                                } else {
                                    g.expr(2)
                                }
                            });
                            g.mark(v, "expr", true);
                            v
                        } else {
                            g.simple_discriminant()
                        };
                        rec(
                            "EnumVariantValue",
                            vec![("tk_equal", E::T(eq)), ("value", E::T(v))],
                        )
                    }
                } else {
                    E::None
                };
                rec(
                    "EnumVariant",
                    vec![
                        ("attributes", attributes),
                        ("vis_marker", vis),
                        ("name", E::T(name)),
                        ("fields", fields),
                        ("value", value),
                    ],
                )
            })
        });
        rec(
            "Enum",
            vec![
                ("attributes", attributes),
                ("vis_marker", vis),
                ("tk_enum", E::T(tk)),
                ("name", E::T(name)),
                ("generic_params", generics),
                ("where_clause", w),
                ("tk_braces", E::Grp('{', r, Box::new(punctuated(items, commas)))),
            ],
        )
    }

    fn fn_params(&mut self, ctx: Ctx) -> (R, E) {
        let (r, (items, commas)) = self.group('(', |g| {
            let n = g.count(0);
            g.comma_list(n, |g, i| {
                let attributes = g.attributes(false);
                let assoc = matches!(ctx, Ctx::Impl | Ctx::Trait);
                if i == 0 && assoc && g.s.chance(50) {
                    if g.s.chance(25) {
                        g.label("self: Type");
                        let m = if g.s.chance(30) { Some(g.t("mut")) } else { None };
                        let name = g.t("self");
                        let colon = g.t(":");
                        let dd = g.cfg.depth;
                        let t = g.ty(TY_ALL, dd);
                        return rec(
                            "Typed",
                            vec![
                                ("attributes", attributes),
                                ("tk_mut", opt(m)),
                                ("name", E::T(name)),
                                ("tk_colon", E::T(colon)),
                                ("ty", E::T(t.r)),
                            ],
                        );
                    }
                    g.label("receiver");
                    let rf = if g.s.chance(60) { Some(g.t("&")) } else { None };
                    let lt = if rf.is_some() && g.s.chance(40) {
                        g.label("receiver with lifetime");
                        let l = g.lifetime();
                        Self::lifetime_e(l)
                    } else {
                        E::None
                    };
                    let m = if g.s.chance(40) { Some(g.t("mut")) } else { None };
                    let slf = g.t("self");
                    return rec(
                        "Receiver",
                        vec![
                            ("attributes", attributes),
                            ("tk_ref", opt(rf)),
                            ("lifetime", lt),
                            ("tk_mut", opt(m)),
                            ("tk_self", E::T(slf)),
                        ],
                    );
                }
                let m = if g.s.chance(20) { Some(g.t("mut")) } else { None };
                let name = if m.is_none() && g.s.chance(10) {
                    g.t("_")
                } else {
                    g.ident()
                };
                let colon = g.t(":");
                let dd = g.cfg.depth;
                let t = g.ty(TY_ALL, dd);
                rec(
                    "Typed",
                    vec![
                        ("attributes", attributes),
                        ("tk_mut", opt(m)),
                        ("name", E::T(name)),
                        ("tk_colon", E::T(colon)),
                        ("ty", E::T(t.r)),
                    ],
                )
            })
        });
        (r, punctuated(items, commas))
    }

    pub fn function(&mut self, attributes: E, ctx: Ctx) -> E {
        let vis = if ctx == Ctx::Trait && self.cfg.strict {
            E::None
        } else {
            self.vis()
        };
        let mut q: [Option<R>; 6] = [None; 6];
        if ctx != Ctx::Extern && self.s.chance(45) {
            self.label("fn qualifiers");
            if self.s.chance(25) && (ctx == Ctx::Impl || !self.cfg.strict) {
                q[0] = Some(self.t("default"));
            }
            if self.s.chance(40) {
                q[1] = Some(self.t("const"));
            }
            if self.s.chance(30) {
                q[2] = Some(self.t("async"));
            }
            if self.s.chance(40) {
                q[3] = Some(self.t("unsafe"));
            }
            if self.s.chance(40) {
                q[4] = Some(self.t("extern"));
                if self.s.chance(60) {
                    let abi = *self.s.pick(&ABIS);
                    q[5] = Some(self.t(abi));
                }
            }
        }
        let tk_fn = self.t("fn");
        let name = self.ident();
        let generics = self.generics();
        let (pr, params) = self.fn_params(ctx);
        let (arrow, ret) = if self.s.chance(50) {
            self.label("return type");
            let a = self.t("->");
            let d = self.cfg.depth;
            let t = self.ty(TY_SIG, d);
            (Some(a), Some(t.r))
        } else {
            (None, None)
        };
        let w = self.where_clause();
        let has_body = match ctx {
            Ctx::Extern => false,
            Ctx::Trait => self.s.chance(50),
            Ctx::Impl => true,
            // `fn f();` is syntactically valid anywhere
            _ => !self.s.chance(20),
        };
        let (body, semi) = if has_body {
            let r = self.block(2);
            (Some(r), None)
        } else {
            self.label("fn without body");
            (None, Some(self.t(";")))
        };
        rec(
            "Function",
            vec![
                ("attributes", attributes),
                ("vis_marker", vis),
                ("tk_default", opt(q[0])),
                ("tk_const", opt(q[1])),
                ("tk_async", opt(q[2])),
                ("tk_unsafe", opt(q[3])),
                ("tk_extern", opt(q[4])),
                ("extern_abi", opt(q[5])),
                ("tk_fn_keyword", E::T(tk_fn)),
                ("name", E::T(name)),
                ("generic_params", generics),
                ("params", E::Grp('(', pr, Box::new(params))),
                ("tk_return_arrow", opt(arrow)),
                ("return_ty", opt(ret)),
                ("where_clause", w),
                ("body", opt(body)),
                ("tk_semicolon", opt(semi)),
            ],
        )
    }

    pub fn constant(&mut self, attributes: E, ctx: Ctx) -> E {
        let vis = if ctx == Ctx::Trait && self.cfg.strict {
            E::None
        } else {
            self.vis()
        };
        let is_static = match ctx {
            Ctx::Top | Ctx::Mod => self.s.chance(50),
            Ctx::Extern => true,
            _ => false,
        };
        let tk = self.t(if is_static { "static" } else { "const" });
        let m = if is_static && self.s.chance(40) {
            self.label("static mut");
            Some(self.t("mut"))
        } else {
            None
        };
        let name = if !is_static && self.s.chance(15) {
            self.t("_")
        } else {
            self.ident()
        };
        let colon = self.t(":");
        let d = self.cfg.depth;
        let t = self.ty(
            TyOpt {
                plus: true,
                ..TY_ALL
            },
            d,
        );
        let has_value = match ctx {
            Ctx::Extern => false,
            Ctx::Impl => true,
            Ctx::Trait => self.s.chance(50),
            _ => !self.s.chance(12),
        };
        let (eq, value) = if has_value {
            let eq = self.t("=");
            let wrap = self.cfg.p_wrap > 0 && self.s.chance(self.cfg.p_wrap);
            let v = self.range(|g| g.expr(3));
            if wrap {
                self.mark(v, "expr", false);
            }
            (Some(eq), Some(v))
        } else {
            self.label("constant without value");
            (None, None)
        };
        let semi = self.t(";");
        rec(
            "Constant",
            vec![
                ("attributes", attributes),
                ("vis_marker", vis),
                ("tk_const_or_static", E::T(tk)),
                ("tk_mut", opt(m)),
                ("name", E::T(name)),
                ("tk_colon", E::T(colon)),
                ("ty", E::T(t.r)),
                ("tk_equals", opt(eq)),
                ("initializer", opt(value)),
                ("tk_semicolon", E::T(semi)),
            ],
        )
    }

    pub fn type_alias(&mut self, attributes: E, ctx: Ctx) -> E {
        let vis = if ctx == Ctx::Trait && self.cfg.strict {
            E::None
        } else {
            self.vis()
        };
        let tk = self.t("type");
        let name = self.ident();
        let d = self.cfg.depth;
        let bound = if self.s.chance(if ctx == Ctx::Trait { 50 } else { 15 }) {
            self.label("type alias with bound");
            let c = self.t(":");
            let b = self.bounds(d, true);
            Self::bound_e(c, b)
        } else {
            E::None
        };
        let has_init = match ctx {
            Ctx::Trait => self.s.chance(30),
            Ctx::Extern => false,
            _ => !self.s.chance(15),
        };
        let (eq, t) = if has_init {
            let eq = self.t("=");
            let t = self.ty(TY_ALL, d);
            (Some(eq), Some(t.r))
        } else {
            (None, None)
        };
        let semi = self.t(";");
        rec(
            "TypeAlias",
            vec![
                ("attributes", attributes),
                ("vis_marker", vis),
                ("tk_type", E::T(tk)),
                ("name", E::T(name)),
                ("bound", bound),
                ("tk_equals", opt(eq)),
                ("initializer_ty", opt(t)),
                ("tk_semicolon", E::T(semi)),
            ],
        )
    }

    pub fn macro_item(&mut self, attributes: E) -> E {
        let decl = self.s.chance(30);
        let name = if decl {
            self.label("macro_rules");
            self.t("macro_rules")
        } else {
            loop {
                let n = self.name_text();
                if n != "union" && n != "default" {
                    break self.t(&n);
                }
            }
        };
        let bang = self.t("!");
        let declared = if decl || (!self.cfg.strict && self.s.chance(5)) {
            Some(self.ident())
        } else {
            None
        };
        let c = *self.s.pick(&['{', '(', '[']);
        let (r, inner) = self.group(c, |g| {
            g.span(|g| {
                if decl && g.cfg.strict {
                    g.group('(', |_| ());
                    g.t("=>");
                    g.group('{', |_| ());
                    g.t(";");
                } else {
                    g.soup(1)
                }
            })
            .0
        });
        let semi = if c == '{' { None } else { Some(self.t(";")) };
        rec(
            "Macro",
            vec![
                ("attributes", attributes),
                ("name", E::T(name)),
                ("tk_bang", E::T(bang)),
                ("tk_declared_name", opt(declared)),
                (
                    "tk_braces_or_parens",
                    E::Grp(c, r, Box::new(inner.map_or(E::Empty, E::T))),
                ),
                ("tk_semicolon", opt(semi)),
            ],
        )
    }

    fn member(&mut self, ctx: Ctx) -> E {
        let attributes = self.attributes(false);
        match self.s.weighted(&[50, 20, 15, 15]) {
            0 => {
                let f = self.function(attributes, ctx);
                rec("AssocFunction", vec![("it", f)])
            }
            1 => {
                let c = self.constant(attributes, ctx);
                rec("AssocConstant", vec![("it", c)])
            }
            2 => {
                let t = self.type_alias(attributes, ctx);
                rec("AssocType", vec![("it", t)])
            }
            _ => {
                let m = self.macro_item(attributes);
                rec("AssocMacro", vec![("it", m)])
            }
        }
    }

    fn body(&mut self, ctx: Ctx) -> E {
        let (r, b) = self.group('{', |g| {
            let inner = g.attributes(true);
            let (saved, budget) = (g.cfg.clone(), g.budget);
            let n = match g.long(Long::Body) {
                Some(n) => {
                    g.budget = -1;
                    n
                }
                None => g.s.count(8.min(g.cfg.big)).min(if g.budget < 0 { 1 } else { 99 }),
            };
            // members are smaller than items
            g.cfg.big = g.cfg.big.min(6);
            let members = (0..n).map(|_| g.member(ctx)).collect();
            g.cfg = saved;
            if n >= 40 {
                g.budget = budget;
            }
            rec(
                "Body",
                vec![("inner_attributes", inner), ("members", E::List(members))],
            )
        });
        E::Grp('{', r, Box::new(b))
    }

    fn trait_item(&mut self, attributes: E) -> E {
        let vis = self.vis();
        let us = if self.s.chance(25) { Some(self.t("unsafe")) } else { None };
        let tk = self.t("trait");
        let name = self.ident();
        let generics = self.generics();
        let bound = if self.s.chance(40) {
            self.label("supertraits");
            let c = self.t(":");
            let d = self.cfg.depth;
            let b = self.bounds(d, true);
            Self::bound_e(c, b)
        } else {
            E::None
        };
        let w = self.where_clause();
        let body = self.body(Ctx::Trait);
        rec(
            "Trait",
            vec![
                ("attributes", attributes),
                ("vis_marker", vis),
                ("tk_unsafe", opt(us)),
                ("tk_trait", E::T(tk)),
                ("name", E::T(name)),
                ("generic_params", generics),
                ("bound", bound),
                ("where_clause", w),
                ("tk_braces", body),
            ],
        )
    }

    fn impl_item(&mut self, attributes: E) -> E {
        let us = if self.s.chance(25) { Some(self.t("unsafe")) } else { None };
        let tk = self.t("impl");
        let generics = self.generics();
        let d = self.cfg.depth;
        let start_lt = !matches!(generics, E::None);
        let (tr, tk_for, slf) = if self.s.chance(50) {
            self.label("trait impl");
            let wrap = self.cfg.p_wrap > 0 && self.s.chance(self.cfg.p_wrap);
            let t = self.range(|g| {
                if g.s.chance(8) {
                    g.label("negative impl");
                    g.t("!");
                }
                let r = g.range(|g| {
                    g.path(d, true, 0);
                });
                if wrap {
                    g.mark(r, "path", false);
                }
            });
            let f = self.t("for");
            let s = self.ty(
                TyOpt {
                    plus: false,
                    ..TY_SIG
                },
                d,
            );
            (Some(t), Some(f), s.r)
        } else {
            self.label("inherent impl");
            let s = self.ty(
                TyOpt {
                    plus: false,
                    brace_mac: false,
                    top_for: true,
                    start_lt,
                },
                d,
            );
            (None, None, s.r)
        };
        let w = self.where_clause();
        let body = self.body(Ctx::Impl);
        rec(
            "Impl",
            vec![
                ("attributes", attributes),
                ("tk_unsafe", opt(us)),
                ("tk_impl", E::T(tk)),
                ("generic_params", generics),
                ("trait_ty", opt(tr)),
                ("tk_for", opt(tk_for)),
                ("self_ty", E::T(slf)),
                ("where_clause", w),
                ("tk_braces", body),
            ],
        )
    }

    fn extern_block(&mut self, attributes: E) -> E {
        let vis = if self.s.chance(30) { self.vis() } else { E::None };
        let us = if self.s.chance(30) { Some(self.t("unsafe")) } else { None };
        let tk = self.t("extern");
        let abi = if self.s.chance(60) {
            let abi = *self.s.pick(&ABIS);
            Some(self.t(abi))
        } else {
            None
        };
        let body = self.body(Ctx::Extern);
        rec(
            "ExternBlock",
            vec![
                ("attributes", attributes),
                ("vis_marker", vis),
                ("tk_unsafe", opt(us)),
                ("tk_extern", E::T(tk)),
                ("extern_abi", opt(abi)),
                ("tk_braces", body),
            ],
        )
    }

    fn extern_crate(&mut self, attributes: E) -> E {
        let vis = self.vis();
        let e = self.t("extern");
        let c = self.t("crate");
        let slf = self.s.chance(20);
        let name = if slf {
            self.t("self")
        } else {
            self.ident_not_weird()
        };
        let (tk_as, alias) = if slf || self.s.chance(50) {
            let a = self.t("as");
            let n = if self.s.chance(30) {
                self.t("_")
            } else {
                self.ident()
            };
            (Some(a), Some(n))
        } else {
            (None, None)
        };
        let semi = self.t(";");
        rec(
            "ExternCrate",
            vec![
                ("attributes", attributes),
                ("vis_marker", vis),
                ("tk_extern", E::T(e)),
                ("tk_crate", E::T(c)),
                ("name", E::T(name)),
                ("tk_as", opt(tk_as)),
                ("alias", opt(alias)),
                ("tk_semicolon", E::T(semi)),
            ],
        )
    }

    fn use_tree(&mut self, d: u32, top: bool) {
        if top && self.s.chance(10) {
            self.t("::");
        }
        let n = self.s.below(4);
        for i in 0..n {
            if i == 0 && top && self.s.chance(30) {
                let k = *self.s.pick(&["crate", "self", "super"]);
                self.t(k);
            } else {
                self.ident();
            }
            self.t("::");
        }
        match self.s.weighted(&[50, 20, 20, 10]) {
            1 if d > 0 => {
                self.group('{', |g| {
                    let n = g.count(2);
                    for i in 0..n {
                        g.use_tree(d - 1, false);
                        if i + 1 < n || g.s.chance(40) {
                            g.t(",");
                        }
                    }
                });
            }
            2 => {
                self.ident();
                self.t("as");
                if self.s.chance(30) {
                    self.t("_");
                } else {
                    self.ident();
                }
            }
            3 => {
                self.t("*");
            }
            _ => {
                self.ident();
            }
        }
    }

    fn use_item(&mut self, attributes: E) -> E {
        let vis = self.vis();
        let tk = self.t("use");
        let tree = self.range(|g| g.use_tree(3, true));
        let semi = self.t(";");
        rec(
            "UseDeclaration",
            vec![
                ("attributes", attributes),
                ("vis_marker", vis),
                ("tk_use", E::T(tk)),
                ("import_tree", E::T(tree)),
                ("tk_semicolon", E::T(semi)),
            ],
        )
    }

    fn module(&mut self, attributes: E, depth: u32, complex: u32) -> E {
        let vis = self.vis();
        let us = if self.s.chance(15) { Some(self.t("unsafe")) } else { None };
        let tk = self.t("mod");
        let name = self.ident();
        let chain = self.chain > 0;
        self.chain = self.chain.saturating_sub(1);
        let (semi, braces) = if !chain && self.s.chance(15) {
            (Some(self.t(";")), E::None)
        } else {
            let (r, b) = self.group('{', |g| {
                let inner = g.attributes(true);
                if chain {
                    if g.chain == 0 {
                        g.label("modules to depth 5 or more");
                    }
                    let m = g.item_of(Kind::Module, Ctx::Mod, depth + 1, complex);
                    let mut members = vec![m];
                    if g.s.chance(20) {
                        members.push(g.item_in(Ctx::Mod, depth + 1, complex));
                    }
                    return rec(
                        "Body",
                        vec![("inner_attributes", inner), ("members", E::List(members))],
                    );
                }
                let max = if depth == 0 { 8 } else { 3 };
                let (saved, budget) = (g.cfg.clone(), g.budget);
                let n = match g.long(Long::Body) {
                    Some(n) => {
                        g.budget = -1;
                        n
                    }
                    None => g.s.count(max).min(if g.budget < 0 { 1 } else { 99 }),
                };
                g.cfg.big = g.cfg.big.min(6);
                let members = (0..n).map(|_| g.item_in(Ctx::Mod, depth + 1, complex)).collect();
                g.cfg = saved;
                if n >= 40 {
                    g.budget = budget;
                }
                if depth > 0 {
                    g.label("nested module");
                }
                rec(
                    "Body",
                    vec![("inner_attributes", inner), ("members", E::List(members))],
                )
            });
            (None, E::Grp('{', r, Box::new(b)))
        };
        rec(
            "Module",
            vec![
                ("attributes", attributes),
                ("vis_marker", vis),
                ("tk_unsafe", opt(us)),
                ("tk_mod", E::T(tk)),
                ("name", E::T(name)),
                ("tk_semicolon", opt(semi)),
                ("tk_braces", braces),
            ],
        )
    }

    pub fn item_in(&mut self, ctx: Ctx, depth: u32, complex: u32) -> E {
        let mut w = self.cfg.kinds;
        if depth >= 4 || self.budget < 0 {
            w[6] = 0; // no more modules
            if w.iter().all(|x| *x == 0) {
                w[0] = 1;
            }
        }
        let k = ALL_KINDS[self.s.weighted(&w)];
        self.item_of(k, ctx, depth, complex)
    }

    pub fn item_of(&mut self, k: Kind, ctx: Ctx, depth: u32, complex: u32) -> E {
        let attributes = self.attributes(false);
        match k {
            Kind::Struct => self.struct_item(attributes),
            Kind::Enum => self.enum_item(attributes, complex),
            Kind::Union => self.union_item(attributes),
            Kind::Function => self.function(attributes, ctx),
            Kind::Impl => self.impl_item(attributes),
            Kind::Trait => self.trait_item(attributes),
            Kind::Module => self.module(attributes, depth, complex),
            Kind::Constant => self.constant(attributes, ctx),
            Kind::TypeAlias => self.type_alias(attributes, ctx),
            Kind::Use => self.use_item(attributes),
            Kind::Macro => self.macro_item(attributes),
            Kind::ExternBlock => self.extern_block(attributes),
            Kind::ExternCrate => self.extern_crate(attributes),
        }
    }

    pub fn item(&mut self) -> E {
        self.item_in(Ctx::Top, 0, 0)
    }
}
