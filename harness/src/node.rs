//! Trees that say which tokens are in which part of a parsed item.
//!
//! `E` is what the generator expects: leaves are ranges of the source text.
//! `Node` is the same with leaves resolved to tokens; `dump.rs` builds one from venial's types.
//! The children of a `Rec` are in the order in which Rust syntax writes them.

use crate::tok::{norm, show, show_spanned, Norm, Sp, Tok, TK};

pub type R = (usize, usize);

#[derive(Clone, Debug)]
pub enum E {
    Rec(&'static str, Vec<(&'static str, E)>),
    List(Vec<E>),
    Grp(char, R, Box<E>),
    /// All tokens inside of the range.
    T(R),
    /// The tokens inside of the group with that range.
    Within(R),
    /// No token.
    Empty,
    /// The part doesn't exist.
    None,
    /// Unspecified.
    Any,
    /// Attribute written as a doc comment; true if inner.
    Doc(R, bool),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Rec(&'static str, Vec<(&'static str, Node)>),
    List(Vec<Node>),
    Grp(char, Sp, Box<Node>),
    T(Vec<Tok>),
    None,
    Any,
}

pub fn rec(name: &'static str, fields: Vec<(&'static str, E)>) -> E {
    E::Rec(name, fields)
}

pub fn opt(r: Option<R>) -> E {
    match r {
        Some(r) => E::T(r),
        None => E::None,
    }
}

/// A comma-separated list.
pub fn punctuated(items: Vec<E>, commas: Vec<R>) -> E {
    E::Rec(
        "Punctuated",
        vec![
            ("items", E::List(items)),
            ("commas", E::List(commas.into_iter().map(E::T).collect())),
        ],
    )
}

/// Tokens that lie inside of `r`.
pub fn tokens_in(ts: &[Tok], r: R) -> Vec<Tok> {
    let mut out = Vec::new();
    for t in ts {
        if t.sp.0 >= r.0 && t.sp.1 <= r.1 {
            out.push(t.clone());
        } else if t.sp.0 < r.1 && t.sp.1 > r.0 {
            if let TK::Group(_, inner) = &t.k {
                return tokens_in(inner, r);
            }
            panic!(
                "harness: range {:?} cuts token {}",
                r,
                show_spanned(std::slice::from_ref(t))
            );
        }
    }
    out
}

/// Resolve expected leaves to the tokens of the stream that is parsed.
pub fn resolve(e: &E, ts: &[Tok]) -> Node {
    match e {
        E::Rec(n, f) => Node::Rec(n, f.iter().map(|(k, v)| (*k, resolve(v, ts))).collect()),
        E::List(l) => Node::List(l.iter().map(|v| resolve(v, ts)).collect()),
        E::Grp(d, r, inner) => Node::Grp(*d, *r, Box::new(resolve(inner, ts))),
        E::T(r) => {
            let t = tokens_in(ts, *r);
            if t.is_empty() {
                std::panic::panic_any(crate::HarnessBug(format!("no token in range {r:?}")));
            }
            Node::T(t)
        }
        E::Within(r) => match tokens_in(ts, *r).as_slice() {
            [Tok { k: TK::Group(_, inner), .. }] => Node::T(inner.clone()),
            t => std::panic::panic_any(crate::HarnessBug(format!("no group in range {r:?}: {}", show(t)))),
        },
        E::Empty => Node::T(vec![]),
        E::None => Node::None,
        E::Any => Node::Any,
        E::Doc(r, inner) => {
            let t = tokens_in(ts, *r);
            let n = if *inner { 3 } else { 2 };
            if t.len() != n {
                std::panic::panic_any(crate::HarnessBug(format!("doc comment: {}", show(&t))));
            }
            let g = &t[n - 1];
            let content = match &g.k {
                TK::Group('[', c) if c.len() == 3 => c.clone(),
                _ => std::panic::panic_any(crate::HarnessBug(format!("doc comment: {}", show(&t)))),
            };
            Node::Rec(
                "Attribute",
                vec![
                    ("tk_hash", Node::T(vec![t[0].clone()])),
                    (
                        "tk_bang",
                        if *inner {
                            Node::T(vec![t[1].clone()])
                        } else {
                            Node::None
                        },
                    ),
                    (
                        "tk_brackets",
                        Node::Grp(
                            '[',
                            g.sp,
                            Box::new(Node::Rec(
                                "Inside",
                                vec![
                                    ("path", Node::T(vec![content[0].clone()])),
                                    (
                                        "value",
                                        Node::Rec(
                                            "Equals",
                                            vec![
                                                ("tk_equals", Node::T(vec![content[1].clone()])),
                                                ("tokens", Node::T(vec![content[2].clone()])),
                                            ],
                                        ),
                                    ),
                                ],
                            )),
                        ),
                    ),
                ],
            )
        }
    }
}

/// None if `got` is what is expected; otherwise where they differ.
pub fn compare(exp: &Node, got: &Node, m: Norm) -> Option<String> {
    let mut path = String::new();
    cmp(exp, got, m, &mut path)
}

fn cmp(e: &Node, g: &Node, m: Norm, path: &mut String) -> Option<String> {
    match (e, g) {
        (Node::Any, _) | (_, Node::Any) => None,
        (Node::None, Node::None) => None,
        (Node::T(a), Node::T(b)) => {
            let (na, nb) = (norm(a, m), norm(b, m));
            if na == nb {
                None
            } else if show(&na) == show(&nb) || m.spans && same_text(&na, &nb) {
                Some(format!(
                    "{path}: expected tokens `{}`, got `{}`",
                    show_spanned(&na),
                    show_spanned(&nb)
                ))
            } else {
                Some(format!(
                    "{path}: expected tokens `{}`, got `{}`",
                    show(&na),
                    show(&nb)
                ))
            }
        }
        (Node::List(a), Node::List(b)) => {
            if a.len() != b.len() {
                return Some(format!(
                    "{path}: expected {} entries {}, got {} entries {}",
                    a.len(),
                    brief(e),
                    b.len(),
                    brief(g)
                ));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                let l = path.len();
                path.push_str(&format!("[{i}]"));
                if let Some(d) = cmp(x, y, m, path) {
                    return Some(d);
                }
                path.truncate(l);
            }
            None
        }
        (Node::Grp(d1, s1, a), Node::Grp(d2, s2, b)) => {
            if d1 != d2 {
                return Some(format!("{path}: expected delimiter `{d1}`, got `{d2}`"));
            }
            if m.spans && s1 != s2 {
                return Some(format!("{path}: expected group span {s1:?}, got {s2:?}"));
            }
            cmp(a, b, m, path)
        }
        (Node::Rec(n1, a), Node::Rec(n2, b)) => {
            if n1 != n2 {
                return Some(format!("{path}: expected {n1}, got {n2} {}", brief(g)));
            }
            assert_eq!(a.len(), b.len(), "harness: fields of {n1}");
            for ((k1, x), (k2, y)) in a.iter().zip(b) {
                assert_eq!(k1, k2, "harness: fields of {n1}");
                let l = path.len();
                path.push('.');
                path.push_str(k1);
                if let Some(d) = cmp(x, y, m, path) {
                    return Some(d);
                }
                path.truncate(l);
            }
            None
        }
        (e, g) => Some(format!("{path}: expected {}, got {}", brief(e), brief(g))),
    }
}

fn same_text(a: &[Tok], b: &[Tok]) -> bool {
    norm(a, crate::tok::CONTENT) == norm(b, crate::tok::CONTENT)
}

pub fn brief(n: &Node) -> String {
    match n {
        Node::None => "nothing".into(),
        Node::Any => "anything".into(),
        n => {
            let name = match n {
                Node::Rec(k, _) => k,
                Node::List(_) => "list",
                Node::Grp(..) => "group",
                _ => "tokens",
            };
            format!("{name} `{}`", show(&print(n)))
        }
    }
}

/// The reference printer: all tokens of the tree, in source order.
pub fn print(n: &Node) -> Vec<Tok> {
    let mut out = Vec::new();
    print_into(n, &mut out);
    out
}

fn print_into(n: &Node, out: &mut Vec<Tok>) {
    match n {
        Node::Rec("Punctuated", f) => {
            let (items, commas) = match (&f[0].1, &f[1].1) {
                (Node::List(a), Node::List(b)) => (a, b),
                _ => unreachable!(),
            };
            for (i, item) in items.iter().enumerate() {
                print_into(item, out);
                if let Some(c) = commas.get(i) {
                    print_into(c, out);
                }
            }
        }
        Node::Rec(_, f) => f.iter().for_each(|(_, v)| print_into(v, out)),
        Node::List(l) => l.iter().for_each(|v| print_into(v, out)),
        Node::Grp(d, s, inner) => {
            let mut t = Vec::new();
            print_into(inner, &mut t);
            out.push(Tok {
                k: TK::Group(*d, t),
                sp: *s,
                open: (0, 0),
                close: (0, 0),
            });
        }
        Node::T(t) => out.extend(t.iter().cloned()),
        Node::None | Node::Any => (),
    }
}

impl Node {
    pub fn kind(&self) -> &'static str {
        match self {
            Node::Rec(n, _) => n,
            _ => "",
        }
    }

    pub fn get(&self, field: &str) -> Option<&Node> {
        match self {
            Node::Rec(_, f) => f.iter().find(|(k, _)| *k == field).map(|(_, v)| v),
            Node::Grp(_, _, inner) => inner.get(field),
            _ => None,
        }
    }

    /// Follow a path of field names (through groups).
    pub fn at(&self, path: &[&str]) -> Option<&Node> {
        let mut n = self;
        for p in path {
            n = n.get(p)?;
        }
        Some(n)
    }

    pub fn list(&self) -> &[Node] {
        match self {
            Node::List(l) => l,
            Node::Rec("Punctuated", f) => f[0].1.list(),
            Node::Grp(_, _, inner) => inner.list(),
            _ => &[],
        }
    }

    pub fn toks(&self) -> Vec<Tok> {
        print(self)
    }

    pub fn text(&self) -> String {
        show(&print(self))
    }

    pub fn is_none(&self) -> bool {
        matches!(self, Node::None)
    }

    /// Apply `f` to every node, top-down.
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        match self {
            Node::Rec(_, fs) => fs.iter().for_each(|(_, v)| v.walk(f)),
            Node::List(l) => l.iter().for_each(|v| v.walk(f)),
            Node::Grp(_, _, inner) => inner.walk(f),
            _ => (),
        }
    }

    /// Replace the named fields by `Any`, everywhere.
    pub fn mask(&self, fields: &[&str]) -> Node {
        match self {
            Node::Rec(k, f) => Node::Rec(
                k,
                f.iter()
                    .map(|(k, v)| {
                        if fields.contains(k) {
                            (*k, Node::Any)
                        } else {
                            (*k, v.mask(fields))
                        }
                    })
                    .collect(),
            ),
            Node::List(l) => Node::List(l.iter().map(|v| v.mask(fields)).collect()),
            Node::Grp(d, s, i) => Node::Grp(*d, *s, Box::new(i.mask(fields))),
            n => n.clone(),
        }
    }
}
