//! An owned token model: what a token is, and where in the source it lies.

use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, Span, TokenStream, TokenTree};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TK {
    Ident(String),
    /// char, joint
    Punct(char, bool),
    Lit(String),
    Group(char, Vec<Tok>),
}

pub type Sp = (usize, usize);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub k: TK,
    pub sp: Sp,
    /// Spans of the delimiters of a group.
    pub open: Sp,
    pub close: Sp,
}

pub fn sp(s: Span) -> Sp {
    let r = s.byte_range();
    (r.start, r.end)
}

pub fn delim_char(d: Delimiter) -> char {
    match d {
        Delimiter::Parenthesis => '(',
        Delimiter::Brace => '{',
        Delimiter::Bracket => '[',
        Delimiter::None => 'N',
    }
}

pub fn tok(tt: &TokenTree) -> Tok {
    match tt {
        TokenTree::Ident(i) => Tok {
            k: TK::Ident(i.to_string()),
            sp: sp(i.span()),
            open: (0, 0),
            close: (0, 0),
        },
        TokenTree::Punct(p) => Tok {
            k: TK::Punct(p.as_char(), p.spacing() == Spacing::Joint),
            sp: sp(p.span()),
            open: (0, 0),
            close: (0, 0),
        },
        TokenTree::Literal(l) => Tok {
            k: TK::Lit(l.to_string()),
            sp: sp(l.span()),
            open: (0, 0),
            close: (0, 0),
        },
        TokenTree::Group(g) => Tok {
            k: TK::Group(delim_char(g.delimiter()), toks(g.stream())),
            sp: sp(g.span()),
            open: sp(g.span_open()),
            close: sp(g.span_close()),
        },
    }
}

pub fn toks(ts: TokenStream) -> Vec<Tok> {
    ts.into_iter().map(|tt| tok(&tt)).collect()
}

pub fn toks_of(tts: &[TokenTree]) -> Vec<Tok> {
    tts.iter().map(tok).collect()
}

pub fn ident_tok(i: &Ident) -> Tok {
    tok(&TokenTree::Ident(i.clone()))
}

pub fn punct_tok(p: &Punct) -> Tok {
    tok(&TokenTree::Punct(p.clone()))
}

pub fn group_tok(g: &Group) -> Tok {
    tok(&TokenTree::Group(g.clone()))
}

#[derive(Clone, Copy)]
pub struct Norm {
    pub spans: bool,
    pub spacing: bool,
    /// Keep invisible groups (otherwise they are replaced by their content).
    pub none_groups: bool,
}

pub const EXACT: Norm = Norm {
    spans: true,
    spacing: true,
    none_groups: true,
};
/// Token content with spacing and delimiters, wherever it came from.
pub const CONTENT: Norm = Norm {
    spans: false,
    spacing: true,
    none_groups: true,
};
pub const LOOSE: Norm = Norm {
    spans: false,
    spacing: false,
    none_groups: true,
};
pub const FLAT: Norm = Norm {
    spans: false,
    spacing: false,
    none_groups: false,
};

pub fn norm(ts: &[Tok], n: Norm) -> Vec<Tok> {
    let mut out = Vec::with_capacity(ts.len());
    for t in ts {
        let z = (0, 0);
        let k = match &t.k {
            TK::Punct(c, j) => TK::Punct(*c, *j && n.spacing),
            TK::Group('N', inner) if !n.none_groups => {
                out.extend(norm(inner, n));
                continue;
            }
            TK::Group(d, inner) => TK::Group(*d, norm(inner, n)),
            k => k.clone(),
        };
        out.push(if n.spans {
            Tok {
                k,
                sp: t.sp,
                open: t.open,
                close: t.close,
            }
        } else {
            Tok {
                k,
                sp: z,
                open: z,
                close: z,
            }
        });
    }
    out
}

pub fn same(a: &[Tok], b: &[Tok], n: Norm) -> bool {
    if n.spans && n.spacing && n.none_groups {
        return a == b;
    }
    norm(a, n) == norm(b, n)
}

/// Human-readable rendering. Invisible groups are shown as ⟦ ⟧.
pub fn show(ts: &[Tok]) -> String {
    let mut s = String::new();
    show_into(ts, &mut s);
    s
}

fn show_into(ts: &[Tok], s: &mut String) {
    let mut glue = true;
    for t in ts {
        if !glue {
            s.push(' ');
        }
        glue = false;
        match &t.k {
            TK::Ident(i) => s.push_str(i),
            TK::Punct(c, j) => {
                s.push(*c);
                glue = *j;
            }
            TK::Lit(l) => s.push_str(l),
            TK::Group(d, inner) => {
                let (o, c) = match d {
                    '(' => ('(', ')'),
                    '{' => ('{', '}'),
                    '[' => ('[', ']'),
                    _ => ('⟦', '⟧'),
                };
                s.push(o);
                show_into(inner, s);
                s.push(c);
            }
        }
    }
}

pub fn show_spanned(ts: &[Tok]) -> String {
    let mut s = String::new();
    for t in ts {
        match &t.k {
            TK::Group(d, inner) => {
                s.push_str(&format!(
                    "{}@{}..{}<{:?}{:?}>[{}] ",
                    d,
                    t.sp.0,
                    t.sp.1,
                    t.open,
                    t.close,
                    show_spanned(inner)
                ));
            }
            k => {
                let txt = match k {
                    TK::Ident(i) => i.clone(),
                    TK::Punct(c, j) => format!("{}{}", c, if *j { "+" } else { "" }),
                    TK::Lit(l) => l.clone(),
                    _ => unreachable!(),
                };
                s.push_str(&format!("{}@{}..{} ", txt, t.sp.0, t.sp.1));
            }
        }
    }
    s
}

/// Where two token lists first differ, for messages.
pub fn first_diff(exp: &[Tok], got: &[Tok], n: Norm) -> String {
    let e = norm(exp, n);
    let g = norm(got, n);
    diff_rec(&e, &g, n)
}

fn diff_rec(e: &[Tok], g: &[Tok], n: Norm) -> String {
    for i in 0..e.len().max(g.len()) {
        match (e.get(i), g.get(i)) {
            (Some(a), Some(b)) if a == b => continue,
            (Some(a), Some(b)) => {
                if let (TK::Group(d1, x), TK::Group(d2, y)) = (&a.k, &b.k) {
                    if d1 == d2 && a.sp == b.sp && a.open == b.open && a.close == b.close {
                        return diff_rec(x, y, n);
                    }
                }
                let (sa, sb) = (std::slice::from_ref(a), std::slice::from_ref(b));
                return if n.spans {
                    format!(
                        "token {i}: expected `{}`, got `{}`",
                        show_spanned(sa),
                        show_spanned(sb)
                    )
                } else {
                    format!("token {i}: expected `{}` ({:?}), got `{}` ({:?})", show(sa), kind(a), show(sb), kind(b))
                };
            }
            (Some(a), None) => {
                return format!("token {i}: `{}` is missing", show(std::slice::from_ref(a)))
            }
            (None, Some(b)) => {
                return format!("token {i}: extra `{}`", show(std::slice::from_ref(b)))
            }
            (None, None) => unreachable!(),
        }
    }
    "no difference".into()
}

fn kind(t: &Tok) -> &'static str {
    match &t.k {
        TK::Ident(_) => "ident",
        TK::Punct(_, true) => "joint punct",
        TK::Punct(_, false) => "alone punct",
        TK::Lit(_) => "literal",
        TK::Group(..) => "group",
    }
}

pub fn count(ts: &[Tok]) -> usize {
    ts.iter()
        .map(|t| match &t.k {
            TK::Group(_, inner) => 1 + count(inner),
            _ => 1,
        })
        .sum()
}
