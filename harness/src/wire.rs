//! Trees as text, to get them out of a compiler process.

use crate::node::Node;
use crate::tok::{Tok, TK};
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

fn string(s: &str, out: &mut String) {
    out.push_str(&format!("{}:{s}", s.len()));
}

pub fn write(n: &Node, out: &mut String) {
    match n {
        Node::Rec(name, f) => {
            out.push('R');
            string(name, out);
            out.push_str(&format!("{}:", f.len()));
            for (k, v) in f {
                string(k, out);
                write(v, out);
            }
        }
        Node::List(l) => {
            out.push_str(&format!("L{}:", l.len()));
            l.iter().for_each(|v| write(v, out));
        }
        Node::Grp(d, _, inner) => {
            out.push('G');
            out.push(*d);
            write(inner, out);
        }
        Node::T(t) => {
            out.push('T');
            tokens(t, out);
        }
        Node::None => out.push('N'),
        Node::Any => out.push('A'),
    }
}

fn tokens(ts: &[Tok], out: &mut String) {
    out.push_str(&format!("{}:", ts.len()));
    for t in ts {
        match &t.k {
            TK::Ident(s) => {
                out.push('i');
                string(s, out);
            }
            TK::Lit(s) => {
                out.push('l');
                string(s, out);
            }
            TK::Punct(c, j) => {
                out.push('p');
                out.push(*c);
                out.push(if *j { '+' } else { '-' });
            }
            TK::Group(d, inner) => {
                out.push('g');
                out.push(*d);
                tokens(inner, out);
            }
        }
    }
}

pub struct Reader<'a>(pub &'a str);

fn intern(s: &str) -> &'static str {
    static ALL: OnceLock<Mutex<HashMap<String, &'static str>>> = OnceLock::new();
    let mut all = ALL.get_or_init(Default::default).lock().unwrap();
    if let Some(x) = all.get(s) {
        return x;
    }
    let x: &'static str = Box::leak(s.to_string().into_boxed_str());
    all.insert(s.to_string(), x);
    x
}

impl<'a> Reader<'a> {
    fn ch(&mut self) -> Option<char> {
        let c = self.0.chars().next()?;
        self.0 = &self.0[c.len_utf8()..];
        Some(c)
    }
    fn num(&mut self) -> Option<usize> {
        let (n, rest) = self.0.split_once(':')?;
        self.0 = rest;
        n.parse().ok()
    }
    fn string(&mut self) -> Option<&'a str> {
        let n = self.num()?;
        let s = self.0.get(..n)?;
        self.0 = &self.0[n..];
        Some(s)
    }
    pub fn node(&mut self) -> Option<Node> {
        Some(match self.ch()? {
            'R' => {
                let name = intern(self.string()?);
                let n = self.num()?;
                let mut f = Vec::new();
                for _ in 0..n {
                    let k = intern(self.string()?);
                    f.push((k, self.node()?));
                }
                Node::Rec(name, f)
            }
            'L' => {
                let n = self.num()?;
                let mut l = Vec::new();
                for _ in 0..n {
                    l.push(self.node()?);
                }
                Node::List(l)
            }
            'G' => {
                let d = self.ch()?;
                Node::Grp(d, (0, 0), Box::new(self.node()?))
            }
            'T' => Node::T(self.tokens()?),
            'N' => Node::None,
            'A' => Node::Any,
            _ => return None,
        })
    }
    fn tokens(&mut self) -> Option<Vec<Tok>> {
        let n = self.num()?;
        let mut v = Vec::new();
        for _ in 0..n {
            let k = match self.ch()? {
                'i' => TK::Ident(self.string()?.to_string()),
                'l' => TK::Lit(self.string()?.to_string()),
                'p' => TK::Punct(self.ch()?, self.ch()? == '+'),
                'g' => TK::Group(self.ch()?, self.tokens()?),
                _ => return None,
            };
            v.push(Tok { k, sp: (0, 0), open: (0, 0), close: (0, 0) });
        }
        Some(v)
    }
}
