//! C20: errors.

use super::guard;
use crate::engine::{Obs, Prop};
use crate::gen::{Cfg, G};
use crate::lex;
use crate::tape::Src;
use crate::tok::{show, sp, toks, toks_of, Sp, Tok, TK};
use proc_macro2::{TokenStream, TokenTree};
use venial::Error;

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C20",
        rule: "random histories of 1 to 10 (rarely 300) errors made by new, new_at_span and new_at_tokens (from 0 to many tokens), with messages of arbitrary length and Unicode including quotes, escapes, control characters and text that looks like code, combined in random shapes, cloned on the way; to_compile_error has to be one compile_error! per message, in order, whose literal is that very text and whose tokens cover the given place; span() and Display are those of the first. Non-trivial: two or more messages, or a message with a character that needs escaping.",
        quick: 300_000,
        thorough: 18_000_000,
        run: c20,
    });
}

fn message(s: &mut Src) -> String {
    const PIECES: [&str; 46] = [
        "error: ", "warning: ", "note: ", "help: ", "error[E0308]: ", ".", "...", "!", ":", "  ", "compile_error!", "venial: ",
        "a", "error", " ", "expected `;`", "\"", "\\", "\n", "\r", "\t", "\0", "{", "}", "{}", "{0}",
        "\\n", "\\u{41}", "'", "é", "变", "😀", "\u{202e}", "\u{feff}", "\u{7f}", "\u{1}", "\r\n", "*/",
        "//", "#", "r#\"", "\"#", "%s", "\u{0301}", "\u{e000}", "\\\"",
    ];
    let n = match s.weighted(&[15, 45, 30, 10]) {
        0 => 0,
        1 => 1 + s.below(3),
        2 => 3 + s.below(8),
        _ => 10 + s.below(60),
    };
    let mut m = String::new();
    if s.below(400) == 399 {
        // sizes at which something might be cut off
        let n = s.below(10_000) as usize;
        m.push_str(&s.pick(&["long ", "é", "a\nb", "{}", "\""]).repeat(n));
    }
    for _ in 0..n {
        if s.chance(15) {
            let c = match s.below(4) {
                0 => s.below(0x80),
                1 => s.below(0x800),
                2 => s.below(0x1_0000),
                _ => s.below(0x11_0000),
            };
            m.push(char::from_u32(c).unwrap_or('x'));
        } else {
            m.push_str(s.pick(&PIECES));
        }
    }
    m
}

/// The text of a Rust string literal.
fn unescape(lit: &str) -> Option<String> {
    if let Some(r) = lit.strip_prefix('r') {
        let h = r.chars().take_while(|c| *c == '#').count();
        let r = &r[h..];
        let body = r.strip_prefix('"')?;
        let end = body.len().checked_sub(h + 1)?;
        return Some(body[..end].to_string());
    }
    let body = lit.strip_prefix('"')?.strip_suffix('"')?;
    let mut out = String::new();
    let mut it = body.chars().peekable();
    while let Some(c) = it.next() {
        if c == '"' {
            return None;
        }
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next()? {
            'n' => out.push('\n'),
            'r' => out.push('\r'),
            't' => out.push('\t'),
            '0' => out.push('\0'),
            '\\' => out.push('\\'),
            '\'' => out.push('\''),
            '"' => out.push('"'),
            'x' => {
                let h: String = [it.next()?, it.next()?].iter().collect();
                out.push(char::from(u8::from_str_radix(&h, 16).ok().filter(|v| *v < 0x80)?));
            }
            'u' => {
                if it.next()? != '{' {
                    return None;
                }
                let mut h = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => h.push(c),
                    }
                }
                out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            '\n' => {
                while it.peek().is_some_and(|c| c.is_whitespace()) {
                    it.next();
                }
            }
            _ => return None,
        }
    }
    Some(out)
}

/// (literal text, span of the first token, span of the last token, spans of all tokens) of each invocation.
fn invocations(t: &[Tok]) -> Result<Vec<(String, Sp, Sp, Vec<Sp>)>, String> {
    let bad = || format!("renders as `{}`", show(t));
    let mut out = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let start = t[i].sp;
        // possibly `::core::`
        while let TK::Punct(':', _) = t[i].k {
            i += 1;
            if i >= t.len() {
                return Err(bad());
            }
        }
        match (&t.get(i).map(|t| &t.k), &t.get(i + 1).map(|t| &t.k), &t.get(i + 2).map(|t| &t.k)) {
            (Some(TK::Ident(n)), Some(TK::Punct(':', _)), _) if n == "core" || n == "std" => {
                i += 1;
                continue;
            }
            (Some(TK::Ident(n)), Some(TK::Punct('!', _)), Some(TK::Group(d, inner))) if n == "compile_error" => {
                let (lit, at) = match &inner[..] {
                    [Tok { k: TK::Lit(l), sp, .. }] => (l.clone(), *sp),
                    _ => return Err(bad()),
                };
                let all = vec![t[i].sp, t[i + 1].sp, t[i + 2].sp, at];
                let end = t[i + 2].sp;
                i += 3;
                if *d != '{' {
                    match t.get(i).map(|t| &t.k) {
                        Some(TK::Punct(';', _)) => i += 1,
                        _ => return Err(bad()),
                    }
                }
                let text = unescape(&lit).ok_or_else(|| format!("the literal is {lit}"))?;
                out.push((text, start, end, all));
            }
            _ => return Err(bad()),
        }
    }
    Ok(out)
}

struct Want {
    msg: String,
    span: Sp,
    first: Sp,
    last: Sp,
}

impl Clone for Want {
    fn clone(&self) -> Self {
        Want {
            msg: self.msg.clone(),
            ..*self
        }
    }
}

fn one(s: &mut Src, pool: &[TokenTree]) -> (Error, Want) {
    let msg = message(s);
    match s.below(3) {
        0 => (
            Error::new(&msg),
            Want {
                msg,
                span: (0, 0),
                first: (0, 0),
                last: (0, 0),
            },
        ),
        1 if !pool.is_empty() => {
            let t = s.pick(pool).clone();
            let x = sp(t.span());
            (
                Error::new_at_span(t.span(), msg.clone()),
                Want {
                    msg,
                    span: x,
                    first: x,
                    last: x,
                },
            )
        }
        _ => {
            let n = pool.len() as u32;
            let a = s.below(n + 1) as usize;
            let b = (a + s.below(n + 1) as usize).min(pool.len());
            let part: TokenStream = pool[a..b].iter().cloned().collect();
            let (first, last, span) = if a < b {
                let (x, y) = (sp(pool[a].span()), sp(pool[b - 1].span()));
                (x, y, (x.0, y.1))
            } else {
                ((0, 0), (0, 0), (0, 0))
            };
            (
                Error::new_at_tokens(&part, format_args!("{msg}")),
                Want {
                    msg,
                    span,
                    first,
                    last,
                },
            )
        }
    }
}

fn agrees(e: &Error, w: &[Want]) -> Result<(), String> {
    let t = toks(e.to_compile_error());
    let got = invocations(&t)?;
    if got.len() != w.len() {
        return Err(format!("{} messages render as {} invocations", w.len(), got.len()));
    }
    for (i, ((text, start, end, _), w)) in got.iter().zip(w).enumerate() {
        if *text != w.msg {
            return Err(format!("message {i} is {:?}, but renders as {text:?}", w.msg));
        }
        if start.0 != w.first.0 || end.1 != w.last.1 {
            return Err(format!(
                "message {i} is at {:?} to {:?}, but its invocation is at {start:?} to {end:?}",
                w.first, w.last
            ));
        }
    }
    for (i, ((_, _, _, all), w)) in got.iter().zip(w).enumerate() {
        if let Some(x) = all.iter().find(|x| x.0 < w.first.0 || x.1 > w.last.1) {
            return Err(format!(
                "message {i} is at {:?} to {:?}, but a token of its invocation is at {x:?}",
                w.first, w.last
            ));
        }
    }
    if sp(e.span()) != w[0].span {
        return Err(format!("span() is {:?} instead of {:?}", sp(e.span()), w[0].span));
    }
    if e.to_string() != w[0].msg {
        return Err(format!("Display gives {:?} instead of {:?}", e.to_string(), w[0].msg));
    }
    let d = format!("{e:?}");
    for w in w {
        if !d.contains(&format!("{:?}", w.msg)) {
            return Err(format!("Debug gives {d}, without {:?}", w.msg));
        }
    }
    Ok(())
}

fn c20(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let cfg = Cfg {
        big: 3,
        depth: 2,
        ..Cfg::default()
    };
    let mut g = G::new(s, cfg);
    g.soup(1);
    let text = std::mem::take(&mut g.out);
    let pool: Vec<TokenTree> = lex::lex(&text).into_iter().collect();
    let _ = toks_of(&pool);
    let mut stack: Vec<(Error, Vec<Want>)> = Vec::new();
    let n = 1 + if s.below(200) == 199 { s.below(300) } else { s.below(10) };
    for _ in 0..n {
        let (e, w) = one(s, &pool);
        o.text.push_str(&format!("{:?} at {:?}; ", w.msg, w.span));
        agrees(&e, std::slice::from_ref(&w))?;
        stack.push((e, vec![w]));
        while stack.len() >= 2 && s.chance(60) {
            let (b, wb) = stack.pop().unwrap();
            let (mut a, wa) = stack.pop().unwrap();
            let before = a.clone();
            a.combine(b.clone());
            o.text.push_str("combine; ");
            let mut w = wa.clone();
            w.extend(wb.clone());
            agrees(&a, &w)?;
            // the others stay what they were
            agrees(&b, &wb)?;
            agrees(&before, &wa)?;
            stack.push((a, w));
        }
    }
    let mut it = stack.into_iter();
    let (mut e, mut w) = it.next().unwrap();
    for (b, wb) in it {
        e.combine(b);
        w.extend(wb);
    }
    agrees(&e, &w)?;
    // very many messages
    if s.below(400) == 399 && w.iter().map(|w| w.msg.len() + 1).sum::<usize>() < 2000 {
        o.label("an error combined with itself");
        while w.len() < 1500 {
            let (b, wb) = (e.clone(), w.clone());
            e.combine(b);
            w.extend(wb);
            o.text.push_str("combine with itself; ");
        }
        agrees(&e, &w)?;
    }
    o.nontrivial = w.len() >= 2 || w[0].msg.contains(|c: char| c == '"' || c == '\\' || c.is_control());
    if w.len() >= 2 {
        o.label("combined");
    }
    // the rendering is valid in item position
    let mut iter = e.to_compile_error().into_iter().peekable();
    for i in 0..w.len() {
        match guard(|| venial::consume_item(&mut iter)) {
            Ok(Ok(venial::Item::Macro(m))) if m.name == "compile_error" => (),
            _ => return Err(format!("rendered message {i} isn't a macro item")),
        }
    }
    if iter.peek().is_some() {
        return Err("more items than messages".into());
    }
    Ok(())
}
