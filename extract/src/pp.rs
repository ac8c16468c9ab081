//! Token printer: one statement per line, so that verifier messages point at statements.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream, texts: &[String]) -> String {
    let mut out = String::new();
    go(ts, texts, &mut out, 1, false);
    out
}

fn nl(out: &mut String, ind: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    if !out.ends_with('\n') {
        out.push('\n');
    }
    for _ in 0..ind {
        out.push_str("    ");
    }
}

fn go(ts: TokenStream, texts: &[String], out: &mut String, ind: usize, in_brace: bool) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(id)
                if (id == "__vtext" || id == "__vexpr" || id == "__vspec") && i + 2 < v.len() =>
            {
                let n: usize = match &v[i + 2] {
                    TokenTree::Group(g) => g.stream().to_string().trim().parse().unwrap(),
                    _ => panic!(),
                };
                let mut sub = String::new();
                for line in texts[n].lines() {
                    if id == "__vexpr" {
                        sub.push_str(line);
                        sub.push('\n');
                    } else {
                        nl(&mut sub, ind);
                        sub.push_str(line);
                    }
                }
                out.push_str(&sub);
                if id != "__vexpr" {
                    nl(out, ind);
                    // swallow a following semicolon
                    if let Some(TokenTree::Punct(p)) = v.get(i + 3) {
                        if p.as_char() == ';' {
                            i += 1;
                        }
                    }
                }
                i += 3;
                continue;
            }
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut rest = g.stream();
                    if inner.len() >= 4 {
                        if let TokenTree::Ident(id) = &inner[0] {
                            if id == "__vspec" {
                                let n: usize = match &inner[2] {
                                    TokenTree::Group(g) => {
                                        g.stream().to_string().trim().parse().unwrap()
                                    }
                                    _ => panic!(),
                                };
                                for line in texts[n].lines() {
                                    nl(out, ind + 1);
                                    out.push_str(line);
                                }
                                nl(out, ind);
                                rest = inner[4..].iter().cloned().collect();
                            }
                        }
                    }
                    out.push_str(o);
                    nl(out, ind + 1);
                    go(rest, texts, out, ind + 1, true);
                    nl(out, ind);
                    out.push_str(c);
                    out.push(' ');
                    // statements after a block start on a new line
                    match v.get(i + 1) {
                        Some(TokenTree::Punct(p)) if ".,;?=&|".contains(p.as_char()) => {}
                        Some(TokenTree::Ident(id)) if id == "else" => {}
                        Some(_) if in_brace => nl(out, ind),
                        _ => {}
                    }
                } else {
                    // calls and indexing bind tightly
                    if o == "(" || o == "[" {
                        if let Some(TokenTree::Ident(id)) = i.checked_sub(1).map(|j| &v[j]) {
                            let kw = ["in", "if", "match", "while", "return", "let", "mut", "else", "for", "as"];
                            if !kw.contains(&id.to_string().as_str()) {
                                while out.ends_with(' ') {
                                    out.pop();
                                }
                            }
                        }
                    }
                    out.push_str(o);
                    go(g.stream(), texts, out, ind, false);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(c);
                    out.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                let ch = p.as_char();
                if matches!(ch, '.' | ',' | ';' | '?') && p.spacing() == Spacing::Alone
                    || ch == '.'
                {
                    while out.ends_with(' ') {
                        out.pop();
                    }
                }
                out.push(ch);
                if p.spacing() == Spacing::Alone && ch != '.' {
                    out.push(' ');
                }
                if ch == ';' || (ch == ',' && in_brace) {
                    if i + 1 < v.len() {
                        nl(out, ind);
                    }
                }
            }
            TokenTree::Ident(id) => {
                out.push_str(&id.to_string());
                out.push(' ');
            }
            TokenTree::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
            }
        }
        i += 1;
    }
}
