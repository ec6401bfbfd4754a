use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// One line, normal spacing.
pub fn flat(ts: TokenStream) -> String {
    let mut s = String::new();
    walk(ts, &mut s, 0, false);
    s.trim().to_string()
}

/// Line breaks after `;`, `{` and `}` outside parentheses.
pub fn pretty(ts: TokenStream) -> String {
    let mut s = String::new();
    walk(ts, &mut s, 0, true);
    s.trim().to_string()
}

fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    if !s.ends_with('\n') {
        s.push('\n');
    }
    for _ in 0..ind {
        s.push_str("    ");
    }
}

fn walk(ts: TokenStream, s: &mut String, ind: usize, br: bool) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut nospace = false;
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Ident(id) => {
                s.push_str(&id.to_string());
                s.push(' ');
                nospace = false;
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
                nospace = false;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if matches!(c, '.' | ',' | ';' | ':' | '?') && !nospace && s.ends_with(' ') && !(c == ':' && p.spacing() == Spacing::Joint) {
                    s.pop();
                }
                if c == '!' && s.ends_with(' ') && i + 1 < v.len() && matches!(v[i + 1], TokenTree::Group(_)) && i > 0 && matches!(v[i - 1], TokenTree::Ident(_)) {
                    s.pop();
                }
                s.push(c);
                nospace = p.spacing() == Spacing::Joint;
                let tight = matches!(c, '.' | '&' | '!' | '\'') || (c == '*' && unary(&v, i)) || (c == '-' && unary(&v, i));
                if !nospace && !tight {
                    s.push(' ');
                }
                if c == ';' && br {
                    nl(s, ind);
                }
                if c == ',' && br && false {
                    nl(s, ind);
                }
            }
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    let inner = g.stream();
                    if inner.is_empty() {
                        s.push_str("{} ");
                    } else if br {
                        s.push('{');
                        nl(s, ind + 1);
                        walk(inner, s, ind + 1, br);
                        nl(s, ind);
                        s.push('}');
                        // keep `} else`, `},`, `})`, `}.x` on one line
                        let stay = match v.get(i + 1) {
                            Some(TokenTree::Ident(x)) => x == "else",
                            Some(TokenTree::Punct(p)) => matches!(p.as_char(), ',' | ';' | '.' | '?'),
                            None => true,
                            _ => false,
                        };
                        if stay {
                            s.push(' ');
                        } else {
                            nl(s, ind);
                        }
                    } else {
                        s.push_str("{ ");
                        walk(inner, s, ind, br);
                        s.push_str("} ");
                    }
                    nospace = false;
                }
                d => {
                    let (o, c) = match d {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    let call = i > 0
                        && match &v[i - 1] {
                            TokenTree::Ident(x) => !["if", "in", "match", "while", "return", "for", "let", "else", "mut"].contains(&x.to_string().as_str()),
                            TokenTree::Punct(p) => p.as_char() == '>' || p.as_char() == '!' || p.as_char() == '?',
                            TokenTree::Group(_) => true,
                            _ => false,
                        };
                    if call && s.ends_with(' ') && !matches!(&v[i-1], TokenTree::Punct(p) if p.as_char()=='>') {
                        s.pop();
                    }
                    s.push_str(o);
                    walk(g.stream(), s, ind, br);
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    s.push_str(c);
                    s.push(' ');
                    nospace = false;
                }
            },
        }
    }
}

fn unary(v: &[TokenTree], i: usize) -> bool {
    if i == 0 {
        return true;
    }
    match &v[i - 1] {
        TokenTree::Punct(p) => !matches!(p.as_char(), '?' | '>'),
        TokenTree::Ident(x) => ["return", "in", "if", "match", "while", "else", "mut"].contains(&x.to_string().as_str()),
        _ => false,
    }
}
