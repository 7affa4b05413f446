//! Token printer: one statement per line, valid Rust.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut p = P { out: String::new(), indent: 0, bol: true, glue: false };
    p.stream(ts, true);
    p.out
}

/// on one line
pub fn print_inline(ts: TokenStream) -> String {
    let mut p = P { out: String::new(), indent: 0, bol: true, glue: false };
    p.stream(ts, false);
    p.out.trim().to_string()
}

struct P {
    out: String,
    indent: usize,
    bol: bool,
    glue: bool,
}
impl P {
    fn nl(&mut self) {
        if !self.bol {
            self.out.push('\n');
            self.bol = true;
        }
        self.glue = false;
    }
    fn word(&mut self, s: &str) {
        if self.bol {
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.bol = false;
        } else if !self.glue {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.glue = false;
    }
    fn stream(&mut self, ts: TokenStream, lines: bool) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        for (i, t) in toks.iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace && lines && has_semi(&g.stream()) {
                        self.word(o);
                        self.indent += 1;
                        self.nl();
                        self.stream(g.stream(), true);
                        self.nl();
                        self.indent -= 1;
                        self.word(c);
                        let cont = matches!(toks.get(i + 1), Some(TokenTree::Ident(id)) if id == "else")
                            || matches!(toks.get(i + 1), Some(TokenTree::Punct(_)));
                        if !cont {
                            self.nl();
                        }
                    } else {
                        self.word(o);
                        self.stream(g.stream(), lines);
                        self.word(c);
                    }
                }
                TokenTree::Punct(p) => {
                    let s = p.as_char().to_string();
                    self.word(&s);
                    if p.spacing() == Spacing::Joint || p.as_char() == '\'' {
                        self.glue = true;
                    }
                    if p.as_char() == ';' && lines {
                        self.nl();
                    }
                }
                TokenTree::Ident(id) => self.word(&id.to_string()),
                TokenTree::Literal(l) => self.word(&l.to_string()),
            }
        }
    }
}
fn has_semi(ts: &TokenStream) -> bool {
    ts.clone().into_iter().any(|t| match t {
        TokenTree::Punct(p) => p.as_char() == ';',
        TokenTree::Group(g) => g.delimiter() == Delimiter::Brace && has_semi(&g.stream()),
        _ => false,
    })
}
