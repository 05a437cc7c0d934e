//! Canonical token lines: one statement, field, arm or brace per line.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Line {
    pub text: String,
    pub src: usize,
    pub depth: usize,
}

struct P {
    out: Vec<Line>,
    cur: String,
    src: usize,
    depth: usize,
    /// last printed token was joint punctuation
    joint: bool,
    last: Last,
    angle: usize,
}

#[derive(Clone, Copy, PartialEq)]
enum Last {
    None,
    Word,
    TypeWord,
    Kw,
    Open,
    Close,
    Punct(char),
}

const KW: &[&str] = &[
    "if", "while", "for", "in", "match", "return", "let", "mut", "else", "impl", "as", "where", "fn", "dyn", "ref", "move", "break", "unsafe", "loop", "pub", "ref", "const", "static",
];

impl P {
    fn flush(&mut self) {
        let t = self.cur.trim().to_string();
        if !t.is_empty() {
            self.out.push(Line { text: t, src: self.src, depth: self.depth });
        }
        self.cur.clear();
        self.src = 0;
        self.last = Last::None;
        self.joint = false;
        self.angle = 0;
    }
    fn word(&mut self, s: &str, space: bool) {
        if space && !self.cur.is_empty() {
            self.cur.push(' ');
        }
        self.cur.push_str(s);
    }
    fn stream(&mut self, ts: TokenStream, in_brace: bool) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            let t = &toks[i];
            let start = t.span().start();
            // tokens made by the rewriting rules carry the call site span (line 1, column 0)
            let line = if start.line == 1 && start.column == 0 { 0 } else { start.line };
            if self.src == 0 && line > 0 {
                self.src = line;
            }
            match t {
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    let kw = KW.contains(&s.as_str());
                    let space = matches!(self.last, Last::Word | Last::TypeWord | Last::Kw | Last::Close) || match self.last {
                        Last::Punct(c) => !(self.joint_colon() || matches!(c, '.' | '&' | '!' | '\'' | '*' | '<' | '?')) || self.binary(),
                        _ => false,
                    };
                    self.word(&s, space);
                    self.joint = false;
                    let ty = s.chars().next().is_some_and(|c| c.is_uppercase()) && (s.len() == 1 || s.chars().any(|c| c.is_lowercase()) || s.len() <= 2);
                    self.last = if kw { Last::Kw } else if ty { Last::TypeWord } else { Last::Word };
                    if self.last == Last::Word && self.prev_is_fn() {
                        self.last = Last::TypeWord;
                    }
                }
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    let space = matches!(self.last, Last::Word | Last::TypeWord | Last::Kw | Last::Close) || match self.last {
                        Last::Punct(c) => !matches!(c, '.' | '&' | '!' | '*') || self.binary(),
                        _ => false,
                    };
                    self.word(&s, space);
                    self.joint = false;
                    self.last = Last::Word;
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    let prev_joint = self.joint;
                    let mut space = false;
                    if !prev_joint {
                        space = match c {
                            ',' | ';' | '.' | '?' => false,
                            ':' => false,
                            '!' => matches!(self.last, Last::Kw | Last::Close | Last::Punct(_)) && !(p.spacing() == Spacing::Alone && matches!(self.last, Last::Punct('&' | '!' | '*'))) || matches!(self.last, Last::Word | Last::TypeWord) && p.spacing() == Spacing::Joint && matches!(toks.get(i + 1), Some(TokenTree::Punct(q)) if q.as_char() == '='),
                            '<' => {
                                let generic = matches!(self.last, Last::TypeWord | Last::Punct(':')) || matches!(self.last, Last::Kw) && self.cur.ends_with("impl");
                                if generic && p.spacing() == Spacing::Alone {
                                    self.angle += 1;
                                }
                                !generic
                            }
                            '>' => {
                                if self.angle > 0 {
                                    self.angle -= 1;
                                    false
                                } else {
                                    true
                                }
                            }
                            '\'' => !matches!(self.last, Last::Punct('<' | '&') | Last::Open),
                            '&' | '*' => !matches!(self.last, Last::Open | Last::None | Last::Punct('&' | '*' | '!')) && !(matches!(self.last, Last::Punct('<')) && self.angle > 0),
                            _ => !matches!(self.last, Last::Open | Last::None),
                        };
                    } else if c == '>' && self.angle > 0 && self.cur.ends_with('>') {
                        self.angle -= 1;
                    }
                    // a method without body: its contract goes before the semicolon
                    if c == ';' && in_brace && self.cur.trim_start().starts_with("fn ") {
                        self.flush();
                    }
                    self.word(&c.to_string(), space);
                    self.joint = p.spacing() == Spacing::Joint;
                    self.last = Last::Punct(c);
                    if in_brace && (c == ';' || (c == ',' && self.angle == 0)) {
                        self.flush();
                    }
                }
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        if g.stream().is_empty() {
                            self.word("{}", true);
                            self.last = Last::Close;
                        } else {
                            self.flush();
                            self.src = line;
                            self.cur.push('{');
                            self.flush();
                            self.depth += 1;
                            self.stream(g.stream(), true);
                            self.flush();
                            self.depth -= 1;
                            self.src = g.span_close().start().line;
                            self.cur.push('}');
                            self.last = Last::Close;
                        }
                        self.joint = false;
                        let stay = match toks.get(i + 1) {
                            None => !in_brace,
                            Some(TokenTree::Punct(p)) => matches!(p.as_char(), ',' | ';' | '.' | '?') || !in_brace,
                            _ => !in_brace,
                        };
                        if !stay {
                            self.flush();
                        }
                    }
                    d => {
                        let (o, c) = match d {
                            Delimiter::Parenthesis => ("(", ")"),
                            Delimiter::Bracket => ("[", "]"),
                            _ => ("", ""),
                        };
                        let call = matches!(self.last, Last::Word | Last::TypeWord | Last::Close | Last::Open | Last::None) || matches!(self.last, Last::Punct(c) if matches!(c, '&' | '!' | '*' | '<' | '?' | '>') && !self.binary()) || matches!(self.last, Last::Kw) && self.cur.ends_with("fn");
                        self.word(o, !call && !self.cur.is_empty());
                        self.last = Last::Open;
                        self.joint = false;
                        let a = std::mem::take(&mut self.angle);
                        self.stream(g.stream(), false);
                        self.angle = a;
                        if self.cur.is_empty() && self.src == 0 {
                            self.src = g.span_close().start().line;
                        }
                        self.word(c, false);
                        self.last = Last::Close;
                        self.joint = false;
                    }
                },
            }
            i += 1;
        }
    }
    fn joint_colon(&self) -> bool {
        self.cur.ends_with("::")
    }
    /// the last punctuation looks like a binary operator (a space was put before it)
    fn binary(&self) -> bool {
        let b = self.cur.as_bytes();
        let mut n = b.len();
        while n > 0 && !b[n - 1].is_ascii_alphanumeric() && b[n - 1] != b' ' && b[n - 1] != b'_' && !b"()[]".contains(&b[n - 1]) {
            n -= 1;
        }
        let op = &self.cur[n..];
        matches!(op, "==" | "!=" | "<=" | ">=" | "&&" | "||" | "+=" | "-=" | "*=" | "=" | "=>" | "->" | "<<" | ">>" | "|=" | "&=" | "+" | "/" | "%" | "^" | "..=" )
            || (matches!(op, "<" | "*" | "&" | "-") && n > 0 && b[n - 1] == b' ' && {
                let head = self.cur[..n].trim_end();
                head.ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == ')' || c == ']') && !KW.iter().any(|k| head.ends_with(k) && !head[..head.len() - k.len()].ends_with(|c: char| c.is_alphanumeric() || c == '_'))
            })
    }
    fn prev_is_fn(&self) -> bool {
        let mut it = self.cur.split_whitespace().rev();
        it.next();
        it.next() == Some("fn")
    }
}

pub fn lines(ts: TokenStream) -> Vec<Line> {
    let mut p = P { out: Vec::new(), cur: String::new(), src: 0, depth: 0, joint: false, last: Last::None, angle: 0 };
    let want: String = ts.to_string().split_whitespace().collect();
    p.stream(ts, true);
    p.flush();
    let joined = p.out.iter().map(|l| l.text.as_str()).collect::<Vec<_>>().join("\n");
    let back: String = match joined.parse::<TokenStream>() {
        Ok(t) => t.to_string().split_whitespace().collect(),
        Err(_) => String::new(),
    };
    if back != want {
        eprintln!("internal error: printing changes the tokens\n{joined}\n{want}\n{back}");
        std::process::exit(3);
    }
    let mut last = 0;
    for l in &mut p.out {
        if l.src == 0 {
            l.src = last;
        }
        last = l.src;
    }
    p.out
}
