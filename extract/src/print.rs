use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use serde_json::json;

pub struct Out {
    pub s: String,
    pub indent: usize,
    pub rawblocks: Vec<serde_json::Value>,
    nl: usize,
}

pub fn flat(ts: TokenStream) -> String {
    let mut s = String::new();
    let mut p = P { o: &mut s, indent: 0, flat: true, loops: &[], joint: true };
    p.stream(ts);
    s.trim().to_string()
}

struct P<'a> {
    o: &'a mut String,
    indent: usize,
    flat: bool,
    loops: &'a [String],
    joint: bool,
}
impl<'a> P<'a> {
    fn sp(&mut self) {
        if !self.joint && !self.o.ends_with(|c: char| c.is_whitespace()) {
            self.o.push(' ');
        }
        self.joint = false;
    }
    fn nl(&mut self) {
        if self.flat {
            return;
        }
        while self.o.ends_with(' ') {
            self.o.pop();
        }
        if !self.o.ends_with('\n') {
            self.o.push('\n');
        }
        for _ in 0..self.indent {
            self.o.push_str("    ");
        }
        self.joint = true;
    }
    fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) if id == "__iter_marker" => {
                    // for pat in __iter_marker!(N, expr) -> for pat in itN: expr
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        let t: Vec<TokenTree> = g.stream().into_iter().collect();
                        self.sp();
                        self.o.push_str(&format!("it{}:", t[0]));
                        self.joint = false;
                        self.stream(t[2..].iter().cloned().collect());
                    }
                    i += 2;
                }
                TokenTree::Ident(id) => {
                    self.sp();
                    self.o.push_str(&id.to_string());
                }
                TokenTree::Literal(l) => {
                    self.sp();
                    self.o.push_str(&l.to_string());
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    let tight = matches!(c, ';' | ',' | '.' | '?') ;
                    if tight {
                        self.joint = false;
                    } else {
                        self.sp();
                    }
                    self.o.push(c);
                    self.joint = p.spacing() == Spacing::Joint || c == '.' || c == '\'';
                    if c == ';' {
                        self.nl();
                    }
                }
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        // loop marker: __loop_marker!(N);
                        let mut rest = inner.clone();
                        if inner.len() >= 4 {
                            if let (TokenTree::Ident(a), TokenTree::Group(n)) = (&inner[0], &inner[2]) {
                                if a == "__loop_marker" {
                                    let idx: usize = n.stream().to_string().parse().unwrap();
                                    rest = inner[4..].to_vec();
                                    if let Some(l) = self.loops.get(idx) {
                                        self.indent += 1;
                                        for line in l.lines() {
                                            self.nl();
                                            self.o.push_str(line.trim());
                                        }
                                        self.indent -= 1;
                                        self.nl();
                                    }
                                }
                            }
                        }
                        self.sp();
                        self.o.push('{');
                        self.indent += 1;
                        self.nl();
                        self.joint = !self.flat;
                        self.stream(rest.into_iter().collect());
                        self.indent -= 1;
                        self.nl();
                        if self.flat {
                            self.o.push(' ');
                        }
                        self.o.push('}');
                        self.joint = false;
                        // newline unless followed by something that continues the expression
                        let cont = match v.get(i + 1) {
                            Some(TokenTree::Punct(_)) => true,
                            Some(TokenTree::Ident(id)) => id == "else" || id == "as" || id == "for",
                            None => true,
                            _ => false,
                        };
                        if !cont {
                            self.nl();
                        }
                    }
                    d => {
                        let (a, b) = match d {
                            Delimiter::Parenthesis => ('(', ')'),
                            Delimiter::Bracket => ('[', ']'),
                            _ => ('(', ')'),
                        };
                        // keep `f(` together but not `in (`
                        if d == Delimiter::Parenthesis {
                            self.joint = false;
                            if !self.o.ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '>' || c == '!') {
                                self.sp();
                            }
                        } else {
                            self.sp();
                        }
                        self.o.push(a);
                        self.joint = true;
                        self.stream(g.stream());
                        self.o.push(b);
                        self.joint = false;
                    }
                },
            }
            i += 1;
        }
    }
}

impl Out {
    pub fn new() -> Out {
        Out { s: String::new(), indent: 0, rawblocks: vec![], nl: 1 }
    }
    /// 1-based number of the line that will be written next
    pub fn lineno(&self) -> usize {
        self.nl
    }
    pub fn line(&mut self, l: &str) {
        for x in l.split('\n') {
            for _ in 0..self.indent {
                self.s.push_str("    ");
            }
            self.s.push_str(x);
            self.s.push('\n');
            self.nl += 1;
        }
    }
    pub fn raw(&mut self, l: &str) {
        let start = self.nl;
        for x in l.lines() {
            if !x.trim().is_empty() {
                self.line(x.trim_end());
            }
        }
        if self.nl > start {
            self.rawblocks.push(json!([start, self.nl - 1]));
        }
    }
    pub fn tokens(&mut self, ts: TokenStream) {
        self.body(ts, &[])
    }
    pub fn body(&mut self, ts: TokenStream, loops: &[String]) {
        let mut s = String::new();
        for _ in 0..self.indent {
            s.push_str("    ");
        }
        let mut p = P { o: &mut s, indent: self.indent, flat: false, loops, joint: true };
        p.stream(ts);
        for l in s.trim_end().lines() {
            if l.trim().is_empty() {
                continue;
            }
            self.s.push_str(l);
            self.s.push('\n');
            self.nl += 1;
        }
    }
}

pub fn rename_word(s: &str, from: &str, to: &str) -> String {
    let mut out = String::new();
    let mut w = String::new();
    for c in s.chars().chain(std::iter::once(' ')) {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            out += if w == from { to } else { &w };
            w.clear();
            out.push(c);
        }
    }
    out.pop();
    out
}

pub fn rename_tokens(ts: TokenStream, from: &str, to: &str) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream(), from, to));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            TokenTree::Ident(i) if i == from => TokenTree::Ident(proc_macro2::Ident::new(to, i.span())),
            t => t,
        })
        .collect()
}
