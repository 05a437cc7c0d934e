//! `extract --own SRC OUT`: copies a source tree, with every lifetime extension taken back.
//!
//! - `transmute(x)` becomes `(x)`,
//! - `&'static T` inside of a body becomes `&T`,
//! - in the signature of a function with `'static` in its output, one lifetime ties inputs and output
//!   (the one of `self` if there is a receiver).
//!
//! Nothing else changes, so that the borrow checker decides whether what is handed out lives long enough.
use proc_macro2::{LineColumn, Span};
use std::path::Path;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Default)]
struct Own {
    edits: Vec<(LineColumn, LineColumn, String)>,
    notes: Vec<String>,
    body: usize,
}

fn is_static(l: &syn::Lifetime) -> bool {
    l.ident == "static"
}

struct HasStatic(bool);
impl<'a> Visit<'a> for HasStatic {
    fn visit_lifetime(&mut self, l: &'a syn::Lifetime) {
        self.0 = self.0 || is_static(l);
    }
}

/// references of a signature
struct Tie<'o> {
    own: &'o mut Own,
    name: Option<&'static str>,
    elided: bool,
}
impl<'a> Visit<'a> for Tie<'_> {
    fn visit_type_reference(&mut self, t: &'a syn::TypeReference) {
        match (&t.lifetime, self.name) {
            (Some(l), Some(n)) if is_static(l) => self.own.put(l.span(), n.to_string()),
            (Some(l), None) if is_static(l) => self.own.put(l.span(), String::new()),
            (None, Some(n)) if self.elided => {
                let e = t.and_token.span().end();
                self.own.edits.push((e, e, format!("{} ", n)));
            }
            _ => {}
        }
        visit::visit_type_reference(self, t);
    }
}

impl Own {
    fn put(&mut self, s: Span, t: String) {
        self.edits.push((s.start(), s.end(), t));
    }
    fn signature(&mut self, s: &syn::Signature) {
        let mut h = HasStatic(false);
        h.visit_return_type(&s.output);
        if !h.0 {
            return;
        }
        let receiver = s.receiver().is_some();
        let refs = s.inputs.iter().any(|i| matches!(i, syn::FnArg::Typed(t) if matches!(*t.ty, syn::Type::Reference(_))));
        if !receiver && !refs {
            return;
        }
        self.notes.push(format!("signature of {}", s.ident));
        if receiver {
            Tie { own: self, name: None, elided: false }.visit_return_type(&s.output);
            return;
        }
        let e = s.ident.span().end();
        match s.generics.lt_token {
            Some(lt) => {
                let e = lt.span().end();
                self.edits.push((e, e, "'own_, ".into()))
            }
            None => self.edits.push((e, e, "<'own_>".into())),
        }
        for i in &s.inputs {
            Tie { own: self, name: Some("'own_"), elided: true }.visit_fn_arg(i);
        }
        Tie { own: self, name: Some("'own_"), elided: true }.visit_return_type(&s.output);
    }
}

impl<'a> Visit<'a> for Own {
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
        if crate::keep(&f.attrs) {
            self.signature(&f.sig);
            self.body += 1;
            self.visit_block(&f.block);
            self.body -= 1;
        }
    }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
        if crate::keep(&f.attrs) {
            self.signature(&f.sig);
            self.body += 1;
            self.visit_block(&f.block);
            self.body -= 1;
        }
    }
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) {
        if crate::keep(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_item_const(&mut self, _: &'a syn::ItemConst) {}
    fn visit_item_static(&mut self, _: &'a syn::ItemStatic) {}
    fn visit_type_reference(&mut self, t: &'a syn::TypeReference) {
        if self.body > 0 {
            if let Some(l) = t.lifetime.as_ref().filter(|l| is_static(l)) {
                self.put(l.span(), String::new());
            }
        }
        visit::visit_type_reference(self, t);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if c.args.len() == 1 && p.path.segments.last().map_or(false, |s| s.ident == "transmute") {
                self.notes.push(format!("transmute at line {}", c.span().start().line));
                self.put(p.span(), String::new());
                self.visit_expr(&c.args[0]);
                return;
            }
        }
        visit::visit_expr_call(self, c);
    }
}

fn splice(src: &str, mut edits: Vec<(LineColumn, LineColumn, String)>) -> String {
    let lines: Vec<Vec<char>> = src.split('\n').map(|l| l.chars().collect()).collect();
    let mut starts = vec![0usize];
    for l in &lines {
        starts.push(starts.last().unwrap() + l.len() + 1);
    }
    let at = |p: LineColumn| starts[p.line - 1] + p.column;
    let all: Vec<char> = src.chars().collect();
    edits.sort_by_key(|e| at(e.0));
    let mut out = String::new();
    let mut pos = 0;
    for (a, b, t) in edits {
        let (a, b) = (at(a), at(b));
        if a < pos {
            continue;
        }
        out.extend(&all[pos..a]);
        out.push_str(&t);
        // line numbers stay
        out.extend(all[a..b].iter().filter(|c| **c == '\n'));
        pos = b;
    }
    out.extend(&all[pos..]);
    out
}

pub fn run(src: &Path, out: &Path) {
    std::fs::create_dir_all(out).unwrap();
    let mut names: Vec<_> = std::fs::read_dir(src).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        let to = out.join(p.file_name().unwrap());
        if p.is_dir() {
            run(&p, &to);
        } else if p.extension().map_or(false, |e| e == "rs") {
            let text = std::fs::read_to_string(&p).unwrap();
            let file = match syn::parse_file(&text) {
                Ok(f) => f,
                Err(e) => {
                    eprintln!("{}: {}", p.display(), e);
                    std::process::exit(1);
                }
            };
            let mut o = Own::default();
            o.visit_file(&file);
            for n in &o.notes {
                println!("{}: {}", p.display(), n);
            }
            std::fs::write(&to, splice(&text, o.edits)).unwrap();
        } else {
            std::fs::copy(&p, &to).unwrap();
        }
    }
}
