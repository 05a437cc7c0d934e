//! R11: Option / Result combinators become `match`; R12: `x.try_into().map(u64::from_be_bytes).unwrap()`;
//! R13: closures given to a lifted function become values of a trait of the model.
use crate::rules::Rules;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

/// the outer shape of a type
#[derive(Clone, PartialEq, Debug)]
pub enum K {
    Opt(Box<K>),
    Res(Box<K>),
    Other,
    Unknown,
}

pub fn kind_of_type(t: &syn::Type) -> K {
    match t {
        syn::Type::Reference(r) => kind_of_type(&r.elem),
        syn::Type::Paren(p) => kind_of_type(&p.elem),
        syn::Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let inner = || match &s.arguments {
                syn::PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| if let syn::GenericArgument::Type(t) = x { Some(kind_of_type(t)) } else { None }).unwrap_or(K::Unknown),
                _ => K::Unknown,
            };
            match s.ident.to_string().as_str() {
                "Option" => K::Opt(Box::new(inner())),
                "Result" => K::Res(Box::new(inner())),
                _ => K::Other,
            }
        }
        _ => K::Other,
    }
}

/// return kinds of the functions of the crate (by name and by `Type::name`), kinds of the fields (by name)
#[derive(Default)]
pub struct Sigs {
    pub fns: HashMap<String, K>,
    pub fields: HashMap<String, K>,
}

impl Sigs {
    fn put(m: &mut HashMap<String, K>, n: String, k: K) {
        match m.get(&n) {
            Some(o) if *o != k => {
                m.insert(n, K::Unknown);
            }
            _ => {
                m.insert(n, k);
            }
        }
    }
    pub fn sig(&mut self, ty: Option<&str>, s: &syn::Signature) {
        let k = match &s.output {
            syn::ReturnType::Type(_, t) => kind_of_type(t),
            _ => K::Other,
        };
        if let Some(t) = ty {
            Self::put(&mut self.fns, format!("{t}::{}", s.ident), k.clone());
        }
        Self::put(&mut self.fns, s.ident.to_string(), k);
    }
    pub fn collect(&mut self, f: &syn::File) {
        struct C<'a>(&'a mut Sigs, Option<String>);
        impl<'ast> syn::visit::Visit<'ast> for C<'_> {
            fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
                if crate::keep(&f.attrs) {
                    self.0.sig(None, &f.sig);
                    syn::visit::visit_item_fn(self, f);
                }
            }
            fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
                if crate::keep(&m.attrs) {
                    syn::visit::visit_item_mod(self, m);
                }
            }
            fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
                if let syn::Type::Path(p) = &*i.self_ty {
                    self.1 = Some(p.path.segments.last().unwrap().ident.to_string());
                }
                syn::visit::visit_item_impl(self, i);
                self.1 = None;
            }
            fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
                let t = self.1.clone();
                self.0.sig(t.as_deref(), &f.sig);
                syn::visit::visit_impl_item_fn(self, f);
            }
            fn visit_trait_item_fn(&mut self, f: &'ast syn::TraitItemFn) {
                self.0.sig(None, &f.sig);
            }
            fn visit_item_struct(&mut self, s: &'ast syn::ItemStruct) {
                for f in &s.fields {
                    if let Some(n) = &f.ident {
                        Sigs::put(&mut self.0.fields, n.to_string(), kind_of_type(&f.ty));
                        Sigs::put(&mut self.0.fields, format!("{}.{n}", s.ident), kind_of_type(&f.ty));
                    }
                }
            }
        }
        syn::visit::Visit::visit_file(&mut C(self, None), f);
    }
}

pub struct Lifted {
    pub name: String,
    pub item: TokenStream,
}

pub struct D<'a> {
    pub ctx: &'a Rules,
    pub locals: HashMap<String, K>,
    /// typed parameters of the function, for captures
    pub params: Vec<(String, syn::Type)>,
    pub self_ty: Option<String>,
    pub fname: String,
    pub lifted: Vec<Lifted>,
}

fn is_self(e: &Expr) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident("self"))
}

fn escapes(e: &Expr) -> bool {
    struct F(bool);
    impl<'ast> syn::visit::Visit<'ast> for F {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
            self.0 = true;
        }
        fn visit_macro(&mut self, _: &'ast syn::Macro) {}
    }
    let mut f = F(false);
    syn::visit::Visit::visit_expr(&mut f, e);
    f.0
}

/// (pattern, body) of applying `f` to one argument
fn apply(f: &Expr) -> Option<(syn::Pat, Expr)> {
    match f {
        Expr::Closure(c) if c.inputs.len() == 1 && !escapes(&c.body) => {
            let p = match &c.inputs[0] {
                syn::Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            Some((p, (*c.body).clone()))
        }
        Expr::Path(_) => Some((parse_quote!(__x), parse_quote!(#f(__x)))),
        _ => None,
    }
}

/// the result of a closure without arguments
fn thunk(f: &Expr) -> Option<Expr> {
    match f {
        Expr::Closure(c) if c.inputs.is_empty() && !escapes(&c.body) => Some((*c.body).clone()),
        Expr::Path(_) => Some(parse_quote!(#f())),
        _ => None,
    }
}

impl D<'_> {
    pub fn kind(&self, e: &Expr) -> K {
        let s = &self.ctx.sigs;
        match e {
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Group(p) => self.kind(&p.expr),
            Expr::Reference(r) => self.kind(&r.expr),
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.locals.get(&i.to_string()).cloned()).unwrap_or(K::Unknown),
            Expr::Field(f) => match &f.member {
                syn::Member::Named(n) if is_self(&f.base) && self.self_ty.is_some() => s.fields.get(&format!("{}.{n}", self.self_ty.as_ref().unwrap())).cloned().unwrap_or(K::Unknown),
                syn::Member::Named(n) => s.fields.get(&n.to_string()).cloned().unwrap_or(K::Unknown),
                _ => K::Unknown,
            },
            Expr::Try(t) => match self.kind(&t.expr) {
                K::Res(k) | K::Opt(k) => *k,
                _ => K::Unknown,
            },
            Expr::Match(m) => {
                // a combinator that has been rewritten: any arm that tells
                for a in &m.arms {
                    let k = self.kind(&a.body);
                    if k != K::Unknown && k != K::Other {
                        return k;
                    }
                }
                K::Unknown
            }
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => K::Unknown,
            },
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => K::Unknown,
            },
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    match last.as_str() {
                        "Some" => return K::Opt(Box::new(c.args.first().map(|a| self.kind(a)).unwrap_or(K::Unknown))),
                        "Ok" => return K::Res(Box::new(c.args.first().map(|a| self.kind(a)).unwrap_or(K::Unknown))),
                        "Err" => return K::Res(Box::new(K::Unknown)),
                        _ => {}
                    }
                    let n = p.path.segments.len();
                    if n >= 2 {
                        let mut t = p.path.segments[n - 2].ident.to_string();
                        if t == "Self" {
                            t = self.self_ty.clone().unwrap_or(t);
                        }
                        if let Some(k) = s.fns.get(&format!("{t}::{last}")) {
                            return k.clone();
                        }
                    }
                    return s.fns.get(&last).cloned().unwrap_or(K::Unknown);
                }
                K::Unknown
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = || self.kind(&m.receiver);
                match n.as_str() {
                    "as_ref" | "as_mut" | "as_deref" | "as_deref_mut" | "cloned" | "copied" | "filter" | "or_else" | "or" | "take" | "replace" if m.args.len() <= 1 => match r() {
                        K::Opt(k) => return K::Opt(k),
                        K::Res(k) => return K::Res(k),
                        _ => {}
                    },
                    "map" => {
                        let inner = m.args.first().map(|a| self.kind_applied(a)).unwrap_or(K::Unknown);
                        match r() {
                            K::Opt(_) => return K::Opt(Box::new(inner)),
                            K::Res(_) => return K::Res(Box::new(inner)),
                            _ => return K::Unknown,
                        }
                    }
                    "and_then" => return m.args.first().map(|a| self.kind_applied(a)).unwrap_or(K::Unknown),
                    "map_err" => return match r() {
                        K::Res(k) => K::Res(k),
                        _ => K::Res(Box::new(K::Unknown)),
                    },
                    "ok" | "err" => return K::Opt(Box::new(K::Unknown)),
                    "ok_or" | "ok_or_else" => return match r() {
                        K::Opt(k) => K::Res(k),
                        _ => K::Unknown,
                    },
                    "unwrap" | "expect" | "unwrap_or_default" | "unwrap_or" | "unwrap_or_else" => return match r() {
                        K::Opt(k) | K::Res(k) => *k,
                        _ => K::Unknown,
                    },
                    _ => {}
                }
                if let (Some(t), true) = (&self.self_ty, is_self(&m.receiver)) {
                    if let Some(k) = s.fns.get(&format!("{t}::{n}")) {
                        return k.clone();
                    }
                }
                if let Some(k) = s.fns.get(&n) {
                    return k.clone();
                }
                match n.as_str() {
                    "first" | "last" | "get" | "get_mut" | "first_mut" | "last_mut" | "split_first" | "split_last" | "split_first_mut" | "split_last_mut" | "checked_sub" | "checked_add" | "checked_mul" | "checked_div"
                    | "next" | "next_back" | "pop" | "peek" | "peek_mut" | "strip_prefix" => K::Opt(Box::new(K::Other)),
                    "read_to_end" | "read_exact" | "write_all" => K::Res(Box::new(K::Other)),
                    "try_into" | "binary_search" | "binary_search_by_key" | "binary_search_by" => K::Res(Box::new(K::Other)),
                    _ => K::Unknown,
                }
            }
            _ => K::Unknown,
        }
    }
    fn kind_applied(&self, f: &Expr) -> K {
        match f {
            Expr::Closure(c) => self.kind(&c.body),
            Expr::Path(_) => self.kind(&parse_quote!(#f(__x))),
            _ => K::Unknown,
        }
    }

    fn combinator(&self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let r = &m.receiver;
        let n = m.method.to_string();
        let k = self.kind(r);
        let opt = matches!(k, K::Opt(_));
        // only results have `map_err`
        let res = matches!(k, K::Res(_)) || (n == "map_err" && matches!(k, K::Unknown));
        if !opt && !res {
            return None;
        }
        let mut lowered = (**r).clone();
        if n == "map_err" {
            tail(&mut lowered, self.ctx);
        }
        let r = &lowered;
        let a0 = m.args.first();
        Some(match (n.as_str(), m.args.len()) {
            ("map", 1) => {
                let (p, b) = apply(a0?)?;
                if opt {
                    parse_quote!(match #r { Some(#p) => Some(#b), None => None, })
                } else {
                    parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e), })
                }
            }
            ("map_err", 1) if res => {
                let (p, b) = apply(a0?)?;
                parse_quote!(match #r { Ok(__o) => Ok(__o), Err(#p) => Err(#b), })
            }
            ("and_then", 1) => {
                let (p, b) = apply(a0?)?;
                if opt {
                    parse_quote!(match #r { Some(#p) => #b, None => None, })
                } else {
                    parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e), })
                }
            }
            ("filter", 1) if opt => {
                let (p, b) = apply(a0?)?;
                parse_quote!(match #r { Some(__f) => { let #p = &__f; if #b { Some(__f) } else { None } } None => None, })
            }
            ("unwrap_or_else", 1) => {
                if opt {
                    let b = thunk(a0?)?;
                    parse_quote!(match #r { Some(__o) => __o, None => #b, })
                } else {
                    let (p, b) = apply(a0?)?;
                    parse_quote!(match #r { Ok(__o) => __o, Err(#p) => #b, })
                }
            }
            ("or_else", 1) if opt => {
                let b = thunk(a0?)?;
                parse_quote!(match #r { Some(__o) => Some(__o), None => #b, })
            }
            ("ok_or_else", 1) if opt => {
                let b = thunk(a0?)?;
                parse_quote!(match #r { Some(__o) => Ok(__o), None => Err(#b), })
            }
            ("map_or", 2) if opt => {
                let (p, b) = apply(m.args.get(1)?)?;
                parse_quote!(match #r { Some(#p) => #b, None => #a0, })
            }
            ("is_some_and", 1) if opt => {
                let (p, b) = apply(a0?)?;
                parse_quote!(match #r { Some(#p) => #b, None => false, })
            }
            ("is_none_or", 1) if opt => {
                let (p, b) = apply(a0?)?;
                parse_quote!(match #r { Some(#p) => #b, None => true, })
            }
            _ => return None,
        })
    }

    /// `x.try_into().map(u64::from_be_bytes).unwrap()`
    fn frombytes(&self, m: &syn::ExprMethodCall) -> Option<Expr> {
        if m.method != "unwrap" {
            return None;
        }
        let (x, f) = match &*m.receiver {
            Expr::MethodCall(b) if b.method == "map" && b.args.len() == 1 => {
                let Expr::MethodCall(c) = &*b.receiver else { return None };
                if c.method != "try_into" {
                    return None;
                }
                (&c.receiver, b.args[0].to_token_stream().to_string())
            }
            _ => return None,
        };
        let f: String = f.split_whitespace().collect();
        let (t, o) = f.split_once("::from_")?;
        let o = o.strip_suffix("_bytes")?;
        if !matches!(t, "u64" | "u32" | "u16") || !matches!(o, "be" | "le") {
            return None;
        }
        let g = format_ident!("{t}_of_{o}");
        Some(parse_quote!(#g(#x)))
    }

    /// `u64::from_be_bytes(x.try_into().unwrap())`
    fn frombytes2(&self, c: &syn::ExprCall) -> Option<Expr> {
        let f: String = c.func.to_token_stream().to_string().split_whitespace().collect();
        let (t, o) = f.split_once("::from_")?;
        let o = o.strip_suffix("_bytes")?;
        if !matches!(t, "u64" | "u32" | "u16") || !matches!(o, "be" | "le") || c.args.len() != 1 {
            return None;
        }
        let Expr::MethodCall(u) = &c.args[0] else { return None };
        let Expr::MethodCall(ti) = &*u.receiver else { return None };
        if u.method != "unwrap" || ti.method != "try_into" {
            return None;
        }
        let g = format_ident!("{t}_of_{o}");
        let x = &ti.receiver;
        Some(parse_quote!(#g(#x)))
    }

    fn lift(&mut self, name: &str, args: &mut syn::punctuated::Punctuated<Expr, syn::Token![,]>) {
        let Some(l) = self.ctx.lifts.iter().find(|l| l.func == name).cloned() else { return };
        let Some(a) = args.iter_mut().nth(l.arg) else { return };
        let (pats, mut body): (Vec<syn::Pat>, Expr) = match a {
            Expr::Closure(c) => (
                c.inputs.iter().map(|p| if let syn::Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() }).collect(),
                (*c.body).clone(),
            ),
            Expr::Path(p) if p.path.segments.len() > 1 => {
                let ids: Vec<syn::Ident> = (0..l.params).map(|i| format_ident!("__a{i}")).collect();
                let f = p.clone();
                (ids.iter().map(|i| parse_quote!(#i)).collect(), parse_quote!(#f(#(#ids),*)))
            }
            _ => return,
        };
        if pats.len() != l.params {
            return;
        }
        // captured parameters become fields
        struct Ids(Vec<String>);
        impl<'ast> syn::visit::Visit<'ast> for Ids {
            fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
                if let Some(i) = p.path.get_ident() {
                    self.0.push(i.to_string());
                }
            }
        }
        let mut ids = Ids(vec![]);
        syn::visit::Visit::visit_expr(&mut ids, &body);
        let caps: Vec<(String, syn::Type)> = self.params.iter().filter(|(n, _)| ids.0.contains(n)).cloned().collect();
        struct Sub<'a>(&'a [(String, syn::Type)]);
        impl VisitMut for Sub<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Path(p) = e {
                    if let Some(i) = p.path.get_ident() {
                        if self.0.iter().any(|(n, _)| i == n) {
                            let i = i.clone();
                            *e = parse_quote!(self.#i);
                            return;
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        Sub(&caps).visit_expr_mut(&mut body);
        let mut n = format!("L_{}", self.fname);
        if let Some(t) = &self.self_ty {
            n = format!("L_{t}_{}", self.fname);
        }
        if self.lifted.iter().any(|x| x.name == n) {
            n = format!("{n}_{}", self.lifted.len());
        }
        let id = format_ident!("{n}");
        let tr: syn::Ident = syn::parse_str(&l.tr).unwrap();
        // parameter names go into the method signature of the rule
        let mut sig: String = l.sig.clone();
        let mut pre: Vec<Stmt> = vec![];
        for (i, p) in pats.iter().enumerate() {
            let nm = match p {
                syn::Pat::Ident(x) if x.by_ref.is_none() => x.ident.to_string(),
                _ => {
                    let t = format_ident!("__a{i}");
                    pre.push(parse_quote!(let #p = #t;));
                    t.to_string()
                }
            };
            sig = sig.replace(&format!("${i}"), &nm);
        }
        let sig: TokenStream = sig.parse().expect("lift signature");
        let has_lt = caps.iter().any(|(_, t)| matches!(t, syn::Type::Reference(_)));
        let fields = caps.iter().map(|(n, t)| {
            let n = format_ident!("{n}");
            match t {
                syn::Type::Reference(r) => {
                    let e = &r.elem;
                    quote!(pub #n: &'k #e)
                }
                t => quote!(pub #n: #t),
            }
        });
        let vals = caps.iter().map(|(n, _)| format_ident!("{n}"));
        let body = if let Expr::Block(b) = &body {
            let st = &b.block.stmts;
            quote!(#(#pre)* #(#st)*)
        } else {
            quote!(#(#pre)* #body)
        };
        let (g, ga) = if has_lt { (quote!(<'k>), quote!(<'k>)) } else { (quote!(), quote!()) };
        let st = quote!(pub struct #id #g { #(#fields),* });
        let im = quote!(impl #g #tr for #id #ga { #sig { #body } });
        self.lifted.push(Lifted { name: format!("{n}"), item: st });
        self.lifted.push(Lifted { name: format!("<{n} as {tr}>"), item: im });
        *a = parse_quote!(&mut #id { #(#vals),* });
        self.ctx.note(format!("lift {n}"));
    }
}

impl VisitMut for D<'_> {
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
        let (pat, ty) = match &l.pat {
            syn::Pat::Type(t) => ((*t.pat).clone(), Some(kind_of_type(&t.ty))),
            p => (p.clone(), None),
        };
        if let syn::Pat::Ident(i) = pat {
            let k = ty.unwrap_or_else(|| l.init.as_ref().map(|x| self.kind(&x.expr)).unwrap_or(K::Unknown));
            self.locals.insert(i.ident.to_string(), k);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if let Some(x) = self.frombytes(m) {
                *e = x;
            }
        }
        if let Expr::Call(c) = e {
            if let Some(x) = self.frombytes2(c) {
                *e = x;
            }
        }
        if let Expr::MethodCall(m) = e {
            if matches!(m.method.to_string().as_str(), "map" | "and_then" | "filter") {
                if let Some(Expr::Closure(c)) = m.args.first() {
                    if let (1, Some(syn::Pat::Ident(i))) = (c.inputs.len(), c.inputs.first()) {
                        if let K::Opt(k) | K::Res(k) = self.kind(&m.receiver) {
                            self.locals.insert(i.ident.to_string(), *k);
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "binary_search_by_key" && m.args.len() == 2 {
                    let mut f = m.args[1].clone();
                    if let Some(s) = self.ctx.keyfns.first() {
                        if let Expr::Closure(c) = &mut f {
                            let (pt, rt): (syn::Type, syn::Type) = (syn::parse_str(&s.0).unwrap(), syn::parse_str(&s.1).unwrap());
                            if c.inputs.len() == 1 {
                                let p = c.inputs[0].clone();
                                if !matches!(p, syn::Pat::Type(_)) {
                                    c.inputs[0] = syn::Pat::Type(syn::PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(pt) });
                                }
                                let b = match &*c.body {
                                    Expr::Block(b) => b.block.clone(),
                                    b => parse_quote!({ #b }),
                                };
                                c.body = Box::new(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b }));
                                c.output = syn::ReturnType::Type(Default::default(), Box::new(syn::Type::Verbatim(quote!((r: #rt)))));
                            }
                        }
                    }
                    let (r, k) = (&m.receiver, &m.args[0]);
                    let mut args: syn::punctuated::Punctuated<Expr, syn::Token![,]> = Default::default();
                    args.push((**r).clone());
                    args.push(k.clone());
                    args.push(f);
                    *e = Expr::Call(syn::ExprCall { attrs: vec![], func: Box::new(parse_quote!(bsearch_by_key)), paren_token: Default::default(), args });
                    return;
                }
                self.lift(&n, &mut m.args);
                if let Some(x) = self.combinator(m) {
                    self.ctx.note(format!("combinator {n}"));
                    *e = x;
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    if n == "transmute" {
                        c.func = Box::new(parse_quote!(rt_transmute));
                        return;
                    }
                    let mut args = c.args.clone();
                    self.lift(&n, &mut args);
                    c.args = args;
                }
            }
            _ => {}
        }
    }
}

pub fn is_result(t: &syn::Type) -> bool {
    matches!(kind_of_type(t), K::Res(_))
}

/// `x.map(f)` as the value of a function that returns a result: `x` is a result
pub fn tail_block(b: &mut syn::Block, ctx: &Rules) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        tail(e, ctx);
    }
}

fn tail(e: &mut Expr, ctx: &Rules) {
    match e {
        Expr::Match(m) => {
            // the arms of a combinator already lowered are results too
            for a in &mut m.arms {
                tail(&mut a.body, ctx);
            }
        }
        Expr::Block(b) => tail_block(&mut b.block, ctx),
        Expr::If(i) => {
            tail_block(&mut i.then_branch, ctx);
            if let Some((_, x)) = &mut i.else_branch {
                tail(x, ctx);
            }
        }
        Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => {
            let r = &m.receiver;
            if let Some((p, b)) = apply(&m.args[0]) {
                ctx.note("combinator map");
                *e = parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e), });
            }
        }
        _ => {}
    }
}
