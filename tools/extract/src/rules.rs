//! The rewriting rules (R1..R10 in DESIGN.md).
use crate::keep;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::cell::RefCell;
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

#[derive(Clone)]
pub struct Lift {
    pub func: String,
    pub arg: usize,
    pub params: usize,
    pub tr: String,
    pub sig: String,
}

#[derive(Default)]
pub struct Rules {
    pub sigs: crate::desugar::Sigs,
    pub lifts: Vec<Lift>,
    /// argument and result type of the closure given to binary_search_by_key
    pub keyfns: Vec<(String, String)>,
    /// bound, trait of the model
    bounds: Vec<(String, String)>,
    pub lifted: RefCell<Vec<crate::desugar::Lifted>>,
    /// key -> parameters that are passed by reference (instantiation of R at &mut R)
    byref: Vec<(String, String)>,
    /// key -> parameters that are always a `Take` (instantiation of R at Take<&mut R>)
    bytake: Vec<(String, String)>,
    /// key, parameter, type parameter
    fnref: Vec<(String, String, String)>,
    /// function name, argument
    callfn: Vec<(String, usize)>,
    /// pattern, replacement
    outline: Vec<(String, String)>,
    forindex: Vec<String>,
    /// modules whose iterator chains become operations of the model
    iters: Vec<String>,
    /// module, field with the ghost content of the allocation
    rawparts: Vec<(String, String)>,
    /// structs whose fields stay private (they have a type invariant)
    pub private: Vec<String>,
    /// guard type, constructor method, drop method
    drops: Vec<(String, String, String)>,
    pub applied: RefCell<BTreeMap<String, usize>>,
}

fn norm(s: &str) -> String {
    s.parse::<TokenStream>().map(|t| t.to_string()).unwrap_or_else(|_| s.to_string()).split_whitespace().collect()
}

impl Rules {
    pub fn load(file: &str) -> Rules {
        let mut r = Rules::default();
        for l in std::fs::read_to_string(file).unwrap().lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let w: Vec<&str> = l.split_whitespace().collect();
            match w[0] {
                "bytake" => r.bytake.push((w[1].into(), w[2].into())),
                "byref" => r.byref.push((w[1].into(), w[2].into())),
                "fnref" => r.fnref.push((w[1].into(), w[2].into(), w[3].into())),
                "callfn" => r.callfn.push((w[1].into(), w[2].parse().unwrap())),
                "iters" => r.iters.push(w[1].into()),
                "rawparts" => r.rawparts.push((w[1].into(), w[2].into())),
                "private" => r.private.push(w[1].into()),
                "forindex" => r.forindex.push(w[1].into()),
                "drop" => r.drops.push((w[1].into(), w[2].into(), w[3].into())),
                "lift" => {
                    // lift FUNC ARG PARAMS TRAIT ==> SIGNATURE
                    let (_, sig) = l.split_once("==>").expect("lift");
                    r.lifts.push(Lift { func: w[1].into(), arg: w[2].parse().unwrap(), params: w[3].parse().unwrap(), tr: w[4].into(), sig: sig.trim().into() });
                }
                "keyfn" => {
                    let (a, b) = l["keyfn".len()..].split_once("==>").expect("keyfn");
                    r.keyfns.push((a.trim().into(), b.trim().into()));
                }
                "bound" => {
                    let (a, b) = l["bound".len()..].split_once("==>").expect("bound");
                    r.bounds.push((norm(a), b.trim().into()));
                }
                "outline" => {
                    let rest = l["outline".len()..].trim();
                    let (a, b) = rest.split_once("==>").expect("outline");
                    r.outline.push((norm(a), b.trim().to_string()));
                }
                x => panic!("unknown rule {x}"),
            }
        }
        r
    }
    pub fn note(&self, s: impl Into<String>) {
        *self.applied.borrow_mut().entry(s.into()).or_default() += 1;
    }
}

pub fn fields(f: &mut syn::Fields, private: bool) {
    let named = matches!(f, syn::Fields::Named(_));
    let _ = named;
    for x in f.iter_mut() {
        x.attrs.clear();
        x.vis = if private { syn::Visibility::Inherited } else { parse_quote!(pub) };
    }
}

pub fn to_item_fn(f: &syn::ImplItemFn) -> syn::ItemFn {
    syn::ItemFn { attrs: vec![], vis: f.vis.clone(), sig: f.sig.clone(), block: Box::new(f.block.clone()) }
}

pub fn to_impl_fn(f: syn::ItemFn, vis: syn::Visibility) -> syn::ImplItemFn {
    syn::ImplItemFn { attrs: vec![], vis, defaultness: None, sig: f.sig, block: *f.block }
}

pub fn hoist(b: &mut syn::Block) -> Vec<syn::ItemFn> {
    let mut out = Vec::new();
    struct H<'a>(&'a mut Vec<syn::ItemFn>);
    impl VisitMut for H<'_> {
        fn visit_block_mut(&mut self, b: &mut syn::Block) {
            let stmts = std::mem::take(&mut b.stmts);
            for s in stmts {
                match s {
                    Stmt::Item(syn::Item::Fn(f)) => self.0.push(f),
                    Stmt::Item(syn::Item::Use(_)) => {}
                    s => b.stmts.push(s),
                }
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    H(&mut out).visit_block_mut(b);
    out
}

/// R14: guard lowering. `P if g => A, Q => B` where P and Q match the same values becomes
/// `PQ => if g { A } else { B }`; `P if g => A, _ => B` becomes `P => if g { A } else { B }, _ => B`.
struct Guards<'a>(&'a Rules);
/// the pattern that binds what either binds, when both match the same values
fn unify(a: &syn::Pat, b: &syn::Pat, only_a: &mut Vec<String>) -> Option<syn::Pat> {
    use syn::Pat;
    let plain = |p: &Pat| match p {
        Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() && i.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') => Some(i.ident.to_string()),
        _ => None,
    };
    if let (Some(x), Some(y)) = (plain(a), plain(b)) {
        return if x == y { Some(a.clone()) } else { None };
    }
    match (a, b) {
        (Pat::Wild(_), Pat::Wild(_)) => Some(a.clone()),
        (Pat::Wild(_), p) => plain(p).map(|_| b.clone()),
        (p, Pat::Wild(_)) => plain(p).map(|n| {
            only_a.push(n);
            a.clone()
        }),
        (Pat::Tuple(x), Pat::Tuple(y)) if x.elems.len() == y.elems.len() => {
            let mut r = x.clone();
            for (i, e) in r.elems.iter_mut().enumerate() {
                *e = unify(&x.elems[i], &y.elems[i], only_a)?;
            }
            Some(Pat::Tuple(r))
        }
        (Pat::TupleStruct(x), Pat::TupleStruct(y)) if x.elems.len() == y.elems.len() && x.path == y.path => {
            let mut r = x.clone();
            for (i, e) in r.elems.iter_mut().enumerate() {
                *e = unify(&x.elems[i], &y.elems[i], only_a)?;
            }
            Some(Pat::TupleStruct(r))
        }
        _ if a == b => Some(a.clone()),
        _ => None,
    }
}
fn pat_names(p: &syn::Pat) -> Vec<String> {
    struct N(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for N {
        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
            self.0.push(i.ident.to_string());
            syn::visit::visit_pat_ident(self, i);
        }
    }
    let mut n = N(vec![]);
    syn::visit::Visit::visit_pat(&mut n, p);
    n.0
}
fn mentions(e: &Expr, names: &[String]) -> bool {
    let t = e.to_token_stream().to_string();
    t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| names.iter().any(|n| n == w))
}
impl VisitMut for Guards<'_> {
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        visit_mut::visit_expr_match_mut(self, m);
        let mut i = m.arms.len();
        while i > 0 {
            i -= 1;
            if m.arms[i].guard.is_none() || i + 1 >= m.arms.len() || m.arms[i + 1].guard.is_some() {
                continue;
            }
            let (p, q) = (m.arms[i].clone(), m.arms[i + 1].clone());
            let g = p.guard.as_ref().unwrap().1.clone();
            let (a, b) = (&p.body, &q.body);
            let mut only = Vec::new();
            if let Some(u) = unify(&p.pat, &q.pat, &mut only) {
                if !mentions(b, &only) {
                    m.arms[i] = parse_quote!(#u => if #g { #a } else { #b },);
                    m.arms.remove(i + 1);
                    self.0.note("guard");
                }
                continue;
            }
            let wild = match &q.pat {
                syn::Pat::Wild(_) => true,
                syn::Pat::Ident(x) => x.subpat.is_none() && x.ident.to_string().starts_with('_') && !mentions(b, &[x.ident.to_string()]),
                _ => false,
            };
            if wild && i + 2 == m.arms.len() && !mentions(b, &pat_names(&p.pat)) {
                let pp = &p.pat;
                m.arms[i] = parse_quote!(#pp => if #g { #a } else { #b },);
                self.0.note("guard");
            }
        }
    }
}

/// R15: sources of iterator chains become `It` values of the model, and `for` loops over them `while let` loops
struct Iters<'a>(&'a Rules);
impl VisitMut for Iters<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let x = &m.receiver;
                let full = m.args.len() == 1 && matches!(&m.args[0], Expr::Range(r) if r.start.is_none() && r.end.is_none());
                match m.method.to_string().as_str() {
                    "iter" if m.args.is_empty() => {
                        self.0.note("iters");
                        *e = parse_quote!(#x.it_iter());
                    }
                    "into_iter" if m.args.is_empty() => {
                        self.0.note("iters");
                        *e = parse_quote!(it_into_iter(#x));
                    }
                    "extend" if m.args.len() == 1 => {
                        let a = &m.args[0];
                        self.0.note("iters");
                        *e = parse_quote!(coll_extend(&mut #x, #a));
                    }
                    "drain" if full => {
                        self.0.note("iters");
                        *e = parse_quote!(it_drain(&mut #x));
                    }
                    _ => {}
                }
            }
            Expr::ForLoop(f) => {
                let (label, pat, it, body) = (&f.label, &f.pat, &f.expr, &f.body.stmts);
                self.0.note("iters");
                *e = parse_quote!({
                    let mut __it = #it;
                    #label while let Some(__x) = __it.next() {
                        let #pat = __x;
                        #(#body)*
                    }
                });
            }
            _ => {}
        }
    }
}
/// `let f = match e { P => path, .. }; f(args)` becomes `match e { P => path(args), .. }`
struct FnSel<'a>(&'a Rules);
impl VisitMut for FnSel<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            let mut new = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (syn::Pat::Ident(f), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Match(m) = &*init.expr {
                        let all = m.arms.iter().all(|a| a.guard.is_none() && matches!(&*a.body, Expr::Path(_)));
                        let n = f.ident.to_string();
                        let later = b.stmts[i + 2..].iter().any(|s| s.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == n));
                        if let (true, false, Stmt::Expr(Expr::Call(c), semi)) = (all, later, &b.stmts[i + 1]) {
                            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&f.ident)) && !c.args.iter().any(|a| mentions(a, &[n.clone()])) {
                                let mut m = m.clone();
                                for a in &mut m.arms {
                                    let (p, args) = (&a.body, &c.args);
                                    a.body = parse_quote!(#p(#args));
                                    a.comma = Some(Default::default());
                                }
                                new = Some(Stmt::Expr(Expr::Match(m), *semi));
                            }
                        }
                    }
                }
            }
            if let Some(s) = new {
                b.stmts[i] = s;
                b.stmts.remove(i + 1);
                self.0.note("fnsel");
            }
            i += 1;
        }
    }
}
/// `x == &y` compares what `x` refers to with `y`
struct DerefCmp<'a>(&'a Rules);
impl VisitMut for DerefCmp<'_> {
    fn visit_expr_binary_mut(&mut self, b: &mut syn::ExprBinary) {
        visit_mut::visit_expr_binary_mut(self, b);
        if !matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) {
            return;
        }
        if let (Expr::Path(l), Expr::Reference(r)) = (&*b.left, &*b.right) {
            if l.path.get_ident().is_some() && r.mutability.is_none() && matches!(&*r.expr, Expr::Path(p) if p.path.get_ident().is_some()) {
                let inner = r.expr.clone();
                *b.left = parse_quote!(*#l);
                b.right = inner;
                self.0.note("derefcmp");
            }
        }
    }
}
/// `slice::from_raw_parts(p, n)` is given the ghost content of the allocation
struct RawParts<'a>(&'a Rules, String);
impl VisitMut for RawParts<'_> {
    fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if let Expr::Path(p) = &*c.func {
            let g = quote::format_ident!("{}", self.1);
            match p.path.segments.last().unwrap().ident.to_string().as_str() {
                "from_raw_parts" if c.args.len() == 2 => c.args.push(parse_quote!(&self.#g)),
                "from_raw_parts_mut" if c.args.len() == 2 => c.args.push(parse_quote!(&mut self.#g)),
                _ => return,
            }
            self.0.note("rawparts");
        }
    }
}
/// a constructor given as a function
struct Eta;
impl VisitMut for Eta {
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        if m.method == "map" && m.args.len() == 1 {
            if let Expr::Path(p) = &m.args[0] {
                if p.path.segments.last().unwrap().ident.to_string().starts_with(|c: char| c.is_uppercase()) {
                    let p = p.clone();
                    m.args[0] = parse_quote!(|__x| #p(__x));
                }
            }
        }
    }
}

struct Clean;
impl VisitMut for Clean {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => keep(&l.attrs),
            Stmt::Expr(e, _) => keep(expr_attrs(e)),
            Stmt::Macro(m) => keep(&m.attrs),
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

fn expr_attrs(e: &Expr) -> &[syn::Attribute] {
    match e {
        Expr::If(x) => &x.attrs,
        Expr::Block(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::While(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        _ => &[],
    }
}

fn mac(m: &syn::Macro) -> Option<Expr> {
    let name = m.path.segments.last()?.ident.to_string();
    let args = || m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok();
    Some(match name.as_str() {
        "assert" | "debug_assert" => {
            let f = quote::format_ident!("{}", if name.starts_with("debug") { "rt_debug_assert" } else { "rt_assert" });
            let a = args()?;
            let c = a.first()?;
            parse_quote!(#f(#c))
        }
        "assert_eq" | "debug_assert_eq" => {
            let f = quote::format_ident!("{}", if name.starts_with("debug") { "rt_debug_assert" } else { "rt_assert" });
            let a = args()?;
            let (x, y) = (&a[0], &a[1]);
            parse_quote!(#f(#x == #y))
        }
        "assert_ne" | "debug_assert_ne" => {
            let f = quote::format_ident!("{}", if name.starts_with("debug") { "rt_debug_assert" } else { "rt_assert" });
            let a = args()?;
            let (x, y) = (&a[0], &a[1]);
            parse_quote!(#f(#x != #y))
        }
        "panic" | "unreachable" | "todo" | "unimplemented" => parse_quote!(rt_panic()),
        "vec" => {
            let body = m.tokens.to_string();
            if body.contains(';') {
                struct Rep(Expr, Expr);
                impl syn::parse::Parse for Rep {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let a = i.parse()?;
                        i.parse::<syn::Token![;]>()?;
                        Ok(Rep(a, i.parse()?))
                    }
                }
                let Rep(x, n) = m.parse_body().ok()?;
                parse_quote!(vec_from_elem(#x, #n))
            } else {
                return None;
            }
        }
        _ => return None,
    })
}

struct O<'a>(&'a Rules);
impl VisitMut for O<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let t = norm(&e.to_token_stream().to_string());
        if let Some((_, r)) = self.0.outline.iter().find(|(p, _)| *p == t) {
            self.0.note(format!("outline {r}"));
            *e = syn::parse_str(r).expect("outline replacement");
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// generic parameters bounded by a function trait that the model replaces
struct Bounds<'a> {
    ctx: &'a Rules,
    hit: Vec<String>,
}
impl Bounds<'_> {
    fn list(&mut self, who: String, b: &mut syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>) {
        for x in b.iter_mut() {
            let t = norm(&x.to_token_stream().to_string());
            if let Some((_, r)) = self.ctx.bounds.iter().find(|(p, _)| *p == t) {
                *x = syn::parse_str(r).expect("bound");
                self.hit.push(who.clone());
                self.ctx.note(format!("bound {r}"));
            }
        }
    }
}
impl VisitMut for Bounds<'_> {
    fn visit_type_param_mut(&mut self, t: &mut syn::TypeParam) {
        let n = t.ident.to_string();
        self.list(n, &mut t.bounds);
    }
    fn visit_predicate_type_mut(&mut self, p: &mut syn::PredicateType) {
        let n = p.bounded_ty.to_token_stream().to_string();
        self.list(n, &mut p.bounds);
    }
}

struct V<'a> {
    callmov: Vec<String>,
    ctx: &'a Rules,
    byref: Vec<String>,
    fnref: Vec<String>,
    forindex: bool,
}

impl VisitMut for V<'_> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = mac(&m.mac) {
                *s = Stmt::Expr(e, Some(Default::default()));
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = mac(&m.mac) {
                *e = x;
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let Expr::Path(p) = &*r.expr {
                    if let Some(i) = p.path.get_ident() {
                        let n = i.to_string();
                        if self.byref.contains(&n) || self.fnref.contains(&n) {
                            *e = (*r.expr).clone();
                        }
                    }
                }
            }
        }
        if let Expr::Reference(r) = e {
            // `&mut v[..]`
            if let (true, Expr::Index(i)) = (r.mutability.is_some(), &*r.expr) {
                if matches!(&*i.index, Expr::Range(x) if x.start.is_none() && x.end.is_none()) {
                    let v = &i.expr;
                    self.ctx.note("full mutable range");
                    *e = parse_quote!(#v.as_mut_slice());
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            if self.forindex {
                let (pat, it, body) = (&f.pat, &f.expr, &f.body.stmts);
                self.ctx.note("forindex");
                *e = parse_quote!({
                    let __it = #it;
                    let mut __n: usize = 0;
                    while __n < __it.len() {
                        let __k = __n;
                        __n += 1;
                        let #pat = &mut __it[__k];
                        #(#body)*
                    }
                });
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let f = match &*c.func {
                Expr::Paren(p) => &p.expr,
                f => f,
            };
            if let Expr::Path(p) = f {
                if let Some(i) = p.path.get_ident().cloned() {
                    if self.callmov.contains(&i.to_string()) {
                        let args = &c.args;
                        *e = parse_quote!(#i.call(#args));
                    }
                }
            }
        }
        match e {
            Expr::Closure(c) => {
                let mut pre: Vec<Stmt> = Vec::new();
                for (n, p) in c.inputs.iter_mut().enumerate() {
                    if matches!(p, syn::Pat::Tuple(_) | syn::Pat::TupleStruct(_) | syn::Pat::Struct(_)) {
                        let id = quote::format_ident!("__p{n}");
                        let old = p.clone();
                        *p = parse_quote!(#id);
                        pre.push(parse_quote!(let #old = #id;));
                    }
                }
                let body = &c.body;
                if !matches!(**body, Expr::Block(_)) || !pre.is_empty() {
                    *c.body = parse_quote!({ #(#pre)* #body });
                }
            }
            Expr::MethodCall(m) => {
                if m.method == "to_be_bytes" && m.args.is_empty() {
                    m.method = parse_quote!(be_bytes);
                }
                if m.method == "to_le_bytes" && m.args.is_empty() {
                    m.method = parse_quote!(le_bytes);
                }
                let name = m.method.to_string();
                for (f, n) in &self.ctx.callfn {
                    if *f == name {
                        if let Some(a) = m.args.iter_mut().nth(*n) {
                            if let Expr::Closure(_) = a {
                                let c = a.clone();
                                *a = parse_quote!(&(#c));
                            }
                        }
                    }
                }
            }
            Expr::Path(p) => {
                let s = norm(&p.to_token_stream().to_string());
                match s.as_str() {
                    "u64::from_be_bytes" => *e = parse_quote!(u64_from_be_bytes),
                    "u32::from_be_bytes" => *e = parse_quote!(u32_from_be_bytes),
                    "u64::from_le_bytes" => *e = parse_quote!(u64_from_le_bytes),
                    "u32::from_le_bytes" => *e = parse_quote!(u32_from_le_bytes),
                    _ => {}
                }
            }
            _ => {}
        }
    }
}

fn named_ret(sig: &mut syn::Signature) {
    if let syn::ReturnType::Type(_, t) = &mut sig.output {
        let ty = t.clone();
        **t = syn::Type::Verbatim(quote!((r: #ty)));
    }
}

pub fn trait_(t: &mut syn::ItemTrait, key: &str, ctx: &Rules) {
    Clean.visit_item_trait_mut(t);
    for i in &mut t.items {
        if let syn::TraitItem::Fn(f) = i {
            if let Some(b) = &mut f.default {
                V { callmov: vec![], ctx, byref: vec![], fnref: vec![], forindex: false }.visit_block_mut(b);
            }
            named_ret(&mut f.sig);
        }
    }
    let _ = key;
}

pub fn func(f: &mut syn::ItemFn, key: &str, _imp: Option<&syn::Generics>, ctx: &Rules) -> Vec<(String, TokenStream)> {
    Clean.visit_item_fn_mut(f);
    Guards(ctx).visit_item_fn_mut(f);
    if ctx.iters.iter().any(|m| key.starts_with(&format!("{m}::"))) {
        Iters(ctx).visit_item_fn_mut(f);
        Eta.visit_item_fn_mut(f);
        DerefCmp(ctx).visit_item_fn_mut(f);
        if f.sig.ident == "iter" {
            f.sig.ident = parse_quote!(it_iter);
        }
        if let syn::ReturnType::Type(_, t) = &mut f.sig.output {
            if let syn::Type::ImplTrait(i) = &**t {
                let item = i.bounds.iter().find_map(|b| match b {
                    syn::TypeParamBound::Trait(t) => {
                        let s = t.path.segments.last().unwrap();
                        match &s.arguments {
                            syn::PathArguments::AngleBracketed(a) if s.ident == "Iterator" => a.args.iter().find_map(|x| match x {
                                syn::GenericArgument::AssocType(t) if t.ident == "Item" => Some(t.ty.clone()),
                                _ => None,
                            }),
                            _ => None,
                        }
                    }
                    _ => None,
                });
                if let Some(x) = item {
                    **t = parse_quote!(It<#x>);
                    ctx.note("iters");
                }
            }
        }
    }
    FnSel(ctx).visit_item_fn_mut(f);
    if let Some((_, g)) = ctx.rawparts.iter().find(|(m, _)| key.starts_with(&format!("{m}::"))) {
        RawParts(ctx, g.clone()).visit_item_fn_mut(f);
    }
    let params: Vec<(String, syn::Type)> = f
        .sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            syn::FnArg::Typed(t) => match &*t.pat {
                syn::Pat::Ident(i) => Some((i.ident.to_string(), (*t.ty).clone())),
                _ => None,
            },
            _ => None,
        })
        .collect();
    O(ctx).visit_block_mut(&mut f.block);
    let mut b = Bounds { ctx, hit: vec![] };
    b.visit_generics_mut(&mut f.sig.generics);
    let callmov: Vec<String> = params
        .iter()
        .filter(|(_, t)| {
            let t = match t {
                syn::Type::Reference(r) => &r.elem,
                t => t,
            };
            b.hit.contains(&t.to_token_stream().to_string())
        })
        .map(|x| x.0.clone())
        .collect();
    let parts: Vec<&str> = key.split("::").collect();
    let self_ty = if parts.len() >= 2 && parts[parts.len() - 2].starts_with(|c: char| c.is_uppercase()) { Some(parts[parts.len() - 2].to_string()) } else { None };
    let mut d = crate::desugar::D {
        ctx,
        locals: params.iter().map(|(n, t)| (n.clone(), crate::desugar::kind_of_type(t))).collect(),
        params,
        self_ty,
        fname: f.sig.ident.to_string(),
        lifted: vec![],
    };
    d.visit_block_mut(&mut f.block);
    if let syn::ReturnType::Type(_, t) = &f.sig.output {
        if crate::desugar::is_result(t) {
            crate::desugar::tail_block(&mut f.block, ctx);
        }
    }
    let l = std::mem::take(&mut d.lifted);
    ctx.lifted.borrow_mut().extend(l);
    let byref: Vec<String> = ctx.byref.iter().filter(|(k, _)| k == key).map(|(_, p)| p.clone()).collect();
    let fnref: Vec<(String, String)> = ctx.fnref.iter().filter(|(k, _, _)| k == key).map(|(_, p, g)| (p.clone(), g.clone())).collect();
    for a in &mut f.sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            if let syn::Pat::Ident(i) = &mut *t.pat {
                let n = i.ident.to_string();
                if byref.contains(&n) && !matches!(&*t.ty, syn::Type::Reference(_)) {
                    i.mutability = None;
                    let ty = &t.ty;
                    *t.ty = parse_quote!(&mut #ty);
                    ctx.note(format!("byref {key} {n}"));
                }
                if ctx.bytake.iter().any(|(k, p)| k == key && *p == n) && !matches!(&*t.ty, syn::Type::Reference(_)) {
                    let ty = &t.ty;
                    *t.ty = parse_quote!(io::Take<'_, #ty>);
                    ctx.note(format!("bytake {key} {n}"));
                }
                if fnref.iter().any(|(p, _)| *p == n) {
                    i.mutability = None;
                    let ty = match &*t.ty {
                        syn::Type::Reference(r) => (*r.elem).clone(),
                        x => x.clone(),
                    };
                    *t.ty = parse_quote!(&#ty);
                    ctx.note(format!("fnref {key} {n}"));
                }
            }
        }
    }
    struct FnMutToFn;
    impl VisitMut for FnMutToFn {
        fn visit_path_segment_mut(&mut self, s: &mut syn::PathSegment) {
            if s.ident == "FnMut" {
                s.ident = parse_quote!(Fn);
            }
            visit_mut::visit_path_segment_mut(self, s);
        }
    }
    if !fnref.is_empty() {
        FnMutToFn.visit_generics_mut(&mut f.sig.generics);
    }
    let forindex = ctx.forindex.iter().any(|k| k == key);
    let mut v = V { callmov, ctx, byref, fnref: fnref.into_iter().map(|x| x.0).collect(), forindex };
    v.visit_block_mut(&mut f.block);
    // `mut self` becomes `self` and `let mut __self = self;`
    if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first_mut() {
        if r.mutability.is_some() && r.reference.is_none() {
            r.mutability = None;
            r.ty = parse_quote!(Self);
            struct S;
            impl VisitMut for S {
                fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
                    if p.path.is_ident("self") {
                        p.path = parse_quote!(__self);
                    }
                }
                fn visit_item_mut(&mut self, _: &mut syn::Item) {}
            }
            S.visit_block_mut(&mut f.block);
            f.block.stmts.insert(0, parse_quote!(let mut __self = self;));
            ctx.note("mutself");
        }
    }
    let mut extra = Vec::new();
    if let Some((mut g, guard)) = drop_scope(f, ctx) {
        ctx.note(format!("drop {key} {guard}"));
        named_ret(&mut g.sig);
        g.vis = parse_quote!(pub);
        extra.push(("__scope".to_string(), g.to_token_stream()));
    }
    named_ret(&mut f.sig);
    extra
}

/// R9: `let g = x.make(); REST` where `g` has drop glue becomes
/// `let mut g = x.make(); let r = f__scope(.., &mut g); g.drop_method(); r`
fn drop_scope(f: &mut syn::ItemFn, ctx: &Rules) -> Option<(syn::ItemFn, String)> {
    let Stmt::Local(l) = f.block.stmts.first()? else { return None };
    let syn::Pat::Ident(id) = &l.pat else { return None };
    let id = id.ident.clone();
    let init = l.init.as_ref()?.expr.clone();
    let Expr::MethodCall(m) = &*init else { return None };
    let (guard, _, dropm) = ctx.drops.iter().find(|d| m.method == d.1)?.clone();
    let text = init.to_token_stream().to_string();
    let mentioned = |n: &str| text.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == n);
    let mut inner = f.clone();
    inner.sig.ident = quote::format_ident!("{}__scope", f.sig.ident);
    let mut args: Vec<syn::Ident> = Vec::new();
    let mut inputs: syn::punctuated::Punctuated<syn::FnArg, syn::Token![,]> = Default::default();
    for a in &f.sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            if let syn::Pat::Ident(i) = &*t.pat {
                if !mentioned(&i.ident.to_string()) {
                    args.push(i.ident.clone());
                    inputs.push(a.clone());
                }
            }
        } else {
            return None;
        }
    }
    let gt: syn::Ident = syn::parse_str(&guard).ok()?;
    let dm: syn::Ident = syn::parse_str(&dropm).ok()?;
    inputs.push(parse_quote!(#id: &mut #gt));
    inner.sig.inputs = inputs;
    inner.block.stmts.remove(0);
    let name = &inner.sig.ident;
    f.block = parse_quote!({
        let mut #id = #init;
        let __r = #name(#(#args,)* &mut #id);
        #id.#dm();
        __r
    });
    Some((inner, guard))
}
