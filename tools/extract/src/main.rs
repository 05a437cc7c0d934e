//! Mechanical extraction of /repo/src into canonical lines that Verus can read.
//!
//! usage: extract SRC_DIR RULES_FILE   (prints JSON on stdout)
//!
//! The rules it applies are documented in /verif/DESIGN.md ("Extraction").
mod desugar;
mod own;
mod print;
mod rules;

use proc_macro2::TokenStream;
use quote::ToTokens;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;

fn cfg_true(meta: &syn::Meta) -> Option<bool> {
    match meta {
        syn::Meta::Path(p) => {
            let s = p.to_token_stream().to_string();
            Some(!matches!(s.as_str(), "test" | "grenad_verif" | "fuzzing" | "miri" | "kani" | "loom" | "doc" | "docsrs") && s != "windows" || s == "debug_assertions")
        }
        syn::Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                Some(true)
            } else {
                let v = nv.value.to_token_stream().to_string();
                if nv.path.is_ident("target_pointer_width") {
                    return Some(v == "\"64\"");
                }
                None
            }
        }
        syn::Meta::List(l) => {
            let inner: Vec<syn::Meta> = l
                .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                .ok()?
                .into_iter()
                .collect();
            let vals: Option<Vec<bool>> = inner.iter().map(cfg_true).collect();
            let vals = vals?;
            if l.path.is_ident("not") {
                Some(!vals[0])
            } else if l.path.is_ident("all") {
                Some(vals.iter().all(|x| *x))
            } else if l.path.is_ident("any") {
                Some(vals.iter().any(|x| *x))
            } else {
                None
            }
        }
    }
}

/// evaluates the `cfg` attributes (all features on, test and grenad_verif off)
pub fn keep(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            a.parse_args::<syn::Meta>().ok().and_then(|m| cfg_true(&m)).unwrap_or(true)
        } else if a.path().is_ident("test") {
            false
        } else {
            true
        }
    })
}

pub struct Out {
    pub items: Vec<Value>,
}

fn squash(t: impl ToTokens) -> String {
    let lines = print::lines(t.to_token_stream());
    lines.iter().map(|l| l.text.as_str()).collect::<Vec<_>>().join(" ")
}

fn push(out: &mut Out, module: &str, key: String, kind: &str, tokens: TokenStream, span: proc_macro2::Span, src: &str) {
    let lines = print::lines(tokens);
    out.items.push(json!({
        "module": module,
        "key": key,
        "kind": kind,
        "file": src,
        "start": span.start().line,
        "end": span.end().line,
        "lines": lines.iter().map(|l| l.text.clone()).collect::<Vec<_>>(),
        "depth": lines.iter().map(|l| l.depth).collect::<Vec<_>>(),
        "src": lines.iter().map(|l| l.src).collect::<Vec<_>>(),
    }));
}

fn emit_fn(out: &mut Out, module: &str, key: String, mut f: syn::ItemFn, ctx: &rules::Rules, span: proc_macro2::Span, src: &str) {
    f.attrs.clear();
    f.vis = syn::parse_quote!(pub);
    let hoisted = rules::hoist(&mut f.block);
    for h in hoisted {
        let sp = h.span();
        let k = format!("{key}::{}", h.sig.ident);
        emit_fn(out, module, k, h, ctx, sp, src);
    }
    for (suffix, extra) in rules::func(&mut f, &key, None, ctx) {
        push(out, module, format!("{key}{suffix}"), "fn", extra, span, src);
    }
    lifted(out, module, ctx, span, src);
    push(out, module, key, "fn", f.to_token_stream(), span, src);
}

fn lifted(out: &mut Out, module: &str, ctx: &rules::Rules, span: proc_macro2::Span, src: &str) {
    for l in ctx.lifted.borrow_mut().drain(..) {
        let kind = if l.name.starts_with('<') { "impl" } else { "struct" };
        push(out, module, format!("{module}::{}", l.name), kind, l.item, span, src);
    }
}

fn item(out: &mut Out, module: &str, it: syn::Item, ctx: &rules::Rules, dir: &Path, src: &str) {
    let span = it.span();
    match it {
        syn::Item::Fn(f) if keep(&f.attrs) => {
            let key = format!("{module}::{}", f.sig.ident);
            emit_fn(out, module, key, f, ctx, span, src);
        }
        syn::Item::Struct(mut s) if keep(&s.attrs) => {
            let key = format!("{module}::{}", s.ident);
            rules::fields(&mut s.fields, ctx.private.contains(&key));
            s.vis = syn::parse_quote!(pub);
            if let Some(d) = derives(&s.attrs) {
                out.items.push(json!({"module": module, "key": format!("{key}#derive"), "kind": "derive", "file": src, "start": span.start().line, "end": span.end().line, "lines": [d], "depth": [0], "src": [span.start().line]}));
            }
            s.attrs.clear();
            push(out, module, key, "struct", s.to_token_stream(), span, src);
        }
        syn::Item::Enum(mut e) if keep(&e.attrs) => {
            let key = format!("{module}::{}", e.ident);
            e.vis = syn::parse_quote!(pub);
            if let Some(d) = derives(&e.attrs) {
                out.items.push(json!({"module": module, "key": format!("{key}#derive"), "kind": "derive", "file": src, "start": span.start().line, "end": span.end().line, "lines": [d], "depth": [0], "src": [span.start().line]}));
            }
            e.attrs.clear();
            for v in &mut e.variants {
                v.attrs.clear();
                for f in &mut v.fields {
                    f.attrs.clear();
                }
            }
            push(out, module, key, "enum", e.to_token_stream(), span, src);
        }
        syn::Item::Const(mut c) if keep(&c.attrs) => {
            let key = format!("{module}::{}", c.ident);
            c.vis = syn::parse_quote!(pub);
            c.attrs.clear();
            push(out, module, key, "const", c.to_token_stream(), span, src);
        }
        syn::Item::Static(c) if keep(&c.attrs) => {
            let key = format!("{module}::{}", c.ident);
            push(out, module, key, "static", c.to_token_stream(), span, src);
        }
        syn::Item::Type(mut t) if keep(&t.attrs) => {
            let key = format!("{module}::{}", t.ident);
            t.vis = syn::parse_quote!(pub);
            t.attrs.clear();
            push(out, module, key, "type", t.to_token_stream(), span, src);
        }
        syn::Item::Trait(mut t) if keep(&t.attrs) => {
            let key = format!("{module}::{}", t.ident);
            t.vis = syn::parse_quote!(pub);
            t.attrs.clear();
            rules::trait_(&mut t, &key, ctx);
            push(out, module, key, "trait", t.to_token_stream(), span, src);
        }
        syn::Item::Impl(mut i) if keep(&i.attrs) => {
            i.attrs.clear();
            i.items.retain(|x| match x {
                syn::ImplItem::Fn(f) => keep(&f.attrs),
                syn::ImplItem::Const(c) => keep(&c.attrs),
                _ => true,
            });
            if i.trait_.is_some() {
                let tr = i.trait_.as_ref().unwrap().1.to_token_stream();
                let key = format!("{module}::<{} as {}>", squash(&i.self_ty), squash(tr));
                for x in &mut i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        f.attrs.clear();
                        let k = format!("{key}::{}", f.sig.ident);
                        let mut g: syn::ItemFn = rules::to_item_fn(f);
                        rules::func(&mut g, &k, Some(&i.generics), ctx);
                        *f = rules::to_impl_fn(g, syn::Visibility::Inherited);
                    }
                }
                push(out, module, key, "impl", i.to_token_stream(), span, src);
            } else {
                let ty = match &*i.self_ty {
                    syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    t => squash(t),
                };
                let items = std::mem::take(&mut i.items);
                for x in items {
                    let sp = x.span();
                    match x {
                        syn::ImplItem::Fn(f) => {
                            let key = format!("{module}::{ty}::{}", f.sig.ident);
                            let mut g = rules::to_item_fn(&f);
                            g.attrs.clear();
                            for h in rules::hoist(&mut g.block) {
                                let hs = h.span();
                                let k = format!("{key}::{}", h.sig.ident);
                                emit_fn(out, module, k, h, ctx, hs, src);
                            }
                            let extra = rules::func(&mut g, &key, Some(&i.generics), ctx);
                            lifted(out, module, ctx, sp, src);
                            for (suffix, e) in extra {
                                let mut j = i.clone();
                                j.items.push(syn::ImplItem::Verbatim(e));
                                push(out, module, format!("{key}{suffix}"), "fn", j.to_token_stream(), sp, src);
                            }
                            let mut j = i.clone();
                            j.items.push(syn::ImplItem::Fn(rules::to_impl_fn(g, syn::parse_quote!(pub))));
                            push(out, module, key, "fn", j.to_token_stream(), sp, src);
                        }
                        other => {
                            let key = format!("{module}::{ty}::other");
                            let mut j = i.clone();
                            j.items.push(other);
                            push(out, module, key, "const", j.to_token_stream(), sp, src);
                        }
                    }
                }
            }
        }
        syn::Item::Mod(m) if keep(&m.attrs) => {
            let name = m.ident.to_string();
            let sub = if module == "lib" { name.clone() } else { format!("{module}::{name}") };
            if let Some((_, items)) = m.content {
                for x in items {
                    item(out, &sub, x, ctx, dir, src);
                }
            } else {
                let (file, subdir) = find_mod(dir, &name);
                file_items(out, &sub, &file, &subdir, ctx);
            }
        }
        syn::Item::Use(u) if keep(&u.attrs) => {
            let key = format!("{module}::use");
            push(out, module, key, "use", u.to_token_stream(), span, src);
        }
        syn::Item::Macro(m) if keep(&m.attrs) => {
            push(out, module, format!("{module}::macro"), "macro", m.to_token_stream(), span, src);
        }
        _ => {}
    }
}

fn derives(attrs: &[syn::Attribute]) -> Option<String> {
    let mut all: Vec<String> = Vec::new();
    for a in attrs {
        if a.path().is_ident("derive") || a.path().is_ident("repr") {
            all.push(squash(&a.meta));
        }
    }
    if all.is_empty() {
        None
    } else {
        Some(all.join(" "))
    }
}

fn find_mod(dir: &Path, name: &str) -> (PathBuf, PathBuf) {
    let a = dir.join(format!("{name}.rs"));
    if a.exists() {
        (a, dir.join(name))
    } else {
        (dir.join(name).join("mod.rs"), dir.join(name))
    }
}

fn file_items(out: &mut Out, module: &str, file: &Path, dir: &Path, ctx: &rules::Rules) {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {e}", file.display());
        std::process::exit(3)
    });
    let parsed = syn::parse_file(&text).unwrap_or_else(|e| {
        eprintln!("cannot parse {}: {e}", file.display());
        std::process::exit(3)
    });
    let src = file.display().to_string();
    for it in parsed.items {
        item(out, module, it, ctx, dir, &src);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--own" {
        own::run(Path::new(&a[2]), Path::new(&a[3]));
        return;
    }
    let dir = PathBuf::from(&a[1]);
    let mut ctx = rules::Rules::load(&a[2]);
    let mut stack = vec![dir.clone()];
    while let Some(d) = stack.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                stack.push(p);
            } else if p.extension().is_some_and(|x| x == "rs") {
                if let Ok(f) = syn::parse_file(&std::fs::read_to_string(&p).unwrap_or_default()) {
                    ctx.sigs.collect(&f);
                }
            }
        }
    }
    let mut out = Out { items: Vec::new() };
    file_items(&mut out, "lib", &dir.join("lib.rs"), &dir, &ctx);
    println!("{}", serde_json::to_string(&json!({"items": out.items, "applied": ctx.applied.borrow().clone()})).unwrap());
}
