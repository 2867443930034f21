//! R-inline: a private helper that no contract covers is verified where it is called.
//! A call `h(a, b)`, `Self::h(a, b)` or `self.h(a, b)` is replaced by the body of `h` with its parameters
//! bound to the arguments. Not done (the helper is then reported as an item without a contract): recursion,
//! `return` or `?` in the helper, patterns as parameters, a local of the helper that an argument mentions.
use crate::contracts::FileC;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};

struct Helper { of: String, method: bool, params: Vec<(String, bool, bool)>, block: syn::Block, locals: BTreeSet<String> } // (name, mut, reference type)

#[derive(Default)]
struct Scan { ret: bool, locals: BTreeSet<String>, idents: BTreeSet<String>, calls: Vec<String> }
impl<'a> Visit<'a> for Scan {
    fn visit_expr_return(&mut self, e: &'a syn::ExprReturn) { self.ret = true; visit::visit_expr_return(self, e) }
    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) { self.ret = true; visit::visit_expr_try(self, e) }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.locals.insert(p.ident.to_string()); visit::visit_pat_ident(self, p) }
    fn visit_ident(&mut self, i: &'a syn::Ident) { self.idents.insert(i.to_string()); }
    fn visit_expr_call(&mut self, e: &'a syn::ExprCall) { if let syn::Expr::Path(p) = &*e.func { self.calls.push(p.path.segments.last().unwrap().ident.to_string()) } visit::visit_expr_call(self, e) }
    fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) { self.calls.push(e.method.to_string()); visit::visit_expr_method_call(self, e) }
    fn visit_macro(&mut self, m: &'a syn::Macro) { words(m.tokens.clone(), &mut self.idents) }
    fn visit_item(&mut self, _: &'a syn::Item) { self.ret = true } // local items: leave alone
}
fn words(t: proc_macro2::TokenStream, s: &mut BTreeSet<String>) {
    for x in t { match x { proc_macro2::TokenTree::Ident(i) => { s.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => words(g.stream(), s), _ => {} } }
}

fn words_in(b: &syn::Block, n: &str) -> bool { let mut s = BTreeSet::new(); words(quote::quote!(#b), &mut s); s.contains(n) }
fn helper(sig: &syn::Signature, block: &syn::Block) -> Option<Helper> {
    let mut s = Scan::default();
    s.visit_block(block);
    if s.ret || s.calls.iter().any(|c| sig.ident == c) || sig.asyncness.is_some() || sig.unsafety.is_some() || sig.constness.is_some() { return None }
    let mut params = vec![];
    let mut method = false;
    for a in &sig.inputs { match a {
        syn::FnArg::Receiver(_) => method = true,
        syn::FnArg::Typed(t) => { let syn::Pat::Ident(i) = &*t.pat else { return None }; params.push((i.ident.to_string(), i.mutability.is_some(), matches!(&*t.ty, syn::Type::Reference(_)))) }
    } }
    Some(Helper { of: String::new(), method, params, block: block.clone(), locals: s.locals })
}

struct Subst<'a> { strip: bool, from: &'a str, place: syn::Expr, whole: syn::Expr }
fn is_var(e: &syn::Expr, n: &str) -> bool { matches!(e, syn::Expr::Path(p) if p.path.is_ident(n)) }
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        let n = self.from;
        match e {
            syn::Expr::Unary(u) if self.strip && matches!(u.op, syn::UnOp::Deref(_)) && is_var(&u.expr, n) => { *e = self.place.clone(); return }
            syn::Expr::MethodCall(m) if is_var(&m.receiver, n) => { *m.receiver = self.place.clone(); for a in m.args.iter_mut() { self.visit_expr_mut(a) } return }
            syn::Expr::Field(f) if is_var(&f.base, n) => { *f.base = self.place.clone(); return }
            syn::Expr::Index(i) if is_var(&i.expr, n) => { *i.expr = self.place.clone(); self.visit_expr_mut(&mut i.index); return }
            syn::Expr::Path(_) if is_var(e, n) => { *e = self.whole.clone(); return }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() && is_var(&f.expr, self.from) { f.colon_token = Some(Default::default()) }
        visit_mut::visit_field_value_mut(self, f)
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        fn go(t: proc_macro2::TokenStream, n: &str, w: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
            t.into_iter().flat_map(|x| match x {
                proc_macro2::TokenTree::Ident(i) if i == n => w.clone(),
                proc_macro2::TokenTree::Group(g) => { let mut h = proc_macro2::Group::new(g.delimiter(), go(g.stream(), n, w)); h.set_span(g.span()); proc_macro2::TokenStream::from(proc_macro2::TokenTree::Group(h)) }
                o => o.into(),
            }).collect()
        }
        let w = &self.place;
        m.tokens = go(m.tokens.clone(), self.from, &quote::quote!(#w));
    }
}

struct Inline<'a> { free: &'a BTreeMap<String, Helper>, methods: &'a BTreeMap<String, Helper>, outer: BTreeSet<String>, done: BTreeMap<String, usize> }
impl Inline<'_> {
    fn call<'e>(&self, e: &'e syn::Expr) -> Option<(&Helper, String, Vec<&'e syn::Expr>)> {
        match e {
            syn::Expr::Call(c) => {
                let syn::Expr::Path(p) = &*c.func else { return None };
                let n = p.path.segments.last().unwrap().ident.to_string();
                let own = p.path.segments.len() == 2 && p.path.segments[0].ident == "Self";
                let of = p.path.segments.len() == 2 && p.qself.is_none() && self.methods.get(&n).is_some_and(|h| !h.method && h.of == p.path.segments[0].ident.to_string() && !words_in(&h.block, "Self"));
                let h = if of { self.methods.get(&n) } else if own { self.methods.get(&n).filter(|h| !h.method) } else if p.path.segments.len() == 1 { self.free.get(&n) } else { None }?;
                (h.params.len() == c.args.len()).then(|| (h, n, c.args.iter().collect()))
            }
            syn::Expr::MethodCall(m) if is_var(&m.receiver, "self") => {
                let n = m.method.to_string();
                let h = self.methods.get(&n).filter(|h| h.method)?;
                (h.params.len() == m.args.len()).then(|| (h, n, m.args.iter().collect()))
            }
            _ => None,
        }
    }
    /// the helper's body for this call: (bindings, statements, may be spliced into the caller's block)
    fn body(&mut self, e: &syn::Expr) -> Option<(Vec<syn::Stmt>, bool)> {
        let (h, n, args) = self.call(e)?;
        let mut used = Scan::default();
        for a in &args { used.visit_expr(a) }
        if h.locals.iter().any(|l| used.idents.contains(l)) { return None }
        let mut b = h.block.clone();
        let mut out: Vec<syn::Stmt> = vec![];
        let mut tops = Scan::default();
        for s in &h.block.stmts { if let syn::Stmt::Local(l) = s { tops.visit_pat(&l.pat) } }
        // what its body declares is visible after it; what deeper blocks declare is not
        let mut splice = tops.locals.iter().all(|l| !self.outer.contains(l));
        for ((p, mutable, by_ref), a) in h.params.iter().zip(&args) {
            let id = syn::Ident::new(p, proc_macro2::Span::call_site());
            let place = match a { syn::Expr::Reference(r) if *by_ref && matches!(&*r.expr, syn::Expr::Path(_) | syn::Expr::Field(_)) => Some((*r.expr).clone()), _ => None };
            if is_var(a, p) && !mutable { continue }
            if let Some(pl) = place {
                Subst { strip: true, from: p, place: pl, whole: (*a).clone() }.visit_block_mut(&mut b);
            } else if *by_ref && matches!(a, syn::Expr::Path(_)) && !mutable {
                Subst { strip: false, from: p, place: (*a).clone(), whole: (*a).clone() }.visit_block_mut(&mut b);
            } else {
                let a = *a;
                out.push(if *mutable { syn::parse_quote!(let mut #id = #a;) } else { syn::parse_quote!(let #id = #a;) });
                if self.outer.contains(p) { splice = false }
            }
        }
        // later bindings must not capture what an argument of an earlier one mentions
        if out.len() > 1 && h.params.iter().any(|(p, ..)| used.idents.contains(p) && out.iter().any(|s| matches!(s, syn::Stmt::Local(l) if matches!(&l.pat, syn::Pat::Ident(i) if i.ident == p.as_str())))) { return None }
        out.extend(b.stmts);
        *self.done.entry(n).or_default() += 1;
        Some((out, splice))
    }
}
fn split_tail(mut s: Vec<syn::Stmt>) -> (Vec<syn::Stmt>, Option<syn::Expr>) {
    if let Some(syn::Stmt::Expr(_, None)) = s.last() { let Some(syn::Stmt::Expr(e, _)) = s.pop() else { unreachable!() }; (s, Some(e)) } else { (s, None) }
}
/// let x = { pre; y }, y declared in `pre`: `pre` with x for y
fn renamed(l: &syn::Local, pre: &[syn::Stmt], tail: &syn::Expr, call: &syn::Expr) -> Option<Vec<syn::Stmt>> {
    let x = match &l.pat { syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() && l.attrs.is_empty() => i.ident.clone(), _ => return None };
    let y = match tail { syn::Expr::Path(p) => p.path.get_ident()?.clone(), _ => return None };
    let mut s = BTreeSet::new();
    words(quote::quote!(#(#pre)* #call), &mut s);
    let decls = pre.iter().filter(|s| matches!(s, syn::Stmt::Local(l) if matches!(&l.pat, syn::Pat::Ident(i) if i.ident == y && i.mutability.is_some()))).count();
    if x == y || s.contains(&x.to_string()) || decls != 1 { return None }
    struct R<'a>(&'a syn::Ident, &'a syn::Ident, usize, bool);
    impl VisitMut for R<'_> {
        fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) { if p.ident == *self.0 { self.2 += 1; p.ident = self.1.clone() } visit_mut::visit_pat_ident_mut(self, p) }
        fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) { if p.path.is_ident(self.0) { p.path.segments[0].ident = self.1.clone() } }
        fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) { if f.colon_token.is_none() && is_var(&f.expr, &self.0.to_string()) { f.colon_token = Some(Default::default()) } visit_mut::visit_field_value_mut(self, f) }
        fn visit_macro_mut(&mut self, m: &mut syn::Macro) { let mut s = BTreeSet::new(); words(m.tokens.clone(), &mut s); if s.contains(&self.0.to_string()) { self.3 = true } }
    }
    let mut r = R(&y, &x, 0, false);
    let mut out = pre.to_vec();
    for s in out.iter_mut() { r.visit_stmt_mut(s) }
    (r.2 == 1 && !r.3).then_some(out)
}
impl VisitMut for Inline<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let old = std::mem::take(&mut b.stmts);
        let n = old.len();
        for (k, mut s) in old.into_iter().enumerate() {
            match &mut s {
                syn::Stmt::Expr(e, semi) if self.call(e).is_some() && (semi.is_some() || k + 1 == n) => {
                    if let Some((st, splice)) = self.body(e) {
                        if splice {
                            let (st, tail) = split_tail(st);
                            b.stmts.extend(st);
                            if let Some(t) = tail {
                                if semi.is_some() { if !matches!(t, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::ForLoop(_) | syn::Expr::While(_)) { b.stmts.push(syn::Stmt::Expr(t, Some(Default::default()))) } else { b.stmts.push(syn::Stmt::Expr(t, None)) } }
                                else { b.stmts.push(syn::Stmt::Expr(t, None)) }
                            }
                        } else { b.stmts.push(syn::Stmt::Expr(syn::parse_quote!({ #(#st)* }), *semi)) }
                        continue;
                    }
                }
                syn::Stmt::Local(l) if l.init.as_ref().is_some_and(|i| i.diverge.is_none() && self.call(&i.expr).is_some()) => {
                    let e = (*l.init.as_ref().unwrap().expr).clone();
                    if let Some((st, splice)) = self.body(&e) {
                        let (pre, tail) = split_tail(st.clone());
                        match (splice, tail) {
                            // the helper's result under the name it gets here
                            (true, Some(t)) if renamed(l, &pre, &t, &e).is_some() => { b.stmts.extend(renamed(l, &pre, &t, &e).unwrap()); continue }
                            (true, Some(t)) => { b.stmts.extend(pre); *l.init.as_mut().unwrap().expr = t; }
                            _ => *l.init.as_mut().unwrap().expr = syn::parse_quote!({ #(#st)* }),
                        }
                        b.stmts.push(s);
                        continue;
                    }
                }
                _ => {}
            }
            self.visit_stmt_mut(&mut s);
            b.stmts.push(s);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if self.call(e).is_some() {
            if let Some((st, _)) = self.body(e) {
                let (pre, tail) = split_tail(st);
                *e = match tail { Some(t) if pre.is_empty() => syn::parse_quote!((#t)), Some(t) => syn::parse_quote!({ #(#pre)* #t }), None => syn::parse_quote!({ #(#pre)* }) };
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

/// Inlines the helpers of a file; returns the keys of those that are gone from every other body.
pub fn run(ast: &mut syn::File, c: &FileC, counts: &mut BTreeMap<String, usize>) -> Vec<String> {
    let known = |k: &str| c.items.iter().any(|i| i.key == k);
    let (mut free, mut methods): (BTreeMap<String, Helper>, BTreeMap<String, Helper>) = Default::default();
    let mut keys: BTreeMap<String, String> = Default::default();
    let off = |a: &[syn::Attribute]| a.iter().any(|a| a.path().is_ident("cfg") || a.path().is_ident("test"));
    for it in &ast.items { match it {
        syn::Item::Fn(f) if !off(&f.attrs) && !known(&format!("fn {}", f.sig.ident)) => { if let Some(h) = helper(&f.sig, &f.block) { keys.insert(f.sig.ident.to_string(), format!("fn {}", f.sig.ident)); free.insert(f.sig.ident.to_string(), h); } }
        syn::Item::Impl(i) if i.trait_.is_none() && !off(&i.attrs) => {
            let tk = crate::emit::ty_key(&i.self_ty);
            for x in &i.items { if let syn::ImplItem::Fn(f) = x {
                let k = format!("impl {tk}::{}", f.sig.ident);
                if !off(&f.attrs) && !known(&k) { if let Some(mut h) = helper(&f.sig, &f.block) {
                    h.of = tk.clone();
                    let n = f.sig.ident.to_string();
                    if keys.contains_key(&n) { methods.remove(&n); free.remove(&n); continue }
                    keys.insert(n.clone(), k); methods.insert(n, h);
                } }
            } }
        }
        _ => {}
    } }
    if keys.is_empty() { return vec![] }
    let mut done: BTreeMap<String, usize> = Default::default();
    let gone = |n: &str, ast: &syn::File| {
        // no mention left outside the helper itself
        struct Left<'a> { n: &'a str, found: bool }
        impl<'a> Visit<'a> for Left<'_> {
            fn visit_item_mod(&mut self, _: &'a syn::ItemMod) {}
            fn visit_item_fn(&mut self, f: &'a syn::ItemFn) { if f.sig.ident != self.n { visit::visit_item_fn(self, f) } }
            fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) { if f.sig.ident != self.n { visit::visit_impl_item_fn(self, f) } }
            fn visit_ident(&mut self, i: &'a syn::Ident) { if i == self.n { self.found = true } }
            fn visit_macro(&mut self, m: &'a syn::Macro) { let mut s = BTreeSet::new(); words(m.tokens.clone(), &mut s); if s.contains(self.n) { self.found = true } }
        }
        let mut l = Left { n, found: false };
        l.visit_file(ast);
        !l.found
    };
    for _ in 0..4 {
        let mut changed = false;
        struct Fns<'a> { free: &'a BTreeMap<String, Helper>, methods: &'a BTreeMap<String, Helper>, done: &'a mut BTreeMap<String, usize>, changed: bool }
        impl Fns<'_> {
            fn go(&mut self, sig: &syn::Signature, b: &mut syn::Block) {
                let mut s = Scan::default();
                s.visit_block(b);
                for a in &sig.inputs { s.visit_fn_arg(a) }
                let mut v = Inline { free: self.free, methods: self.methods, outer: s.idents, done: Default::default() };
                v.visit_block_mut(b);
                if !v.done.is_empty() { self.changed = true }
                for (k, n) in v.done { *self.done.entry(k).or_default() += n }
            }
        }
        impl VisitMut for Fns<'_> {
            fn visit_item_mod_mut(&mut self, _: &mut syn::ItemMod) {}
            fn visit_item_fn_mut(&mut self, f: &mut syn::ItemFn) { let s = f.sig.clone(); self.go(&s, &mut f.block) }
            fn visit_impl_item_fn_mut(&mut self, f: &mut syn::ImplItemFn) { let s = f.sig.clone(); self.go(&s, &mut f.block) }
            fn visit_trait_item_fn_mut(&mut self, f: &mut syn::TraitItemFn) { let s = f.sig.clone(); if let Some(b) = &mut f.default { self.go(&s, b) } }
        }
        let mut f = Fns { free: &free, methods: &methods, done: &mut done, changed: false };
        f.visit_file_mut(ast);
        changed |= f.changed;
        if !changed { break }
    }
    if !done.is_empty() {
        for (n, k) in &done { *counts.entry(format!("R-inline: call of `{n}`, a helper without a contract => its body")).or_default() += k; }
        // places in the text are found by position: make them consistent again
        *ast = syn::parse_file(&prettyplease::unparse(ast)).expect("inlined file parses");
    }
    done.keys().filter(|n| gone(n, ast)).map(|n| keys[n].clone()).collect()
}
