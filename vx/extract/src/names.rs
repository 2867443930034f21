//! R-rename: a parameter or local that changed its name since the contract was written gets the old name back, so that the
//! contract can speak about it. Alpha-renaming only: the old name must not occur in the function.
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};

#[derive(Default)]
struct Locals(Vec<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let s = p.ident.to_string();
        if !s.starts_with(char::is_uppercase) && !self.0.contains(&s) { self.0.push(s) }
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

pub fn params(sig: &syn::Signature) -> Vec<String> {
    sig.inputs.iter().map(|a| match a {
        syn::FnArg::Typed(t) => match &*t.pat { syn::Pat::Ident(i) => i.ident.to_string(), _ => String::new() },
        _ => "self".into(),
    }).collect()
}
pub fn locals(b: &syn::Block) -> Vec<String> { let mut l = Locals::default(); l.visit_block(b); l.0 }

// the names that are variables somewhere in the function
#[derive(Default)]
struct Used(Vec<String>);
impl Used {
    fn tokens(&mut self, t: proc_macro2::TokenStream) {
        let mut dot = false;
        for x in t {
            let was = std::mem::replace(&mut dot, matches!(&x, proc_macro2::TokenTree::Punct(p) if p.as_char() == '.'));
            match x { proc_macro2::TokenTree::Ident(i) => if !was { self.0.push(i.to_string()) }, proc_macro2::TokenTree::Group(g) => self.tokens(g.stream()), _ => {} }
        }
    }
}
impl<'a> Visit<'a> for Used {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p) }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) { if p.path.segments.len() == 1 { self.0.push(p.path.segments[0].ident.to_string()) } }
    fn visit_macro(&mut self, m: &'a syn::Macro) { self.tokens(m.tokens.clone()) }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

struct Ren { from: String, to: String }
impl Ren {
    fn id(&self, i: &mut syn::Ident) { if *i == self.from { *i = syn::Ident::new(&self.to, i.span()) } }
    fn tokens(&self, t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        let mut dot = false; // a field or method name is not a variable
        t.into_iter().map(|x| {
            let was = std::mem::replace(&mut dot, matches!(&x, proc_macro2::TokenTree::Punct(p) if p.as_char() == '.'));
            match x {
                proc_macro2::TokenTree::Ident(mut i) => { if !was { self.id(&mut i) } proc_macro2::TokenTree::Ident(i) }
                proc_macro2::TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream())); n.set_span(g.span()); proc_macro2::TokenTree::Group(n) }
                x => x,
            }
        }).collect()
    }
}
impl VisitMut for Ren {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) { self.id(&mut p.ident); visit_mut::visit_pat_ident_mut(self, p) }
    fn visit_field_pat_mut(&mut self, p: &mut syn::FieldPat) {
        if p.colon_token.is_none() && matches!(&p.member, syn::Member::Named(n) if *n == self.from) { p.colon_token = Some(Default::default()) }
        visit_mut::visit_field_pat_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() && matches!(&f.member, syn::Member::Named(n) if *n == self.from) { f.colon_token = Some(Default::default()) }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.qself.is_none() && p.path.leading_colon.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() { self.id(&mut p.path.segments[0].ident) }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) { m.tokens = self.tokens(std::mem::take(&mut m.tokens)) }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

/// -> the names given back
pub fn restore(sig: &mut syn::Signature, mut block: Option<&mut syn::Block>, old: &serde_json::Value) -> usize {
    let list = |k: &str| -> Vec<String> { old[k].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
    let (op, np) = (list("p"), params(sig));
    let mut map: Vec<(String, String)> = vec![];
    if op.len() == np.len() { for (o, n) in op.iter().zip(&np) { if o != n && !o.is_empty() && !n.is_empty() && o != "self" && n != "self" { map.push((n.clone(), o.clone())) } } }
    if let Some(b) = block.as_deref() {
        let (ol, nl) = (list("l"), locals(b));
        let mapped = |n: &String| map.iter().any(|(a, _)| a == n);
        let gone: Vec<&String> = ol.iter().filter(|o| !nl.contains(o)).collect();
        let new: Vec<&String> = nl.iter().filter(|n| !ol.contains(n) && !mapped(n)).collect();
        if gone.len() == new.len() { let more: Vec<_> = new.into_iter().cloned().zip(gone.into_iter().cloned()).collect(); map.extend(more) }
    }
    let mut used = Used::default();
    used.visit_signature(sig);
    if let Some(b) = block.as_deref() { used.visit_block(b) }
    let mut used = used.0;
    let mut k = 0;
    for (n, o) in map {
        if used.contains(&o) { continue }
        let mut r = Ren { from: n, to: o.clone() };
        for a in sig.inputs.iter_mut() { if let syn::FnArg::Typed(t) = a { r.visit_pat_mut(&mut t.pat) } }
        if let Some(b) = block.as_deref_mut() { r.visit_block_mut(b) }
        used.push(o);
        k += 1;
    }
    k
}
