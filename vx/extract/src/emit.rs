//! Emission of one source file as a Verus module.
use crate::anchors;
use crate::contracts::{FileC, Item};
use crate::rules::{self, Rules};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use syn::visit_mut::{self, VisitMut};

#[derive(Default)]
pub struct Report {
    pub items: Vec<serde_json::Value>,
    pub lost: Vec<String>,
    pub unknown: Vec<String>,
    pub dropped: Vec<(String, String)>,
    pub rules: BTreeMap<String, usize>,
    pub aside: std::collections::BTreeSet<String>,
    pub names: serde_json::Value,
}
impl Report {
    pub fn to_json(&self) -> serde_json::Value {
        serde_json::json!({"items": self.items, "lost": self.lost, "unknown": self.unknown, "dropped": self.dropped, "rules": self.rules})
    }
}

#[derive(Default)]
pub struct ModTree { body: String, subs: BTreeMap<String, ModTree> }
impl ModTree {
    pub fn insert(&mut self, path: &[&str], body: String) {
        if path.is_empty() { self.body.push_str(&body); return }
        self.subs.entry(path[0].to_string()).or_default().insert(&path[1..], body);
    }
    pub fn render(&self, d: usize) -> String {
        let mut s = self.body.clone();
        for (n, m) in &self.subs { s.push_str(&format!("pub mod {n} {{\n{}\n}} // mod {n} (depth {d})\n", m.render(d + 1))); }
        s
    }
}

fn cfg_out(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") { return false }
        let t = a.meta.to_token_stream().to_string().replace(' ', "");
        t == "cfg(test)" || t.contains("feature=") && !t.contains("not(") || t == "cfg(doc)"
    })
}

pub fn ty_key(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, ty_key(&r.elem)),
        o => o.to_token_stream().to_string().replace(' ', ""),
    }
}

struct Ctx<'a> {
    src: &'a Path,
    c: &'a FileC,
    rep: &'a mut Report,
    used: BTreeSet<String>,
    marks: Vec<Mark>,
}
enum Mark { Sig { id: String, text: String }, Loop(String), Text(String), Closure(String) }

fn mark_stmt(n: usize) -> syn::Stmt {
    let l = proc_macro2::Literal::usize_unsuffixed(n);
    syn::parse_quote!(vx_mark!(#l);)
}

struct LoopMarks<'a> { k: usize, loops: &'a BTreeMap<usize, usize>, starts: &'a BTreeMap<usize, usize>, ends: &'a BTreeMap<usize, usize>, befores: &'a BTreeMap<usize, usize>, afters: &'a BTreeMap<usize, usize>, kinds: Vec<String> }
impl VisitMut for LoopMarks<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let is_loop = matches!(&s, syn::Stmt::Expr(syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Loop(_), _));
            let k = self.k;
            if is_loop { if let Some(m) = self.befores.get(&k) { b.stmts.push(mark_stmt(*m)) } }
            self.visit_stmt_mut(&mut s);
            if is_loop {
                if let Some(m) = self.afters.get(&k) {
                    if let syn::Stmt::Expr(e, semi @ None) = &mut s { if !matches!(e, syn::Expr::Loop(_)) { *semi = Some(Default::default()) } }
                    b.stmts.push(s); b.stmts.push(mark_stmt(*m)); continue
                }
            }
            b.stmts.push(s);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        let kind = match e { syn::Expr::While(_) => "while", syn::Expr::ForLoop(_) => "for", syn::Expr::Loop(_) => "loop", _ => "" };
        if kind.is_empty() { visit_mut::visit_expr_mut(self, e); return }
        let k = self.k;
        self.k += 1;
        self.kinds.push(kind.into());
        let body = match e { syn::Expr::While(w) => &mut w.body, syn::Expr::ForLoop(f) => &mut f.body, syn::Expr::Loop(l) => &mut l.body, _ => unreachable!() };
        self.visit_block_mut(body);
        if let Some(m) = self.ends.get(&k) {
            if let Some(syn::Stmt::Expr(x, semi)) = body.stmts.last_mut() { if semi.is_none() && !matches!(x, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_)) { *semi = Some(Default::default()) } }
            body.stmts.push(mark_stmt(*m))
        }
        if let Some(m) = self.starts.get(&k) { body.stmts.insert(0, mark_stmt(*m)) }
        if let Some(m) = self.loops.get(&k) { body.stmts.insert(0, mark_stmt(*m)) }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

struct Closures<'a> { k: usize, it: &'a Item, marks: &'a mut Vec<Mark>, seen: usize, bad: Vec<String> }
impl VisitMut for Closures<'_> {
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        let k = self.k;
        self.k += 1;
        self.seen += 1;
        if let Some((h, t)) = self.it.closures.get(&k) {
            // header: "|a: &X, b: &Y| -> (r: Z)"; parameter names and patterns stay those of the source
            let (params, ret) = h.rsplit_once("->").unwrap();
            let ret = ret.trim().trim_start_matches('(').trim_end_matches(')');
            let (rn, rt) = ret.split_once(':').unwrap();
            let tys: syn::ExprClosure = syn::parse_str(&format!("{} ()", params.trim())).unwrap();
            if tys.inputs.len() != c.inputs.len() { self.bad.push(format!("closure {k} arity")) }
            let mut lets: Vec<syn::Stmt> = vec![];
            let mut newin = syn::punctuated::Punctuated::<syn::Pat, syn::Token![,]>::new();
            for (i, (p, t)) in c.inputs.iter().zip(tys.inputs.iter()).enumerate() {
                let syn::Pat::Type(t) = t else { panic!() };
                let p = match p { syn::Pat::Type(p) => &*p.pat, p => p };
                let ty = &t.ty;
                if let syn::Pat::Ident(_) = p {
                    newin.push(syn::Pat::Type(syn::parse_quote!(#p: #ty)));
                } else {
                    let n = quote::format_ident!("vx_p{}", i);
                    newin.push(syn::Pat::Type(syn::parse_quote!(#n: #ty)));
                    lets.push(syn::parse_quote!(let #p = #n;));
                }
            }
            // the contract refers to parameters as $0, $1, and to what a one-line comparison computes as $body
            let mut text = t.clone();
            if text.contains("$body") {
                match values(&c.body) { Some(v) => text = text.replace("$body", &v), None => self.bad.push(format!("closure {k}: not a comparison")) }
            }
            for (i, p) in newin.iter().enumerate() {
                let syn::Pat::Type(p) = p else { panic!() };
                text = text.replace(&format!("${i}"), &p.pat.to_token_stream().to_string().replace("mut ", ""));
            }
            c.inputs = newin;
            let n = self.marks.len();
            self.marks.push(Mark::Closure(text));
            let rt: syn::Type = syn::parse_str(rt.trim()).unwrap();
            let w = quote::format_ident!("VxRet_{}_", rn.trim());
            c.output = syn::parse_quote!(-> #w<#rt>);
            let body = &c.body;
            let m = mark_stmt(n);
            *c.body = syn::parse_quote!({ #m #(#lets)* #body });
        }
        visit_mut::visit_expr_closure_mut(self, c);
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

struct SelfSub { ty: Option<syn::Type>, assoc: BTreeMap<String, syn::Type>, self_ident: bool }
impl VisitMut for SelfSub {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        let mut new = None;
        if let syn::Type::Path(p) = t {
            let s: Vec<_> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
            if s.len() == 2 && s[0] == "Self" { if let Some(x) = self.assoc.get(&s[1]) { new = Some(x.clone()) } }
            if s.len() == 1 && s[0] == "Self" { if let Some(x) = &self.ty { new = Some(x.clone()) } }
        }
        if let Some(n) = new { *t = n; }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        // Self::f(..), Self { .. } in free functions
        if let (Some(syn::Type::Path(tp)), true) = (&self.ty, p.segments.len() >= 1 && p.segments[0].ident == "Self") {
            let base = tp.path.clone();
            let mut segs: Vec<syn::PathSegment> = base.segments.iter().cloned().collect();
            if let Some(l) = segs.last_mut() { if let syn::PathArguments::AngleBracketed(a) = &mut l.arguments { a.colon2_token = Some(Default::default()) } }
            segs.extend(p.segments.iter().skip(1).cloned());
            p.segments = segs.into_iter().collect();
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if self.self_ident { if let syn::Expr::Path(p) = e { if p.path.is_ident("self") { *e = syn::parse_quote!(vx_self); return } } }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Rename { from: String, to: String }
impl VisitMut for Rename {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments.len() == 1 && p.segments[0].ident == self.from { p.segments[0].ident = syn::Ident::new(&self.to, p.segments[0].ident.span()) }
        visit_mut::visit_path_mut(self, p);
    }
}

struct Cleanup;
impl VisitMut for Cleanup {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) { a.clear() }
    // Verus needs no visibility; everything becomes pub
    fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) { *v = syn::parse_quote!(pub) }
    // bound Ord => the glue trait carrying the order's laws
    fn visit_trait_bound_mut(&mut self, b: &mut syn::TraitBound) {
        visit_mut::visit_trait_bound_mut(self, b);
        if b.path.segments.last().unwrap().ident == "Ord" { b.path = syn::parse_quote!(VxOrd) }
    }
}

struct FnMutToFn<'a>(&'a mut BTreeMap<String, usize>);
impl VisitMut for FnMutToFn<'_> {
    fn visit_trait_bound_mut(&mut self, b: &mut syn::TraitBound) {
        let l = b.path.segments.last_mut().unwrap();
        if l.ident == "FnMut" { l.ident = syn::Ident::new("Fn", l.ident.span()); *self.0.entry("R-fnmut: closure parameter bound FnMut => Fn (stateless closures only)".into()).or_default() += 1; }
        visit_mut::visit_trait_bound_mut(self, b);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) { p.mutability = None }
}

/// fn f<I: ExactSizeIterator<Item = X>>(.., i: I)  =>  fn f(.., i: Vec<X>)
fn exact_iter(sig: &mut syn::Signature, counts: &mut BTreeMap<String, usize>) {
    fn item(bs: &syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>) -> Option<syn::Type> {
        for b in bs { if let syn::TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last().unwrap();
            if l.ident == "ExactSizeIterator" { if let syn::PathArguments::AngleBracketed(a) = &l.arguments { for x in &a.args { if let syn::GenericArgument::AssocType(x) = x { if x.ident == "Item" { return Some(x.ty.clone()) } } } } }
        } }
        None
    }
    let mut found: Vec<(String, syn::Type)> = vec![];
    for p in &sig.generics.params { if let syn::GenericParam::Type(t) = p { if let Some(x) = item(&t.bounds) { found.push((t.ident.to_string(), x)) } } }
    if let Some(w) = &sig.generics.where_clause { for p in &w.predicates { if let syn::WherePredicate::Type(t) = p { if let Some(x) = item(&t.bounds) { found.push((ty_key(&t.bounded_ty), x)) } } } }
    for (n, x) in found {
        sig.generics.params = std::mem::take(&mut sig.generics.params).into_iter().filter(|p| !matches!(p, syn::GenericParam::Type(t) if t.ident == n)).collect();
        if let Some(w) = &mut sig.generics.where_clause { w.predicates = std::mem::take(&mut w.predicates).into_iter().filter(|p| !matches!(p, syn::WherePredicate::Type(t) if ty_key(&t.bounded_ty) == n)).collect(); if w.predicates.is_empty() { sig.generics.where_clause = None } }
        for a in sig.inputs.iter_mut() { if let syn::FnArg::Typed(t) = a { if ty_key(&t.ty) == n { *t.ty = syn::parse_quote!(Vec<#x>) } } }
        *counts.entry("R-exactiter: parameter of type ExactSizeIterator<Item = X> => Vec<X>, evaluated by the caller".into()).or_default() += 1;
    }
}

/// FnMut(&'a T) -> ControlFlow<B>  =>  Visitor<'a, T, B>
struct Visitors<'a>(&'a mut BTreeMap<String, usize>);
impl VisitMut for Visitors<'_> {
    fn visit_trait_bound_mut(&mut self, b: &mut syn::TraitBound) {
        let mut new: Option<syn::Path> = None;
        let l = b.path.segments.last().unwrap();
        if l.ident == "FnMut" { if let syn::PathArguments::Parenthesized(p) = &l.arguments { if let (1, Some(syn::Type::Reference(r)), syn::ReturnType::Type(_, o)) = (p.inputs.len(), p.inputs.first(), &p.output) {
            if let syn::Type::Path(op) = &**o { let ol = op.path.segments.last().unwrap(); if ol.ident == "ControlFlow" { if let syn::PathArguments::AngleBracketed(a) = &ol.arguments {
                let bt = a.args.first().unwrap();
                let (lt, el) = (&r.lifetime, &r.elem);
                let tr = if r.mutability.is_some() { quote::format_ident!("VisitorMut") } else { quote::format_ident!("Visitor") };
                if let Some(lt) = lt { new = Some(syn::parse_quote!(crate::vx::#tr<#lt, #el, #bt>)) }
            } } }
        } } }
        if let Some(n) = new { b.path = n; *self.0.entry("R-visitor: FnMut(&'a T) -> ControlFlow<B> => crate::vx::Visitor (same calls, ghost log)".into()).or_default() += 1; }
        visit_mut::visit_trait_bound_mut(self, b);
    }
}

/// The loops and iterator chains of a body as written in the source: what the loop contracts were written against.
// a Boolean over scalars, in terms of their values
fn values(e: &syn::Expr) -> Option<String> {
    fn scalar(e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Paren(p) => scalar(&p.expr),
            syn::Expr::Path(p) => p.path.get_ident().map(|i| format!("{i}.v()")),
            syn::Expr::Binary(b) => {
                let o = match b.op { syn::BinOp::Add(_) => "+", syn::BinOp::Sub(_) => "-", syn::BinOp::Mul(_) => "*", _ => return None };
                Some(format!("({} {o} {})", scalar(&b.left)?, scalar(&b.right)?))
            }
            _ => None,
        }
    }
    match e {
        syn::Expr::Paren(p) => values(&p.expr),
        syn::Expr::Block(b) => match &b.block.stmts[..] { [syn::Stmt::Expr(e, None)] => values(e), _ => None },
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => Some(format!("(!{})", values(&u.expr)?)),
        syn::Expr::Binary(b) => {
            let (o, both) = match b.op {
                syn::BinOp::And(_) => ("&&", true), syn::BinOp::Or(_) => ("||", true),
                syn::BinOp::Lt(_) => ("<", false), syn::BinOp::Le(_) => ("<=", false), syn::BinOp::Gt(_) => (">", false),
                syn::BinOp::Ge(_) => (">=", false), syn::BinOp::Eq(_) => ("==", false), syn::BinOp::Ne(_) => ("!=", false),
                _ => return None,
            };
            if both { Some(format!("({} {o} {})", values(&b.left)?, values(&b.right)?)) } else { Some(format!("({} {o} {})", scalar(&b.left)?, scalar(&b.right)?)) }
        }
        _ => None,
    }
}

struct Shape(Vec<String>);
impl VisitMut for Shape {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        match e {
            syn::Expr::While(w) => self.0.push(if matches!(&*w.cond, syn::Expr::Let(_)) { "while let" } else { "while" }.into()),
            syn::Expr::ForLoop(_) => self.0.push("for".into()),
            syn::Expr::Loop(_) => self.0.push("loop".into()),
            syn::Expr::Break(b) if b.expr.is_some() => self.0.push("break value".into()),
            syn::Expr::Continue(_) => self.0.push("continue".into()),
            syn::Expr::Closure(c) => self.0.push(format!("closure{}", c.inputs.len())),
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ["for_each", "fold", "map", "filter", "take_while", "extend", "collect", "any", "all", "find", "position", "chain", "zip", "rev", "enumerate", "skip", "take", "drain", "retain", "try_for_each"].contains(&n.as_str()) { self.0.push(n) }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

impl Ctx<'_> {
    fn find(&mut self, key: &str) -> Option<Item> {
        let r = self.c.items.iter().find(|i| i.key == key).cloned();
        if r.is_some() { self.used.insert(key.to_string()); }
        r
    }

    /// Applies contracts and rules to a function; returns hoisted items.
    fn func(&mut self, key: &str, it: &Item, sig: &mut syn::Signature, block: Option<&mut syn::Block>) {
        let id = format!("{}::{}", self.c.path, key);
        let mut lost = vec![];
        let (mut nloops, mut nclos) = (0, 0);
        let mut block = block;
        let names = serde_json::json!({"p": crate::names::params(sig), "l": block.as_deref().map(|b| crate::names::locals(b)).unwrap_or_default()});
        let renamed = match self.rep.names.get(&id) { Some(o) if *o != names => { let o = o.clone(); crate::names::restore(sig, block.as_deref_mut(), &o) } _ => 0 };
        if renamed > 0 { *self.rep.rules.entry("R-rename: renamed parameter or local gets the name the contract knows".into()).or_default() += renamed }
        let mut shape = Shape(vec![]);
        if let Some(b) = block.as_deref_mut() { shape.visit_block_mut(b) }
        // put aside: the body is outside the verifier's language, only the contract is kept
        let aside = block.is_some() && self.rep.aside.contains(&id);
        if aside {
            let b = block.take().unwrap();
            let n = self.marks.len();
            self.marks.push(Mark::Sig { id: id.clone(), text: it.sig.clone() });
            *b = syn::parse_quote!({ unimplemented!() });
            b.stmts.insert(0, mark_stmt(n));
            *self.rep.rules.entry("R-aside: body dropped, function external to the verifier".into()).or_default() += 1;
        }
        if let Some(b) = block.as_deref_mut() {
            if self.c.path.starts_with("expanded/") { Never(&mut self.rep.rules).visit_block_mut(b); ArrayMap(&mut self.rep.rules).visit_block_mut(b); }
            if it.opts.iter().any(|o| o == "gen_log") { gen_log(sig, b, &mut self.rep.rules) }
        }
        if it.opts.iter().any(|o| o == "fnmut_to_fn") {
            for a in sig.inputs.iter_mut() { FnMutToFn(&mut self.rep.rules).visit_fn_arg_mut(a) }
            let g = &mut sig.generics;
            FnMutToFn(&mut self.rep.rules).visit_generics_mut(g);
        }
        if it.opts.iter().any(|o| o == "named_impl") { named_impl(sig, &mut self.rep.rules) }
        exact_iter(sig, &mut self.rep.rules);
        { let g = &mut sig.generics; Visitors(&mut self.rep.rules).visit_generics_mut(g); }
        for (k, a) in sig.inputs.iter_mut().enumerate() { if let syn::FnArg::Typed(t) = a { if let syn::Pat::Wild(_) = &*t.pat {
            let n = quote::format_ident!("vx_w{}", k);
            *t.pat = syn::parse_quote!(#n);
            *self.rep.rules.entry("R-wild: parameter `_` => named parameter".into()).or_default() += 1;
        } } }
        let ref_args: Vec<String> = sig.inputs.iter().filter_map(|a| if let syn::FnArg::Typed(t) = a { if let (syn::Pat::Ident(i), syn::Type::Reference(_)) = (&*t.pat, &*t.ty) { return Some(i.ident.to_string()) } None } else { None }).collect();
        struct STy<'b>(&'b mut BTreeMap<String, usize>);
        impl VisitMut for STy<'_> { fn visit_type_mut(&mut self, t: &mut syn::Type) { visit_mut::visit_type_mut(self, t); rules::small_vec(t, self.0) } }
        STy(&mut self.rep.rules).visit_signature_mut(sig);
        if let Some(block) = block {
            if it.at.iter().any(|(spec, _)| spec == "tail") && crate::norm::one_exit(block) {
                *self.rep.rules.entry("R-norm: equivalent statement forms brought to one".into()).or_default() += 1;
            }
            // 1. text anchors on the original AST
            let mut loopish: BTreeMap<&str, BTreeMap<usize, usize>> = Default::default();
            let mut pending = vec![];
            for (spec, text) in &it.at {
                let w: Vec<&str> = spec.split_whitespace().collect();
                match w[0] {
                    "start" => pending.push((2, None, text.clone())),
                    "end" => pending.push((3, None, text.clone())),
                    "tail" => pending.push((4, None, text.clone())),
                    "before" | "after" | "arm" => {
                        let k = w.get(2).map_or(0, |x| x.parse().unwrap());
                        let name = if w[0] == "arm" { format!("arm:{}", w[1]) } else { w[1].to_string() };
                        match anchors::resolve(block, &name, k) {
                            Some(p) => pending.push((if w[0] == "before" { 0 } else { 1 }, Some((w[0] == "before", p, w[0] == "arm")), text.clone())),
                            None => lost.push(format!("{id}: anchor `{spec}`")),
                        }
                    }
                    "loopstart" | "loopend" | "beforeloop" | "afterloop" => {
                        let n = self.marks.len();
                        self.marks.push(Mark::Text(text.clone()));
                        loopish.entry(match w[0] { "loopstart" => "s", "loopend" => "e", "beforeloop" => "b", _ => "a" }).or_default().insert(w[1].parse().unwrap(), n);
                    }
                    o => panic!("{id}: unknown anchor {o}"),
                }
            }
            for (kind, r, text) in pending {
                let n = self.marks.len();
                self.marks.push(Mark::Text(text));
                let m = mark_stmt(n);
                match kind {
                    0 | 1 => if !anchors::insert(block, &r.unwrap(), m) { lost.push(format!("{id}: anchor not placed")) },
                    2 => block.stmts.insert(0, m),
                    3 => block.stmts.push(m),
                    4 => {
                        if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last().cloned() {
                            block.stmts.pop();
                            let mut e = e;
                            if it.opts.iter().any(|o| o == "bind_chain") {
                                if let syn::Expr::MethodCall(mc) = &mut e {
                                    let r = mc.receiver.clone();
                                    block.stmts.push(syn::parse_quote!(let vx_t = #r;));
                                    mc.receiver = syn::parse_quote!(vx_t);
                                }
                            }
                            block.stmts.push(syn::parse_quote!(let vx_r = #e;));
                            block.stmts.push(m);
                            block.stmts.push(syn::Stmt::Expr(syn::parse_quote!(vx_r), None));
                        } else { lost.push(format!("{id}: no tail expression")) }
                    }
                    _ => {}
                }
            }
            // 2. desugaring rules
            let cf = matches!(&sig.output, syn::ReturnType::Type(_, t) if ty_key(t) == "ControlFlow");
            let mut r = Rules { counts: &mut self.rep.rules, opts: it.opts.clone(), ref_args, next: 0, cf, drain_vars: vec![], lost: vec![] };
            r.visit_block_mut(block);
            lost.extend(std::mem::take(&mut r.lost).into_iter().map(|b| format!("{id}: {b}")));
            struct FM<'b>(&'b mut BTreeMap<String, usize>);
            // 3. loops
            let mut loops = BTreeMap::new();
            for (k, t) in &it.loops {
                loops.insert(*k, self.marks.len());
                self.marks.push(Mark::Loop(t.clone()));
            }
            let e = BTreeMap::new();
            let mut lm = LoopMarks { k: 0, loops: &loops, starts: loopish.get("s").unwrap_or(&e), ends: loopish.get("e").unwrap_or(&e), befores: loopish.get("b").unwrap_or(&e), afters: loopish.get("a").unwrap_or(&e), kinds: vec![] };
            lm.visit_block_mut(block);
            nloops = lm.k;
            let kinds = lm.kinds;
            let want = it.opts.iter().find_map(|o| o.strip_prefix("loops ")).map(|s| s.split_whitespace().map(String::from).collect::<Vec<_>>());
            if let Some(w) = want { if w != kinds { lost.push(format!("{id}: loops are {kinds:?}, contract expects {w:?}")) } }
            else {
                for k in loops.keys() { if *k >= nloops { lost.push(format!("{id}: loop {k} not found")) } }
                if nloops > it.loops.len() { lost.push(format!("{id}: {nloops} loops, contract covers {}", it.loops.len())) }
            }
            // 4. closures
            let mut cl = Closures { k: 0, it, marks: &mut self.marks, seen: 0, bad: vec![] };
            cl.visit_block_mut(block);
            nclos = cl.seen;
            lost.extend(cl.bad.into_iter().map(|b| format!("{id}: {b}")));
            for k in it.closures.keys() { if *k >= nclos { lost.push(format!("{id}: closure {k} not found")) } }
            if nclos > it.closures.len() && !it.opts.iter().any(|o| o == "free_closures") { lost.push(format!("{id}: {nclos} closures, contract covers {}", it.closures.len())) }
            let n = self.marks.len();
            self.marks.push(Mark::Sig { id: id.clone(), text: it.sig.clone() });
            block.stmts.insert(0, mark_stmt(n));
        } else if !aside {
            // bodyless trait method: the contract is spliced through an attribute-like marker in the name
            let n = self.marks.len();
            self.marks.push(Mark::Sig { id: id.clone(), text: it.sig.clone() });
            let old = sig.ident.to_string();
            sig.ident = syn::Ident::new(&format!("{old}__vxsig{n}"), sig.ident.span());
        }
        // named return
        if let syn::ReturnType::Type(_, t) = &mut sig.output {
            if !it.ret.is_empty() {
                let w = quote::format_ident!("VxRet_{}_", it.ret);
                let ty = &**t;
                **t = syn::parse_quote!(#w<#ty>);
            }
        }
        if let Some(n) = &it.rename { sig.ident = syn::Ident::new(n, sig.ident.span()) }
        self.rep.lost.extend(lost);
        self.rep.items.push(serde_json::json!({"id": id, "file": self.c.path, "key": key, "contract": !it.sig.trim().is_empty(), "external": it.attrs.contains("external_body"), "loops": nloops, "closures": nclos, "props": it.props, "opts": it.opts, "shape": shape.0.join(" "), "names": names, "renamed": renamed}));
    }

    fn finish(&self, it: &syn::Item, attrs: &str) -> String {
        let f = syn::File { shebang: None, attrs: vec![], items: vec![it.clone()] };
        let mut s = prettyplease::unparse(&f);
        // return names
        loop {
            let Some(i) = s.find("VxRet_") else { break };
            let rest = &s[i + 6..];
            let j = rest.find("_<").unwrap();
            let name = rest[..j].to_string();
            let start = i + 6 + j + 2;
            let (mut d, mut e) = (1, start);
            let b = s.as_bytes();
            while d > 0 {
                match b[e] { b'<' => d += 1, b'>' if b[e - 1] != b'-' => d -= 1, _ => {} }
                e += 1;
            }
            let inner = s[start..e - 1].trim().trim_end_matches(',').to_string();
            s = format!("{}({}: {}){}", &s[..i], name, inner, &s[e..]);
        }
        for (n, m) in self.marks.iter().enumerate() {
            let tag = format!("vx_mark!({n});");
            match m {
                Mark::Text(t) => { if let Some(i) = s.find(&tag) { s = format!("{}\n{}{}", &s[..i], t, &s[i + tag.len()..]) } }
                Mark::Sig { id, text } => {
                    let bt = format!("__vxsig{n}");
                    if let Some(i) = s.find(&bt) {
                        let j = i + s[i..].find(';').unwrap();
                        s = format!("{}{}\n// @fn {}\n{};{}", &s[..i], &s[i + bt.len()..j], id, text, &s[j + 1..]);
                    } else if let Some(i) = s.find(&tag) {
                        let j = s[..i].rfind('{').unwrap();
                        s = format!("{}\n// @fn {}\n{}{{{}", &s[..j], id, text, &s[i + tag.len()..]);
                    }
                }
                Mark::Loop(t) | Mark::Closure(t) => {
                    if let Some(i) = s.find(&tag) {
                        let j = s[..i].rfind('{').unwrap();
                        s = format!("{}\n{}{{{}", &s[..j], t, &s[i + tag.len()..]);
                    }
                }
            }
        }
        format!("{attrs}{s}")
    }
}

fn default_body(path: &Path, tr: &str, m: &str) -> Option<syn::ImplItemFn> {
    let ast = syn::parse_file(&std::fs::read_to_string(path).ok()?).ok()?;
    for i in ast.items { if let syn::Item::Trait(t) = i { if t.ident == tr { for x in t.items { if let syn::TraitItem::Fn(f) = x { if f.sig.ident == m {
        let block = f.default?;
        return Some(syn::ImplItemFn { attrs: vec![], vis: syn::Visibility::Inherited, defaultness: None, sig: f.sig, block });
    } } } } } }
    None
}
fn im_has(names: &[String], n: &str) -> bool { names.iter().any(|x| x == n) }

fn subst(mut s: String, it: &Item, id: &str, rep: &mut Report) -> String {
    for (a, b) in &it.subst {
        if !s.contains(a.as_str()) { rep.lost.push(format!("{id}: text `{a}` not found")) }
        s = s.replace(a.as_str(), b);
        *rep.rules.entry(format!("R-subst: `{a}` => `{b}`")).or_default() += 1;
    }
    s
}

/// the impls of Point for concrete types in module `name` of the macro-expanded crate
fn from_expanded(text: &str, name: &str) -> Result<syn::File, String> {
    let mut ast = syn::parse_file(text).map_err(|e| e.to_string())?;
    let m = ast.items.iter_mut().find_map(|i| if let syn::Item::Mod(m) = i { if m.ident == name { m.content.take() } else { None } } else { None }).ok_or("module not found")?;
    ast.items = m.1.into_iter().filter(|i| matches!(i, syn::Item::Impl(im) if im.trait_.as_ref().is_some_and(|t| t.1.segments.last().unwrap().ident == "Point"))).collect();
    Ok(ast)
}

/// `unreachable!()` and panics, after expansion, as a call that must not happen
struct Never<'a>(&'a mut BTreeMap<String, usize>);
impl VisitMut for Never<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        visit_mut::visit_block_mut(self, b);
        if let Some(syn::Stmt::Expr(e, semi)) = b.stmts.last_mut() { if never(e) { *semi = None } }
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Call(c) = e { if c.func.to_token_stream().to_string().replace(' ', "").trim_start_matches("::").starts_with("core::panicking::") {
            *e = syn::parse_quote!(crate::vx::never());
            *self.0.entry("R-never: expanded unreachable!() / panic => a call with precondition false".into()).or_default() += 1;
        } }
    }
}
fn never(e: &syn::Expr) -> bool { e.to_token_stream().to_string().replace(' ', "") == "crate::vx::never()" }

/// `[(); N].map(|p| body)` => a loop over 0..N collecting the bodies
struct ArrayMap<'a>(&'a mut BTreeMap<String, usize>);
impl VisitMut for ArrayMap<'_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<syn::Expr> = None;
        if let syn::Expr::MethodCall(m) = e { if let (true, syn::Expr::Repeat(r), Some(syn::Expr::Closure(c))) = (m.method == "map", &*m.receiver, m.args.first()) {
            if r.expr.to_token_stream().to_string().replace(' ', "") == "()" && matches!(c.inputs.first(), Some(syn::Pat::Wild(_))) {
                let (n, b) = (&r.len, &c.body);
                new = Some(syn::parse_quote!({ let mut vx_m = Vec::new(); for vx_k in 0..#n { vx_m.push(#b); } crate::vx::array_of(vx_m) }));
                *self.0.entry("R-arraymap: [(); N].map(|_| body) => loop over 0..N collecting body".into()).or_default() += 1;
            }
        } }
        if let syn::Expr::Call(c) = e { if c.func.to_token_stream().to_string().replace(' ', "").ends_with("array::from_fn") { if let Some(syn::Expr::Path(g)) = c.args.first() {
            new = Some(syn::parse_quote!({ let mut vx_m = Vec::new(); for vx_k in 0..N { let idx = vx_k; vx_m.push(#g(vx_k)); } crate::vx::array_of(vx_m) }));
            *self.0.entry("R-arraymap: array::from_fn(f) => loop over 0..N collecting f(k)".into()).or_default() += 1;
        } } }
        if let Some(n) = new { *e = n }
    }
}

/// `mut g: impl FnMut(usize) -> X` => `vx_g: &mut VxG`, `VxG: Gen<X>`; `g(e)` => `vx_g.call(e)`
struct GenCalls(String);
impl VisitMut for GenCalls {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Call(c) = e { if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident(&self.0)) { let a = &c.args; *e = syn::parse_quote!(vx_g.call(#a)); } }
    }
}
fn impl_param(a: &syn::FnArg) -> Option<(String, syn::TypeImplTrait)> {
    if let syn::FnArg::Typed(t) = a { if let (syn::Pat::Ident(i), syn::Type::ImplTrait(x)) = (&*t.pat, &*t.ty) { return Some((i.ident.to_string(), x.clone())) } }
    None
}
fn gen_log(sig: &mut syn::Signature, block: &mut syn::Block, counts: &mut BTreeMap<String, usize>) {
    let mut found = None;
    for a in sig.inputs.iter_mut() { if let Some((n, x)) = impl_param(a) {
        if let Some(syn::TypeParamBound::Trait(t)) = x.bounds.first() { if let syn::PathArguments::Parenthesized(p) = &t.path.segments.last().unwrap().arguments { if let syn::ReturnType::Type(_, o) = &p.output { found = Some((n, (**o).clone())); } } }
        *a = syn::parse_quote!(vx_g: &mut VxG);
    } }
    if let Some((n, o)) = found {
        sig.generics.params.push(syn::parse_quote!(VxG: crate::vx::Gen<#o>));
        GenCalls(n).visit_block_mut(block);
        *counts.entry("R-gen: by-value FnMut(usize) -> S => &mut crate::vx::Gen (same calls, ghost log)".into()).or_default() += 1;
    }
}
fn named_impl(sig: &mut syn::Signature, counts: &mut BTreeMap<String, usize>) {
    for a in sig.inputs.iter_mut() { if let Some((_, x)) = impl_param(a) {
        let b = &x.bounds;
        sig.generics.params.push(syn::parse_quote!(VxG: #b));
        if let syn::FnArg::Typed(t) = a { *t.ty = syn::parse_quote!(VxG) }
        *counts.entry("R-implarg: argument of type impl Trait => named type parameter".into()).or_default() += 1;
    } }
}

pub fn emit_file(src: &Path, expanded: Option<&str>, c: &FileC, rep: &mut Report) -> String {
    let mut out = format!("// ==== from {}\nuse crate::all::*;\n{}\n", c.path, c.prelude);
    let path = src.join(&c.path);
    let parsed = if let Some(n) = c.path.strip_prefix("expanded/") { from_expanded(expanded.unwrap_or(""), n.trim_end_matches(".rs")) } else {
        let Ok(text) = std::fs::read_to_string(&path) else { rep.lost.push(format!("{}: file not found", c.path)); return out };
        syn::parse_file(&text).map_err(|e| e.to_string())
    };
    let mut ast = match parsed { Ok(a) => a, Err(e) => { rep.lost.push(format!("{}: parse error {e}", c.path)); return out } };
    if expanded.is_none() || !c.path.starts_with("expanded/") { ast = crate::norm::run(ast, &mut rep.rules) }
    let gone: Vec<String> = crate::inline::run(&mut ast, c, &mut rep.rules).into_iter().map(|k| format!("{}::{k}", c.path)).collect();
    let mut cx = Ctx { src, c, rep, used: Default::default(), marks: vec![] };
    // hoist local items of functions
    let mut queue: Vec<syn::Item> = vec![];
    for it in ast.items {
        hoist(it, &mut queue);
    }
    for item in queue {
        emit_item(&mut cx, item, &mut out);
    }
    cx.rep.unknown.retain(|u| !gone.contains(u));
    for i in &c.items {
        if !cx.used.contains(&i.key) && !i.opts.iter().any(|o| o == "optional") { cx.rep.lost.push(format!("{}: item `{}` not found", c.path, i.key)) }
    }
    out.push_str(&c.postlude);
    out
}

fn hoist(item: syn::Item, queue: &mut Vec<syn::Item>) {
    fn from_block(name: &str, b: &mut syn::Block, queue: &mut Vec<syn::Item>) {
        let mut renames = vec![];
        let mut locals = vec![];
        b.stmts.retain_mut(|s| {
            if let syn::Stmt::Item(i) = s {
                if matches!(i, syn::Item::Use(_)) { return true }
                match i {
                    syn::Item::Fn(f) => { renames.push(f.sig.ident.to_string()) }
                    syn::Item::Struct(x) => renames.push(x.ident.to_string()),
                    _ => {}
                }
                locals.push(i.clone());
                return false;
            }
            true
        });
        for r in &renames {
            let to = format!("{name}__{r}");
            let mut v = Rename { from: r.clone(), to: to.clone() };
            v.visit_block_mut(b);
            for l in locals.iter_mut() {
                v.visit_item_mut(l);
                match l {
                    syn::Item::Fn(f) if f.sig.ident == r.as_str() => f.sig.ident = syn::Ident::new(&to, f.sig.ident.span()),
                    syn::Item::Struct(x) if x.ident == r.as_str() => x.ident = syn::Ident::new(&to, x.ident.span()),
                    _ => {}
                }
            }
        }
        for l in locals { hoist(l, queue) }
    }
    let mut item = item;
    match &mut item {
        syn::Item::Fn(f) => { let n = f.sig.ident.to_string(); if !cfg_out(&f.attrs) { from_block(&n, &mut f.block, queue) } }
        syn::Item::Impl(i) => for x in i.items.iter_mut() { if let syn::ImplItem::Fn(f) = x { let n = f.sig.ident.to_string(); if !cfg_out(&f.attrs) { from_block(&n, &mut f.block, queue) } } },
        _ => {}
    }
    queue.push(item);
}

fn emit_item(cx: &mut Ctx, mut item: syn::Item, out: &mut String) {
    let file = cx.c.path.clone();
    match &mut item {
        // imports: every module sees the same facade (prelude `all`)
        syn::Item::Use(_) => {}
        syn::Item::Fn(f) => {
            if cfg_out(&f.attrs) { return }
            let key = format!("fn {}", f.sig.ident);
            let Some(it) = cx.find(&key) else { cx.rep.unknown.push(format!("{file}::{key}")); return };
            if let Some(r) = &it.drop { cx.rep.dropped.push((format!("{file}::{key}"), r.clone())); return }
            let base = f.clone();
            let copies: Vec<Item> = cx.c.items.iter().filter(|i| i.key.starts_with(&format!("{key}#"))).cloned().collect();
            for it in std::iter::once(it).chain(copies) {
                // a copy `fn f#g` is the same text under a second contract, named g
                let mut f = base.clone();
                let key = it.key.clone();
                cx.used.insert(key.clone());
                if let Some((_, n)) = key.split_once('#') { f.sig.ident = syn::Ident::new(n, f.sig.ident.span()) }
                let mut b = (*f.block).clone();
                let mut sig = f.sig.clone();
                cx.func(&key, &it, &mut sig, Some(&mut b));
                f.sig = sig;
                *f.block = b;
                let mut item = syn::Item::Fn(f);
                Cleanup.visit_item_mut(&mut item);
                let s = cx.finish(&item, &it.attrs);
                let s = subst(s, &it, &key, cx.rep);
                out.push_str(&s);
            }
        }
        syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Type(_) => {
            let (key, attrs) = match &item { syn::Item::Struct(s) => (format!("struct {}", s.ident), &s.attrs), syn::Item::Enum(s) => (format!("enum {}", s.ident), &s.attrs), syn::Item::Type(s) => (format!("type {}", s.ident), &s.attrs), _ => unreachable!() };
            if cfg_out(attrs) { return }
            let it = cx.find(&key).unwrap_or_default();
            if it.key.is_empty() { cx.rep.unknown.push(format!("{file}::{key}")); }
            if let Some(r) = &it.drop { cx.rep.dropped.push((format!("{file}::{key}"), r.clone())); return }
            Cleanup.visit_item_mut(&mut item);
            if let syn::Item::Enum(e) = &mut item { for v in e.variants.iter_mut() { for f in v.fields.iter_mut() { f.vis = syn::Visibility::Inherited } } }
            struct STy<'b>(&'b mut BTreeMap<String, usize>);
            impl VisitMut for STy<'_> { fn visit_type_mut(&mut self, t: &mut syn::Type) { visit_mut::visit_type_mut(self, t); rules::small_vec(t, self.0) } }
            STy(&mut cx.rep.rules).visit_item_mut(&mut item);
            let s = cx.finish(&item, &it.attrs);
            let s = subst(s, &it, &key, cx.rep);
            out.push_str(&s);
        }
        syn::Item::Trait(t) => {
            if cfg_out(&t.attrs) { return }
            let tkey = format!("trait {}", t.ident);
            let Some(tit) = cx.find(&tkey) else { cx.rep.unknown.push(format!("{file}::{tkey}")); return };
            if let Some(r) = &tit.drop { cx.rep.dropped.push((format!("{file}::{tkey}"), r.clone())); return }
            let mut keep = vec![];
            for ti in t.items.drain(..) {
                match ti {
                    syn::TraitItem::Fn(mut f) => {
                        let key = format!("{tkey}::{}", f.sig.ident);
                        let Some(it) = cx.find(&key) else { cx.rep.unknown.push(format!("{file}::{key}")); continue };
                        if let Some(r) = &it.drop { cx.rep.dropped.push((format!("{file}::{key}"), r.clone())); continue }
                        let mut b = f.default.take();
                        let copies: Vec<Item> = cx.c.items.iter().filter(|i| i.key.starts_with(&format!("{key}#"))).cloned().collect();
                        for it in copies {
                            // the default body as a free function over any implementor
                            cx.used.insert(it.key.clone());
                            let Some(body) = b.clone() else { cx.rep.lost.push(format!("{file}::{key}: no default body")); continue };
                            let tn = t.ident.clone();
                            let name = syn::Ident::new(it.key.split_once('#').unwrap().1, f.sig.ident.span());
                            let mut sig = f.sig.clone();
                            sig.ident = name;
                            sig.generics.params.push(syn::parse_quote!(VxSelf: #tn));
                            for a in sig.inputs.iter_mut() { if let syn::FnArg::Receiver(r) = a {
                                *a = match (&r.reference, &r.mutability) { (Some(_), Some(_)) => syn::parse_quote!(vx_self: &mut VxSelf), (Some(_), None) => syn::parse_quote!(vx_self: &VxSelf), _ => syn::parse_quote!(vx_self: VxSelf) };
                            } }
                            let mut ff = syn::ItemFn { attrs: vec![], vis: syn::parse_quote!(pub), sig, block: Box::new(body) };
                            SelfSub { ty: Some(syn::parse_quote!(VxSelf)), assoc: Default::default(), self_ident: true }.visit_item_fn_mut(&mut ff);
                            let mut sig = ff.sig.clone();
                            let mut bb = (*ff.block).clone();
                            cx.func(&it.key, &it, &mut sig, Some(&mut bb));
                            ff.sig = sig;
                            *ff.block = bb;
                            let mut i = syn::Item::Fn(ff);
                            Cleanup.visit_item_mut(&mut i);
                            let s = cx.finish(&i, &it.attrs);
                            let s = subst(s, &it, &it.key, cx.rep);
                            out.push_str(&s);
                        }
                        let nodef = it.opts.iter().any(|o| o == "nodefault");
                        if nodef { b = None }
                        cx.func(&key, &it, &mut f.sig, b.as_mut());
                        f.semi_token = if b.is_none() { Some(Default::default()) } else { None };
                        f.default = b;
                        f.attrs.clear();
                        keep.push(syn::TraitItem::Fn(f));
                    }
                    syn::TraitItem::Type(mut x) => {
                        let key = format!("{tkey}::{}", x.ident);
                        if let Some(it) = cx.find(&key) { if let Some(r) = &it.drop { cx.rep.dropped.push((format!("{file}::{key}"), r.clone())); continue } }
                        x.attrs.clear();
                        keep.push(syn::TraitItem::Type(x));
                    }
                    mut o => { if let syn::TraitItem::Const(c) = &mut o { c.attrs.clear() } keep.push(o) }
                }
            }
            t.items = keep;
            Cleanup.visit_item_mut(&mut item);
            let mut s = cx.finish(&item, &tit.attrs);
            if let Some(sup) = &tit.supertraits {
                // replace the supertrait list
                let i = s.find("trait ").unwrap();
                let j = i + s[i..].find('{').unwrap();
                let head = s[i..j].to_string();
                let name = head.split(|c: char| c == ':' || c == ' ').nth(1).unwrap().to_string();
                s = format!("{}trait {}: {} {}", &s[..i], name, sup, &s[j..]);
            }
            let j = s.find('{').unwrap();
            let s = format!("{}{{\n{}\n{}", &s[..j], tit.extra, &s[j + 1..]);
            let s = subst(s, &tit, &tkey, cx.rep);
            out.push_str(&s);
        }
        syn::Item::Impl(im) => {
            if cfg_out(&im.attrs) { return }
            let self_ty = (*im.self_ty).clone();
            let tk = ty_key(&self_ty);
            let bkey = match &im.trait_ { Some((_, p, _)) => format!("impl {} for {tk}", p.segments.last().unwrap().ident), None => format!("impl {tk}") };
            let bit = if im.trait_.is_some() { cx.find(&bkey) } else { cx.find(&bkey).or(Some(Item::default())) };
            if let Some(r) = bit.as_ref().and_then(|b| b.drop.clone()) { cx.rep.dropped.push((format!("{file}::{bkey}"), r)); return }
            let mut assoc = BTreeMap::new();
            for x in &im.items { if let syn::ImplItem::Type(t) = x { assoc.insert(t.ident.to_string(), t.ty.clone()); } }
            let Some(bit) = bit else {
                cx.rep.unknown.push(format!("{file}::{bkey}"));
                return;
            };
            let names: Vec<String> = im.items.iter().filter_map(|x| if let syn::ImplItem::Fn(f) = x { Some(f.sig.ident.to_string()) } else { None }).collect();
            let trait_impl = im.trait_.is_some() && !bit.opts.iter().any(|o| o == "inherent");
            for o in &bit.opts { if let Some(r) = o.strip_prefix("inherit ") {
                // R-default: a method the impl inherits is spelled out with the trait's default body
                let w: Vec<&str> = r.split_whitespace().collect();
                if im_has(&names, w[2]) { continue }
                match default_body(&cx.src.join(w[0]), w[1], w[2]) {
                    Some(f) => { im.items.push(syn::ImplItem::Fn(f)); *cx.rep.rules.entry("R-default: inherited trait method => the trait's default body, in place".into()).or_default() += 1; }
                    None => cx.rep.lost.push(format!("{file}::{bkey}: no default body for {}", w[2])),
                }
            } }
            let mut keep = vec![];
            let items = std::mem::take(&mut im.items);
            let mut singles: Vec<(syn::ImplItemFn, Item)> = vec![];
            for x in items {
                match x {
                    syn::ImplItem::Fn(mut f) => {
                        if cfg_out(&f.attrs) { continue }
                        f.attrs.clear();
                        let key = format!("{bkey}::{}", f.sig.ident);
                        let Some(it) = cx.find(&key) else { cx.rep.unknown.push(format!("{file}::{key}")); continue };
                        if let Some(r) = &it.drop { cx.rep.dropped.push((format!("{file}::{key}"), r.clone())); continue }
                        let copies: Vec<Item> = cx.c.items.iter().filter(|i| i.key.starts_with(&format!("{key}#"))).cloned().collect();
                        for mut it in copies {
                            // the same body under a second contract, as a free function
                            cx.used.insert(it.key.clone());
                            let name = it.key.split_once('#').unwrap().1.to_string();
                            let mut f = f.clone();
                            SelfSub { ty: None, assoc: assoc.clone(), self_ident: false }.visit_impl_item_fn_mut(&mut f);
                            let (mut b, mut sig) = (f.block.clone(), f.sig.clone());
                            cx.func(&it.key.clone(), &it, &mut sig, Some(&mut b));
                            f.sig = sig;
                            f.block = b;
                            it.free = Some(name);
                            singles.push((f, it));
                        }
                        if !trait_impl || it.free.is_some() { SelfSub { ty: None, assoc: assoc.clone(), self_ident: false }.visit_impl_item_fn_mut(&mut f); }
                        let mut b = f.block.clone();
                        let mut sig = f.sig.clone();
                        cx.func(&key, &it, &mut sig, Some(&mut b));
                        f.sig = sig;
                        f.block = b;
                        if trait_impl && it.free.is_none() { keep.push((syn::ImplItem::Fn(f), it)) } else { singles.push((f, it)) }
                    }
                    o => {
                        if let syn::ImplItem::Type(t) = &o {
                            let key = format!("{bkey}::{}", t.ident);
                            if let Some(it) = cx.find(&key) { if let Some(r) = &it.drop { cx.rep.dropped.push((format!("{file}::{key}"), r.clone())); continue } }
                        }
                        if trait_impl { keep.push((o, Item::default())) }
                    }
                }
            }
            if trait_impl && !bit.opts.iter().any(|o| o == "noblock") {
                let mut blk = im.clone();
                let its: Vec<Item> = keep.iter().map(|k| k.1.clone()).collect();
                blk.items = keep.into_iter().map(|k| k.0).collect();
                let mut i = syn::Item::Impl(blk);
                Cleanup.visit_item_mut(&mut i);
                if let syn::Item::Impl(b) = &mut i { for x in b.items.iter_mut() { match x { syn::ImplItem::Fn(f) => f.vis = syn::Visibility::Inherited, syn::ImplItem::Type(t) => t.vis = syn::Visibility::Inherited, syn::ImplItem::Const(t) => t.vis = syn::Visibility::Inherited, _ => {} } } }
                let mut s = cx.finish(&i, &bit.attrs);
                let j = s.find("{\n").unwrap_or(s.rfind("{").unwrap());
                s = format!("{}{{\n{}\n{}", &s[..j], bit.extra, &s[j + 1..]);
                for it in &its { s = subst(s, it, &bkey, cx.rep) }
                let s = subst(s, &bit, &bkey, cx.rep);
                out.push_str(&s);
            }
            for (f, it) in singles {
                let i: syn::Item = if let Some(name) = &it.free {
                    // method => free function
                    let mut f = f;
                    f.sig.ident = syn::Ident::new(name, f.sig.ident.span());
                    let fi = std::mem::take(&mut f.sig.generics);
                    let mut g = im.generics.clone();
                    let mut lts: Vec<syn::GenericParam> = vec![];
                    let mut rest: Vec<syn::GenericParam> = vec![];
                    for p in g.params.iter().chain(fi.params.iter()) { if matches!(p, syn::GenericParam::Lifetime(_)) { lts.push(p.clone()) } else { rest.push(p.clone()) } }
                    g.params = lts.into_iter().chain(rest).collect();
                    if let Some(w) = fi.where_clause { g.make_where_clause().predicates.extend(w.predicates) }
                    f.sig.generics = g;
                    for a in f.sig.inputs.iter_mut() {
                        if let syn::FnArg::Receiver(r) = a {
                            let t = &self_ty;
                            *a = match (&r.reference, &r.mutability) {
                                (Some(_), Some(_)) => syn::parse_quote!(vx_self: &mut #t),
                                (Some(_), None) => syn::parse_quote!(vx_self: &#t),
                                _ => syn::parse_quote!(vx_self: #t),
                            };
                        }
                    }
                    let mut ff = syn::ItemFn { attrs: vec![], vis: syn::parse_quote!(pub), sig: f.sig, block: Box::new(f.block) };
                    SelfSub { ty: Some(self_ty.clone()), assoc: assoc.clone(), self_ident: true }.visit_item_fn_mut(&mut ff);
                    syn::Item::Fn(ff)
                } else {
                    let mut blk = im.clone();
                    blk.trait_ = None;
                    blk.items = vec![syn::ImplItem::Fn(f)];
                    syn::Item::Impl(blk)
                };
                let mut i = i;
                Cleanup.visit_item_mut(&mut i);
                let mut s = cx.finish(&i, "");
                if !it.attrs.is_empty() {
                    // attributes belong to the function
                    let p = s.find("pub fn").unwrap();
                    s = format!("{}{}{}", &s[..p], it.attrs, &s[p..]);
                }
                let s = subst(s, &it, &it.key, cx.rep);
                out.push_str(&s);
            }
        }
        syn::Item::Mod(_) | syn::Item::Macro(_) | syn::Item::ExternCrate(_) => {}
        syn::Item::Const(_) | syn::Item::Static(_) => { let mut i = item.clone(); Cleanup.visit_item_mut(&mut i); let s = cx.finish(&i, ""); out.push_str(&s) }
        _ => {}
    }
}
