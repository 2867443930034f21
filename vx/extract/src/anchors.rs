//! Insertion of marker statements at contract anchors, on the original AST.
use proc_macro2::LineColumn;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};

pub type Pos = (usize, usize);
fn p(l: LineColumn) -> Pos { (l.line, l.column) }

struct Calls { name: String, found: Vec<Pos> }
impl<'a> Visit<'a> for Calls {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        let mut hit = |s: proc_macro2::Span| self.found.push(p(s.start()));
        match e {
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(x) = &*c.func {
                    let seg = x.path.segments.last().unwrap();
                    if seg.ident == self.name { hit(seg.ident.span()) }
                }
            }
            syn::Expr::MethodCall(m) => if m.method == self.name { hit(m.method.span()) },
            syn::Expr::If(x) => if self.name == "if" { hit(x.if_token.span) },
            syn::Expr::Match(x) => if self.name == "match" { hit(x.match_token.span) },
            syn::Expr::Return(x) => if self.name == "return" { hit(x.return_token.span) },
            syn::Expr::Continue(x) => if self.name == "continue" { hit(x.continue_token.span) },
            syn::Expr::Break(x) => if self.name == "break" { hit(x.break_token.span) },
            syn::Expr::Assign(x) => if self.name == "assign" { hit(x.eq_token.span) },
            syn::Expr::Try(x) => if self.name == "?" { hit(x.question_token.span) },
            syn::Expr::Struct(x) => if x.path.segments.last().unwrap().ident == self.name { hit(x.path.segments.last().unwrap().ident.span()) },
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let Some(n) = self.name.strip_prefix("let:") {
            struct Ids<'b>(&'b str, bool);
            impl<'b> Visit<'b> for Ids<'_> { fn visit_pat_ident(&mut self, i: &'b syn::PatIdent) { if i.ident == self.0 { self.1 = true } visit::visit_pat_ident(self, i) } }
            let mut ids = Ids(n, false);
            ids.visit_pat(&l.pat);
            if ids.1 { self.found.push(p(l.let_token.span.start())) }
        }
        visit::visit_local(self, l);
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        if self.name.strip_prefix("arm:").is_some_and(|h| heads(&a.pat, h)) { self.found.push(p(a.fat_arrow_token.spans[0].start())) }
        visit::visit_arm(self, a);
    }
    fn visit_expr_if(&mut self, i: &'a syn::ExprIf) {
        if let (Some(h), syn::Expr::Let(l)) = (self.name.strip_prefix("arm:"), &*i.cond) { if heads(&l.pat, h) { self.found.push(p(i.then_branch.brace_token.span.open().start())) } }
        visit::visit_expr_if(self, i);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let i = &m.path.segments.last().unwrap().ident;
        if *i == self.name { self.found.push(p(i.span().start())) }
    }
}
// a pattern that names the variant h somewhere; `*` is a pattern that names none
fn heads(pat: &syn::Pat, h: &str) -> bool {
    struct Segs(Vec<String>);
    impl<'b> Visit<'b> for Segs {
        fn visit_path(&mut self, p: &'b syn::Path) { self.0.push(p.segments.last().unwrap().ident.to_string()) }
        fn visit_pat_ident(&mut self, i: &'b syn::PatIdent) { let n = i.ident.to_string(); if n.starts_with(char::is_uppercase) { self.0.push(n) } visit::visit_pat_ident(self, i) }
    }
    let mut s = Segs(vec![]);
    s.visit_pat(pat);
    if h == "*" { s.0.is_empty() } else { s.0.iter().any(|x| x == h) }
}
trait StartEnd { fn start(&self) -> LineColumn; }
impl StartEnd for LineColumn { fn start(&self) -> LineColumn { *self } }

struct Insert { pos: Pos, before: bool, mark: Option<syn::Stmt>, tail_mark: usize, arm: bool }
fn within(sp: proc_macro2::Span, pos: Pos) -> bool { p(sp.start()) <= pos && pos < p(sp.end()) }

impl VisitMut for Insert {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        visit_mut::visit_block_mut(self, b);
        if self.mark.is_none() || self.arm { return }
        for i in 0..b.stmts.len() {
            if within(b.stmts[i].span(), self.pos) {
                let m = self.mark.take().unwrap();
                if self.before { b.stmts.insert(i, m); return; }
                if i + 1 == b.stmts.len() {
                    if let syn::Stmt::Expr(e, None) = &b.stmts[i] {
                        let diverge = matches!(e, syn::Expr::Return(_) | syn::Expr::Continue(_) | syn::Expr::Break(_));
                        let unit = matches!(e, syn::Expr::While(_) | syn::Expr::ForLoop(_));
                        if !diverge && !unit {
                            let e = e.clone();
                            b.stmts[i] = syn::parse_quote!(let vx_r = #e;);
                            b.stmts.push(m);
                            b.stmts.push(syn::Stmt::Expr(syn::parse_quote!(vx_r), None));
                            return;
                        }
                    }
                }
                b.stmts.insert(i + 1, m);
                return;
            }
        }
    }
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        if self.arm && self.mark.is_some() && p(a.fat_arrow_token.spans[0].start()) == self.pos {
            let m = self.mark.take().unwrap();
            match &mut *a.body {
                syn::Expr::Block(b) if b.label.is_none() => b.block.stmts.insert(0, m),
                e => { let x = e.clone(); *e = syn::parse_quote!({ #m #x }) }
            }
            return;
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_if_mut(&mut self, i: &mut syn::ExprIf) {
        if self.arm && self.mark.is_some() && p(i.then_branch.brace_token.span.open().start()) == self.pos {
            let m = self.mark.take().unwrap();
            i.then_branch.stmts.insert(0, m);
            return;
        }
        visit_mut::visit_expr_if_mut(self, i);
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

/// spec: "before NAME k" | "after NAME k"; returns false if the anchor is lost
pub fn insert(block: &mut syn::Block, resolved: &(bool, Pos, bool), mark: syn::Stmt) -> bool {
    let mut ins = Insert { pos: resolved.1, before: resolved.0, mark: Some(mark), tail_mark: 0, arm: resolved.2 };
    ins.visit_block_mut(block);
    let _ = ins.tail_mark;
    ins.mark.is_none()
}

pub fn resolve(block: &syn::Block, name: &str, k: usize) -> Option<Pos> {
    let mut c = Calls { name: name.to_string(), found: vec![] };
    c.visit_block(block);
    c.found.sort();
    c.found.get(k).copied()
}
