//! eqv TRANSFORM FILE: prints the file with one behaviour-preserving rewrite applied wherever it fits
use quote::{format_ident, quote};
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct V { t: String, n: usize, used: usize, only: Option<usize>, at: usize }
impl V { fn off(&mut self) -> bool { self.at += 1; self.only.is_some_and(|o| o != self.at - 1) } }

fn is_test(a: &[Attribute]) -> bool { a.iter().any(|a| { let s = quote!(#a).to_string(); s.contains("cfg (test)") || s.contains("# [test]") }) }
fn has_let(e: &Expr) -> bool { match e { Expr::Let(_) => true, Expr::Binary(b) => has_let(&b.left) || has_let(&b.right), Expr::Paren(p) => has_let(&p.expr), _ => false } }
fn calls(e: &Expr) -> bool { matches!(e, Expr::Call(_) | Expr::MethodCall(_) | Expr::Binary(_)) }
fn text<T: quote::ToTokens>(e: &T) -> String { quote!(#e).to_string() }
fn impure(s: &str) -> bool { ["& mut", "pop", "push", "next", "split_off", "drain", "take", "swap", "insert", "remove", "extend", "return", "?", "for_each", "=", "clear", "recurse", "visitor", "break", "{"].iter().any(|x| s.contains(x)) }

impl V {
    fn id(&mut self) -> Ident { self.n += 1; self.used += 1; format_ident!("vq_{}", self.n) }
    fn body(&mut self, b: &mut Block, ret: bool) {
        match self.t.as_str() {
            "noop" => { self.used += 1; b.stmts.insert(0, parse_quote!(let _ = ();)); }
            "noop2" => { let i = self.id(); b.stmts.insert(0, parse_quote!(let _ = #i;)); b.stmts.insert(0, parse_quote!(let #i = 0usize;)); }
            "taillet" if ret => if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
                if matches!(e, Expr::MethodCall(_) | Expr::Call(_) | Expr::Binary(_) | Expr::Match(_) | Expr::If(_) | Expr::Struct(_)) {
                    let e = e.clone(); let i = self.id(); b.stmts.pop();
                    b.stmts.push(parse_quote!(let #i = #e;)); b.stmts.push(Stmt::Expr(parse_quote!(#i), None));
                }
            },
            "tailret" if ret => if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
                if !matches!(e, Expr::Return(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) { let e = e.clone(); b.stmts.pop(); self.used += 1; b.stmts.push(parse_quote!(return #e;)); }
            },
            "block" => { self.used += 1; let c = b.clone(); *b = parse_quote!({ #c }); }
            _ => {}
        }
    }
    fn stmts(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let old = std::mem::take(&mut b.stmts);
        let mut it = old.into_iter().peekable();
        while let Some(mut s) = it.next() {
            match self.t.as_str() {
                "hoistarg" => {
                    // f(g(x), y): the arguments that are calls get a name first
                    let mut pre: Vec<Stmt> = vec![];
                    let call = match &mut s { Stmt::Local(Local { init: Some(i), .. }) if i.diverge.is_none() => Some(&mut *i.expr), Stmt::Expr(e, Some(_)) => Some(e), _ => None };
                    if let Some(c) = call {
                        let args = match c { Expr::Call(c) => Some(&mut c.args), Expr::MethodCall(c) if !text(&c.receiver).contains('(') => Some(&mut c.args), _ => None };
                        if let Some(a) = args { for x in a.iter_mut() { if calls(x) && !text(x).contains("& mut") && !text(x).contains("iter") { let i = self.id(); let y = x.clone(); pre.push(parse_quote!(let #i = #y;)); *x = parse_quote!(#i); } } }
                    }
                    out.extend(pre);
                }
                "condlet" => if let Stmt::Expr(Expr::If(i), _) = &mut s {
                    if !has_let(&i.cond) { let v = self.id(); let c = i.cond.clone(); out.push(parse_quote!(let #v = #c;)); i.cond = parse_quote!(#v); }
                },
                "matchlet" => {
                    let e = match &mut s { Stmt::Expr(Expr::Match(m), _) => Some(&mut m.expr), Stmt::Expr(Expr::If(i), _) => match &mut *i.cond { Expr::Let(l) => Some(&mut l.expr), _ => None }, _ => None };
                    if let Some(e) = e { if calls(e) && !text(e).contains("& mut") { let v = self.id(); let c = e.clone(); out.push(parse_quote!(let #v = #c;)); **e = parse_quote!(#v); } }
                },
                "blockstmt" => if let Stmt::Expr(e, Some(_)) = &s { if matches!(e, Expr::MethodCall(_) | Expr::Call(_) | Expr::Assign(_) | Expr::Binary(_)) { let e = e.clone(); self.used += 1; s = Stmt::Expr(parse_quote!({ #e; }), None); } },
                "defer" => if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(i), .. }) = &s {
                    if i.diverge.is_none() && p.mutability.is_none() && p.by_ref.is_none() { let v = p.ident.clone(); let e = i.expr.clone(); self.used += 1; out.push(parse_quote!(let #v;)); s = parse_quote!(#v = #e;); }
                },
                "swaplet" => if let (Stmt::Local(Local { pat: Pat::Ident(p), init: Some(i), .. }), Some(Stmt::Local(Local { pat: Pat::Ident(q), init: Some(j), .. }))) = (&s, it.peek()) {
                    if !impure(&text(&i.expr)) && !impure(&text(&j.expr)) && !text(&j.expr).contains(&p.ident.to_string()) && q.ident != p.ident { self.used += 1; out.push(it.next().unwrap()); }
                },
                "elseafter" => if let Stmt::Expr(Expr::If(i), _) = &s {
                    let ends = matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_) | Expr::Continue(_) | Expr::Break(_), _)));
                    if i.else_branch.is_none() && ends && it.peek().is_some() {
                        let rest: Vec<Stmt> = it.by_ref().collect(); let mut i = i.clone(); self.used += 1;
                        let mut r: Block = parse_quote!({ #(#rest)* }); self.stmts(&mut r);
                        i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: r }))));
                        s = Stmt::Expr(Expr::If(i), None);
                    }
                },
                "splitand" => if let Stmt::Expr(Expr::If(i), semi) = &s { if let (Expr::Binary(c), None) = (&*i.cond, &i.else_branch) { if matches!(c.op, BinOp::And(_)) && !has_let(&i.cond) {
                    let (a, b, t) = (&c.left, &c.right, &i.then_branch); self.used += 1; s = Stmt::Expr(parse_quote!(if #a { if #b #t }), semi.clone());
                } } },
                "inlinelet" => if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(i), .. }) = &s {
                    // let x = pure; S(x)  where x occurs once, in the very next statement
                    if p.mutability.is_none() && p.by_ref.is_none() && i.diverge.is_none() && !impure(&text(&i.expr)) { if let Some(nx) = it.peek().cloned() { let nx = &nx;
                        let rest: Vec<Stmt> = it.clone().skip(1).collect();
                        let name = p.ident.to_string();
                        let count = |s: &str| s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| *w == name).count();
                        let here = text(nx);
                        if count(&here) == 1 && count(&text(&quote!(#(#rest)*))) == 0 && !here.contains("{") && !here.contains("|") && !here.contains(&format!("& {name}")) {
                            let mut n = it.next().unwrap(); let mut sub = Sub { name, e: (*i.expr).clone(), hit: false }; let keep = n.clone(); sub.visit_stmt_mut(&mut n);
                            if sub.hit { self.used += 1; s = n; } else { out.push(s); s = keep; }
                        }
                    } }
                },
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
    }
}
struct Sub { name: String, e: Expr, hit: bool }
impl VisitMut for Sub {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if text(e) == self.name { let x = &self.e; *e = if matches!(x, Expr::Binary(_) | Expr::Unary(_) | Expr::Cast(_) | Expr::Reference(_)) { parse_quote!((#x)) } else { x.clone() }; self.hit = true; return; }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct Ren { map: Vec<String> }
impl VisitMut for Ren {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { self.ren(&mut p.ident); visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_field_pat_mut(&mut self, p: &mut FieldPat) {
        if p.colon_token.is_none() { if let (Member::Named(n), Pat::Ident(i)) = (&p.member, &*p.pat) { if self.map.contains(&n.to_string()) && i.ident == *n { p.colon_token = Some(Default::default()); } } }
        visit_mut::visit_field_pat_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() { if let Member::Named(n) = &f.member { if self.map.contains(&n.to_string()) { f.colon_token = Some(Default::default()); } } }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() { let mut i = p.path.segments[0].ident.clone(); self.ren(&mut i); p.path.segments[0].ident = i; } }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let mut dot = false; let v: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().map(|t| { let was = std::mem::replace(&mut dot, t.to_string() == "."); match t { proc_macro2::TokenTree::Ident(mut i) => { if !was { self.ren(&mut i); } proc_macro2::TokenTree::Ident(i) } t => t } }).collect();
        m.tokens = v.into_iter().collect();
    }
}
impl Ren { fn ren(&self, i: &mut Ident) { if self.map.contains(&i.to_string()) { *i = Ident::new(&format!("{i}_q"), i.span()); } } }
struct Col { v: Vec<String>, closures: bool }
impl<'a> visit::Visit<'a> for Col {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { let s = p.ident.to_string(); if s.chars().next().unwrap().is_lowercase() || s.starts_with('_') { self.v.push(s); } visit::visit_pat_ident(self, p); }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) { if self.closures { visit::visit_expr_closure(self, c); } else { self.visit_expr(&c.body); } }
}

fn pnames(s: &Signature) -> Vec<String> { s.inputs.iter().filter_map(|i| if let FnArg::Typed(t) = i { if let Pat::Ident(p) = &*t.pat { return Some(p.ident.to_string()) } None } else { None }).collect() }
fn rename(b: &mut Block, sig: Option<&mut Signature>, not: Vec<String>) -> usize {
    use syn::visit::Visit;
    let mut c = Col { v: vec![], closures: true }; c.visit_block(b);
    let mut pn: Vec<String> = vec![];
    if let Some(s) = &sig { for i in &s.inputs { if let FnArg::Typed(t) = i { if let Pat::Ident(p) = &*t.pat { pn.push(p.ident.to_string()); } } } }
    let mut map: Vec<String> = c.v.into_iter().filter(|x| x != "self" && !not.contains(x)).collect();
    let mut r = Ren { map: vec![] };
    if let Some(s) = sig { r.map = pn.clone(); map.extend(pn); for i in s.inputs.iter_mut() { if let FnArg::Typed(t) = i { r.visit_pat_mut(&mut t.pat); } } }
    r.map = map; let n = r.map.len();
    r.visit_block_mut(b); n
}

impl VisitMut for V {
    fn visit_item_mut(&mut self, i: &mut Item) {
        let a = match i { Item::Mod(m) => &m.attrs, Item::Fn(f) => &f.attrs, Item::Impl(f) => &f.attrs, Item::Macro(_) => return, _ => { visit_mut::visit_item_mut(self, i); return } };
        if is_test(a) { return; }
        visit_mut::visit_item_mut(self, i);
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        if self.off() { return }
        visit_mut::visit_item_fn_mut(self, f);
        if self.t == "renlocal" { self.used += rename(&mut f.block, None, pnames(&f.sig)); }
        if self.t == "renparam" { self.used += rename(&mut f.block, Some(&mut f.sig), vec![]); }
        self.body(&mut f.block, !matches!(f.sig.output, ReturnType::Default));
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        if self.off() { return }
        visit_mut::visit_impl_item_fn_mut(self, f);
        if self.t == "renlocal" { self.used += rename(&mut f.block, None, pnames(&f.sig)); }
        if self.t == "renparam" { self.used += rename(&mut f.block, Some(&mut f.sig), vec![]); }
        self.body(&mut f.block, !matches!(f.sig.output, ReturnType::Default));
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        if self.off() { return }
        visit_mut::visit_trait_item_fn_mut(self, f);
        if let Some(b) = &mut f.default { if self.t == "renlocal" { self.used += rename(b, None, pnames(&f.sig)); } self.body(b, !matches!(f.sig.output, ReturnType::Default)); }
    }
    fn visit_block_mut(&mut self, b: &mut Block) { visit_mut::visit_block_mut(self, b); self.stmts(b); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match (self.t.as_str(), &*e) {
            ("negif", Expr::If(i)) if !has_let(&i.cond) => match &i.else_branch { Some((_, b)) => if let Expr::Block(b) = &**b { let (c, x, y) = (&i.cond, &b.block, &i.then_branch); Some(parse_quote!(if !(#c) #x else #y)) } else { None }, _ => None },
            ("flipcmp", Expr::Binary(b)) => { let (l, r) = (&b.left, &b.right); match b.op {
                BinOp::Lt(_) => Some(parse_quote!(#r > #l)), BinOp::Gt(_) => Some(parse_quote!(#r < #l)), BinOp::Le(_) => Some(parse_quote!(#r >= #l)), BinOp::Ge(_) => Some(parse_quote!(#r <= #l)), _ => None } }
            ("flipeq", Expr::Binary(b)) => { let (l, r) = (&b.left, &b.right); match b.op { BinOp::Eq(_) => Some(parse_quote!(#r == #l)), BinOp::Ne(_) => Some(parse_quote!(#r != #l)), _ => None } }
            ("negcmp", Expr::Binary(b)) => { let (l, r) = (&b.left, &b.right); match b.op { BinOp::Eq(_) => Some(parse_quote!(!(#l != #r))), BinOp::Ne(_) => Some(parse_quote!(!(#l == #r))), _ => None } }
            ("opassign", Expr::Binary(b)) => { let (l, r) = (&b.left, &b.right); match b.op {
                BinOp::AddAssign(_) => Some(parse_quote!(#l = #l + #r)), BinOp::SubAssign(_) => Some(parse_quote!(#l = #l - #r)), BinOp::MulAssign(_) => Some(parse_quote!(#l = #l * #r)), _ => None } }
            ("commute", Expr::Binary(b)) => { let (l, r) = (&b.left, &b.right); match b.op { BinOp::Add(_) => Some(parse_quote!(#r + #l)), BinOp::Mul(_) => Some(parse_quote!(#r * #l)), _ => None } }
            ("swapand", Expr::Binary(b)) if !has_let(e) => { let (l, r) = (&b.left, &b.right); match b.op { BinOp::And(_) => Some(parse_quote!(#r && #l)), BinOp::Or(_) => Some(parse_quote!(#r || #l)), _ => None } }
            ("andif", Expr::Binary(b)) if !has_let(e) => { let (l, r) = (&b.left, &b.right); match b.op { BinOp::And(_) => Some(parse_quote!((if #l { #r } else { false }))), BinOp::Or(_) => Some(parse_quote!((if #l { true } else { #r }))), _ => None } }
            ("demorgan", Expr::Binary(b)) if !has_let(e) => { let (l, r) = (&b.left, &b.right); match b.op { BinOp::And(_) => Some(parse_quote!(!(!(#l) || !(#r)))), BinOp::Or(_) => Some(parse_quote!(!(!(#l) && !(#r)))), _ => None } }
            ("armswap", Expr::Match(m)) if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
                let s = text(&m.arms[1].pat); if s == "_" || s.chars().next().unwrap().is_lowercase() { None } else { let mut m = m.clone(); for a in m.arms.iter_mut() { a.comma = Some(Default::default()); } m.arms.reverse(); Some(Expr::Match(m)) } }
            ("iflet2match", Expr::If(i)) => if let Expr::Let(l) = &*i.cond { let (p, x, t) = (&l.pat, &l.expr, &i.then_branch); match &i.else_branch { Some((_, b)) => Some(parse_quote!(match #x { #p => #t, _ => #b })), None => Some(parse_quote!(match #x { #p => #t, _ => {} })) } } else { None },
            ("match2iflet", Expr::Match(m)) if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
                let q = &m.arms[1].pat; let s = text(q); if s == "_" || s == "None" { let (p, x, a, b) = (&m.arms[0].pat, &m.expr, &m.arms[0].body, &m.arms[1].body); Some(parse_quote!(if let #p = #x { #a } else { #b })) } else { None } }
            ("loopmatch", Expr::While(w)) if w.label.is_none() => { let (c, b) = (&w.cond, &w.body); if has_let(c) { if let Expr::Let(l) = &**c { let (p, x) = (&l.pat, &l.expr); Some(parse_quote!(loop { if let #p = #x #b else { break; } })) } else { None } } else { Some(parse_quote!(loop { if !(#c) { break; } #b })) } }
            ("whilenext", Expr::ForLoop(f)) if f.label.is_none() => { let v = self.id(); let (p, x, b) = (&f.pat, &f.expr, &f.body); Some(parse_quote!({ let mut #v = (#x).into_iter(); while let Some(#p) = #v.next() #b })) }
            ("question", Expr::Try(t)) => { let x = &t.expr; let s = text(x); if s.contains("visitor") || s.contains("ControlFlow") || s.contains("inner") { None } else { Some(parse_quote!((match #x { Some(vq) => vq, None => return None }))) } }
            ("isempty", Expr::MethodCall(m)) if m.method == "is_empty" => { let r = &m.receiver; Some(parse_quote!((#r.len() == 0))) }
            ("lenzero", Expr::Binary(b)) => match (&*b.left, &b.op, &*b.right) { (Expr::MethodCall(m), BinOp::Eq(_), Expr::Lit(l)) if m.method == "len" && text(l) == "0" => { let r = &m.receiver; Some(parse_quote!(#r.is_empty())) } _ => None },
            ("clblock", Expr::Closure(c)) if !matches!(*c.body, Expr::Block(_)) => { let mut c = c.clone(); let b = &c.body; c.body = Box::new(parse_quote!({ #b })); Some(Expr::Closure(c)) }
            ("ufcs", Expr::MethodCall(m)) if m.turbofish.is_none() => { let me = &m.method; let a = &m.args; let r = &m.receiver; match me.to_string().as_str() {
                "envelope" if a.is_empty() => Some(parse_quote!(RTreeObject::envelope(&#r))),
                "contains_envelope" | "intersects" | "contains_point" | "area" | "merged" | "intersection_area" | "min_max_dist_2" if !text(r).contains("self") && text(r).starts_with("envelope") => Some(parse_quote!(Envelope::#me(&#r, #a))), _ => None } }
            ("deref", Expr::MethodCall(m)) if m.args.is_empty() && m.method == "unwrap" => { let r = &m.receiver; Some(parse_quote!(#r.expect("present"))) }
            ("retunit", Expr::Return(r)) => match &r.expr { Some(x) if calls(x) => { let x = x.clone(); let v = self.id(); Some(parse_quote!({ let #v = #x; return #v; })) } _ => None },
            _ => None,
        };
        if let Some(n) = new { self.used += 1; *e = n; }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut f = parse_file(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    let mut v = V { t: a[1].clone(), n: 0, used: 0, only: std::env::var("EQV_ONLY").ok().map(|x| x.parse().unwrap()), at: 0 };
    v.visit_file_mut(&mut f);
    eprintln!("{} {}", v.at, v.used);
    if v.used > 0 { print!("{}", prettyplease::unparse(&f)); }
}
