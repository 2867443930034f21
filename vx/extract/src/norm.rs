//! Ways of writing the same statements, brought to one form before anything else (R-norm):
//! a block that is only a block, a block statement that declares nothing, `return e` as the last
//! statement of a function, `let x; x = e`, and `let x = e; x` as a tail.
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};

struct Norm { n: usize }

fn words(t: proc_macro2::TokenStream, name: &str) -> bool {
    t.into_iter().any(|x| match x { proc_macro2::TokenTree::Ident(i) => i == name, proc_macro2::TokenTree::Group(g) => words(g.stream(), name), _ => false })
}
fn plain(e: &syn::Expr) -> Option<&syn::ExprBlock> { match e { syn::Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => Some(b), _ => None } }
fn declares(b: &syn::Block) -> bool { b.stmts.iter().any(|s| matches!(s, syn::Stmt::Local(_) | syn::Stmt::Item(_))) }
fn unit(e: &syn::Expr) -> bool { matches!(e, syn::Expr::Assign(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_)) || matches!(e, syn::Expr::If(i) if i.else_branch.is_none()) }
fn name(l: &syn::Local) -> Option<&syn::Ident> {
    let p = match &l.pat { syn::Pat::Type(t) => &*t.pat, p => p };
    match p { syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(&i.ident), _ => None }
}

fn block(e: &syn::Expr) -> syn::Block { match e { syn::Expr::Block(b) if b.label.is_none() => b.block.clone(), syn::Expr::Tuple(t) if t.elems.is_empty() => syn::parse_quote!({}), e => syn::parse_quote!({ #e }) } }
// the iterator is named only to be stepped
fn stepped(l: &syn::Local, w: &syn::ExprWhile, rest: &[syn::Stmt]) -> Option<syn::Expr> {
    let n = name(l)?.to_string();
    let i = l.init.as_ref().filter(|i| i.diverge.is_none())?;
    let syn::Expr::Let(c) = &*w.cond else { return None };
    let syn::Expr::MethodCall(m) = &*c.expr else { return None };
    let syn::Pat::TupleStruct(p) = &*c.pat else { return None };
    let here = matches!(&*m.receiver, syn::Expr::Path(p) if p.path.is_ident(&n)) && m.method == "next" && p.path.is_ident("Some") && p.elems.len() == 1;
    if !here || words(w.body.to_token_stream(), &n) || rest.iter().any(|s| words(s.to_token_stream(), &n)) { return None }
    let e = match &*i.expr { syn::Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => &m.receiver, _ => &i.expr };
    let e = match &**e { syn::Expr::Paren(p) => &p.expr, _ => e };
    let (p, b) = (&p.elems[0], &w.body);
    Some(syn::parse_quote!(for #p in #e #b))
}
fn breaks(b: &syn::Block) -> bool { matches!(&b.stmts[..], [syn::Stmt::Expr(syn::Expr::Break(b), _)] if b.label.is_none() && b.expr.is_none()) }
// loop { if let P = e { .. } else { break } }, loop { if c { break } .. }, loop { let P = e else { break }; .. }
fn looped(l: &syn::ExprLoop) -> Option<syn::Expr> {
    match &l.body.stmts[..] {
        [syn::Stmt::Expr(syn::Expr::If(i), _)] => {
            let (_, e) = i.else_branch.as_ref()?;
            if !breaks(&plain(e)?.block) { return None }
            let (c, b) = (&i.cond, &i.then_branch);
            Some(syn::parse_quote!(while #c #b))
        }
        [syn::Stmt::Expr(syn::Expr::If(i), _), rest @ ..] if i.else_branch.is_none() && breaks(&i.then_branch) && !matches!(&*i.cond, syn::Expr::Let(_)) => {
            let c = match &*i.cond { syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => u.expr.to_token_stream(), c => quote::quote!(!(#c)) };
            Some(syn::parse_quote!(while #c { #(#rest)* }))
        }
        [syn::Stmt::Local(x), rest @ ..] => {
            let i = x.init.as_ref()?;
            let (_, d) = i.diverge.as_ref()?;
            if !breaks(&plain(d)?.block) { return None }
            let (p, e) = (&x.pat, &i.expr);
            Some(syn::parse_quote!(while let #p = #e { #(#rest)* }))
        }
        _ => None,
    }
}

// uses of a variable that only look at it: the root of a chain whose first method is one of these
const LOOKS: [&str; 12] = ["len", "is_empty", "iter", "envelope", "children", "split_at", "get", "first", "last", "nth", "as_slice", "contains_envelope"];
fn only_looked_at(b: &syn::Block, n: &str) -> bool {
    struct Look<'a> { n: &'a str, ok: bool }
    fn root<'e>(e: &'e syn::Expr, n: &str) -> bool { match e { syn::Expr::Path(p) => p.path.is_ident(n), syn::Expr::Field(f) => root(&f.base, n), syn::Expr::Index(i) => root(&i.expr, n), syn::Expr::Paren(p) => root(&p.expr, n), _ => false } }
    impl<'a, 'e> syn::visit::Visit<'e> for Look<'a> {
        fn visit_expr_method_call(&mut self, m: &'e syn::ExprMethodCall) {
            if root(&m.receiver, self.n) && LOOKS.contains(&m.method.to_string().as_str()) {
                let mut e = &*m.receiver;
                loop { match e { syn::Expr::Field(f) => e = &f.base, syn::Expr::Index(i) => { self.visit_expr(&i.index); e = &i.expr } syn::Expr::Paren(p) => e = &p.expr, _ => break } }
                for a in &m.args { self.visit_expr(a) }
            } else { syn::visit::visit_expr_method_call(self, m) }
        }
        fn visit_expr_reference(&mut self, r: &'e syn::ExprReference) {
            let mut e = &*r.expr;
            if r.mutability.is_none() && root(e, self.n) {
                loop { match e { syn::Expr::Field(f) => e = &f.base, syn::Expr::Index(i) => { self.visit_expr(&i.index); e = &i.expr } syn::Expr::Paren(p) => e = &p.expr, _ => break } }
            } else { syn::visit::visit_expr_reference(self, r) }
        }
        fn visit_expr_path(&mut self, p: &'e syn::ExprPath) { if p.path.is_ident(self.n) { self.ok = false } }
        fn visit_macro(&mut self, m: &'e syn::Macro) { if words(m.tokens.clone(), self.n) { self.ok = false } }
    }
    let mut l = Look { n, ok: true };
    syn::visit::visit_block(&mut l, b);
    l.ok
}
fn vars(e: &syn::Expr) -> Vec<String> {
    struct V(Vec<String>);
    impl<'e> syn::visit::Visit<'e> for V { fn visit_expr_path(&mut self, p: &'e syn::ExprPath) { if let Some(i) = p.path.get_ident() { self.0.push(i.to_string()) } } }
    let mut v = V(vec![]);
    syn::visit::visit_expr(&mut v, e);
    v.0
}
// let mut k = a; while k < b { ..; k += 1; }
fn counted(l: &syn::Local, w: &syn::ExprWhile, rest: &[syn::Stmt]) -> Option<syn::Expr> {
    struct Writes<'a> { n: &'a str, hit: bool, top: bool }
    impl<'a, 'e> syn::visit::Visit<'e> for Writes<'a> {
        fn visit_expr_assign(&mut self, a: &'e syn::ExprAssign) { if words(a.left.to_token_stream(), self.n) { self.hit = true } syn::visit::visit_expr_assign(self, a) }
        fn visit_expr_binary(&mut self, b: &'e syn::ExprBinary) { if assigns(&b.op) && words(b.left.to_token_stream(), self.n) { self.hit = true } syn::visit::visit_expr_binary(self, b) }
        fn visit_expr_reference(&mut self, r: &'e syn::ExprReference) { if r.mutability.is_some() && words(r.expr.to_token_stream(), self.n) { self.hit = true } syn::visit::visit_expr_reference(self, r) }
        fn visit_expr_continue(&mut self, _: &'e syn::ExprContinue) { self.hit |= self.top }
        fn visit_macro(&mut self, m: &'e syn::Macro) { if words(m.tokens.clone(), self.n) { self.hit = true } }
    }
    if !matches!(match &l.pat { syn::Pat::Type(t) => &*t.pat, p => p }, syn::Pat::Ident(i) if i.mutability.is_some()) { return None }
    let n = name(l)?.to_string();
    let a = &l.init.as_ref().filter(|i| i.diverge.is_none())?.expr;
    let syn::Expr::Binary(c) = &*w.cond else { return None };
    if !matches!(&*c.left, syn::Expr::Path(p) if p.path.is_ident(&n)) { return None }
    let (last, body) = w.body.stmts.split_last()?;
    let syn::Stmt::Expr(syn::Expr::Binary(step), _) = last else { return None };
    let one = matches!(&*step.right, syn::Expr::Lit(x) if matches!(&x.lit, syn::Lit::Int(i) if i.base10_digits() == "1"));
    if !one || !matches!(step.op, syn::BinOp::AddAssign(_)) || !matches!(&*step.left, syn::Expr::Path(p) if p.path.is_ident(&n)) { return None }
    let inner: syn::Block = syn::parse_quote!({ #(#body)* });
    let mut x = Writes { n: &n, hit: false, top: true };
    syn::visit::visit_block(&mut x, &inner);
    if x.hit || rest.iter().any(|s| words(s.to_token_stream(), &n)) { return None }
    // the bound stays what it is
    struct Calls(bool);
    impl<'e> syn::visit::Visit<'e> for Calls {
        fn visit_expr_method_call(&mut self, m: &'e syn::ExprMethodCall) { if m.method != "len" { self.0 = true } syn::visit::visit_expr_method_call(self, m) }
        fn visit_expr_call(&mut self, _: &'e syn::ExprCall) { self.0 = true }
        fn visit_expr_macro(&mut self, _: &'e syn::ExprMacro) { self.0 = true }
        fn visit_expr_block(&mut self, _: &'e syn::ExprBlock) { self.0 = true }
    }
    let b = &c.right;
    let mut k = Calls(false);
    syn::visit::visit_expr(&mut k, b);
    fn bare(e: &syn::Expr, n: &str) -> bool { match e { syn::Expr::Path(p) => p.path.is_ident(n), syn::Expr::Binary(b) => bare(&b.left, n) || bare(&b.right, n), syn::Expr::Paren(p) => bare(&p.expr, n), _ => false } }
    let kept = |v: &String| { let mut x = Writes { n: v, hit: false, top: false }; syn::visit::visit_block(&mut x, &inner); !x.hit };
    if k.0 || !vars(b).iter().all(|v| *v != n && (v.chars().all(|c| !c.is_lowercase()) || bare(b, v) && kept(v) || only_looked_at(&inner, v))) { return None }
    let i: syn::Ident = quote::format_ident!("{}", n);
    match c.op {
        syn::BinOp::Lt(_) => Some(syn::parse_quote!(for #i in #a..#b #inner)),
        syn::BinOp::Le(_) if words(b.to_token_stream(), "len") => Some(syn::parse_quote!(for #i in #a..=#b #inner)),
        _ => None,
    }
}
fn assigns(o: &syn::BinOp) -> bool { use syn::BinOp::*; matches!(o, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) }
// for i in 0..v.len() { let x = &v[i]; .. }
fn indexed(f: &syn::ExprForLoop) -> Option<syn::Expr> {
    let (syn::Pat::Ident(i), syn::Expr::Range(r)) = (&*f.pat, &*f.expr) else { return None };
    if f.label.is_some() || !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) { return None }
    if !matches!(r.start.as_deref(), Some(syn::Expr::Lit(x)) if matches!(&x.lit, syn::Lit::Int(i) if i.base10_digits() == "0")) { return None }
    let syn::Expr::MethodCall(m) = r.end.as_deref()? else { return None };
    if m.method != "len" || !m.args.is_empty() { return None }
    let v = &m.receiver;
    let (syn::Stmt::Local(l), rest) = f.body.stmts.split_first()? else { return None };
    let x = name(l)?;
    let syn::Expr::Reference(e) = &*l.init.as_ref().filter(|i| i.diverge.is_none())?.expr else { return None };
    let syn::Expr::Index(e) = (if e.mutability.is_none() { &*e.expr } else { return None }) else { return None };
    if e.expr.to_token_stream().to_string() != v.to_token_stream().to_string() || !matches!(&*e.index, syn::Expr::Path(p) if p.path.is_ident(&i.ident)) { return None }
    if !matches!(&**v, syn::Expr::Path(_) | syn::Expr::Field(_)) { return None }
    let i = &i.ident;
    if rest.iter().any(|s| words(s.to_token_stream(), &i.to_string())) { Some(syn::parse_quote!(for (#i, #x) in #v.iter().enumerate() { #(#rest)* })) }
    else { Some(syn::parse_quote!(for #x in #v.iter() { #(#rest)* })) }
}
// for x in e { v.push(f(x)); }
fn pushed(f: &syn::ExprForLoop) -> Option<syn::Expr> {
    if f.label.is_some() { return None }
    let [syn::Stmt::Expr(syn::Expr::MethodCall(m), _)] = &f.body.stmts[..] else { return None };
    if m.method != "push" || m.args.len() != 1 || !matches!(&*m.receiver, syn::Expr::Path(_) | syn::Expr::Field(_)) { return None }
    let syn::Pat::Ident(x) = &*f.pat else { return None };
    let (v, e, x, a) = (&m.receiver, &f.expr, &x.ident, &m.args[0]);
    // the vector is not read while it grows
    if vars(v).iter().any(|n| words(e.to_token_stream(), n) && n != "self" || words(a.to_token_stream(), n)) { return None }
    let named = |e: &syn::Expr| matches!(e, syn::Expr::Path(p) if p.path.is_ident(x));
    let own = matches!(&**e, syn::Expr::Path(_) | syn::Expr::Field(_));
    match a {
        a if named(a) && own => Some(syn::parse_quote!(#v.extend(#e))),
        syn::Expr::Call(c) if c.args.len() == 1 && named(&c.args[0]) && own && matches!(&*c.func, syn::Expr::Path(_)) => { let g = &c.func; Some(syn::parse_quote!(#v.extend(#e.into_iter().map(#g)))) }
        _ => None,
    }
}
// v.iter().fold(a, |mut x, y| { ..; x }), as a tail or as the value of `out`
fn folded(e: &syn::Expr, out: Option<&syn::Local>) -> Option<Vec<syn::Stmt>> {
    let syn::Expr::MethodCall(m) = e else { return None };
    if m.method != "fold" || m.args.len() != 2 { return None }
    if !matches!(&*m.receiver, syn::Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty()) { return None }
    let (v, a) = (&m.receiver, &m.args[0]);
    let syn::Expr::Closure(f) = &m.args[1] else { return None };
    if f.inputs.len() != 2 || words(f.body.to_token_stream(), "return") { return None }
    let syn::Pat::Ident(x) = (match &f.inputs[0] { syn::Pat::Type(t) => &*t.pat, p => p }) else { return None };
    let (x, y) = (&x.ident, match &f.inputs[1] { syn::Pat::Type(t) => &*t.pat, p => p });
    let mut body: Vec<syn::Stmt> = match &*f.body {
        syn::Expr::Block(b) if matches!(b.block.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Path(p), None)) if p.path.is_ident(x)) => b.block.stmts[..b.block.stmts.len() - 1].to_vec(),
        b => vec![syn::parse_quote!(#x = #b;)],
    };
    let Some(l) = out else { return Some(vec![syn::parse_quote!(let mut #x = #a;), syn::parse_quote!(for #y in #v { #(#body)* }), syn::Stmt::Expr(syn::parse_quote!(#x), None)]) };
    let o = name(l)?;
    if !l.attrs.is_empty() || (o != x && body.iter().any(|s| words(s.to_token_stream(), &o.to_string()))) || words(v.to_token_stream(), &o.to_string()) { return None }
    struct Ren<'a>(&'a syn::Ident, &'a syn::Ident);
    impl<'a> VisitMut for Ren<'a> { fn visit_ident_mut(&mut self, i: &mut syn::Ident) { if i == self.0 { *i = self.1.clone() } } }
    for s in &mut body { if has_macro(s) { return None } Ren(x, o).visit_stmt_mut(s) }
    let t = match &l.pat { syn::Pat::Type(t) => { let t = &t.ty; quote::quote!(: #t) } _ => quote::quote!() };
    Some(vec![syn::parse_quote!(let mut #o #t = #a;), syn::parse_quote!(for #y in #v { #(#body)* })])
}
fn has_macro(s: &syn::Stmt) -> bool {
    struct M(bool);
    impl<'e> syn::visit::Visit<'e> for M { fn visit_macro(&mut self, _: &'e syn::Macro) { self.0 = true } }
    let mut m = M(false);
    syn::visit::visit_stmt(&mut m, s);
    m.0
}

fn negated(c: &syn::Expr) -> proc_macro2::TokenStream { match c { syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => u.expr.to_token_stream(), c => quote::quote!(!(#c)) } }
fn goes_on(b: &syn::Block) -> bool { matches!(&b.stmts[..], [syn::Stmt::Expr(syn::Expr::Continue(b), _)] if b.label.is_none()) }
// in a loop's body: if c { continue } rest
fn guarded(b: &syn::Block) -> Option<syn::Block> {
    for (i, s) in b.stmts.iter().enumerate() {
        let (head, rest) = (&b.stmts[..i], &b.stmts[i + 1..]);
        match s {
            syn::Stmt::Expr(syn::Expr::If(c), _) if c.else_branch.is_none() && goes_on(&c.then_branch) && !matches!(&*c.cond, syn::Expr::Let(_)) && !rest.is_empty() => {
                let n = negated(&c.cond);
                return Some(syn::parse_quote!({ #(#head)* if #n { #(#rest)* } }));
            }
            syn::Stmt::Local(l) if l.attrs.is_empty() && !rest.is_empty() => if let Some(x) = &l.init { if let Some((_, d)) = &x.diverge { if plain(d).is_some_and(|d| goes_on(&d.block)) {
                let (p, e) = (&l.pat, &x.expr);
                return Some(syn::parse_quote!({ #(#head)* if let #p = #e { #(#rest)* } }));
            } } },
            _ => {}
        }
    }
    None
}
// loop { let x = e?; .. } or loop { match e? { .. } } as what a function returning an Option ends with
fn asks(l: &syn::ExprLoop) -> Option<syn::Expr> {
    struct Brk(bool);
    impl<'a> syn::visit::Visit<'a> for Brk {
        fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) { self.0 = true }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut k = Brk(false);
    syn::visit::visit_block(&mut k, &l.body);
    if k.0 || l.label.is_some() || !l.attrs.is_empty() { return None }
    let q = |e: &syn::Expr| match e { syn::Expr::Try(t) => Some((*t.expr).clone()), _ => None };
    match &l.body.stmts[..] {
        [syn::Stmt::Local(x), rest @ ..] if x.attrs.is_empty() => {
            let e = q(&*x.init.as_ref().filter(|i| i.diverge.is_none())?.expr)?;
            let p = match &x.pat { syn::Pat::Type(t) => &*t.pat, p => p };
            Some(syn::parse_quote!(while let Some(#p) = #e { #(#rest)* }))
        }
        [syn::Stmt::Expr(syn::Expr::Match(m), semi)] if m.attrs.is_empty() => {
            let e = q(&m.expr)?;
            let mut m = m.clone();
            m.expr = Box::new(syn::parse_quote!(vx_asked));
            Some(syn::parse_quote!(while let Some(vx_asked) = #e { #m #semi }))
        }
        _ => None,
    }
}
fn optional(s: &syn::Signature) -> bool { matches!(&s.output, syn::ReturnType::Type(_, t) if matches!(&**t, syn::Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Option"))) }
// a value that is only named
fn named(e: &syn::Expr) -> bool { match e { syn::Expr::Path(_) | syn::Expr::Lit(_) => true, syn::Expr::Field(f) => named(&f.base), syn::Expr::Reference(r) => named(&r.expr), syn::Expr::Paren(p) => named(&p.expr), syn::Expr::Tuple(t) => t.elems.iter().all(named), _ => false } }

// the variants along a pattern with at most one refutable place per level, outermost first
fn variants(p: &syn::Pat) -> Option<Vec<String>> {
    fn go(p: &syn::Pat, out: &mut Vec<String>) -> bool {
        fn inner<'a>(ps: impl Iterator<Item = &'a syn::Pat>, out: &mut Vec<String>) -> bool {
            let mut n = 0;
            for p in ps {
                if matches!(p, syn::Pat::Wild(_) | syn::Pat::Rest(_)) || matches!(p, syn::Pat::Ident(i) if i.subpat.is_none() && !i.ident.to_string().starts_with(char::is_uppercase)) { continue }
                n += 1;
                if n > 1 || !go(p, out) { return false }
            }
            true
        }
        match p {
            syn::Pat::Ident(i) if i.subpat.is_none() && i.ident.to_string().starts_with(char::is_uppercase) => { out.push(i.ident.to_string()); true }
            syn::Pat::Path(x) => { out.push(x.path.segments.last().unwrap().ident.to_string()); true }
            syn::Pat::TupleStruct(t) => { out.push(t.path.segments.last().unwrap().ident.to_string()); inner(t.elems.iter(), out) }
            syn::Pat::Struct(t) => { out.push(t.path.segments.last().unwrap().ident.to_string()); inner(t.fields.iter().map(|f| &*f.pat), out) }
            syn::Pat::Reference(r) => go(&r.pat, out),
            _ => false,
        }
    }
    let mut v = vec![];
    if go(p, &mut v) && !v.is_empty() { Some(v) } else { None }
}
// an iterator that is named only to be handed on in the next statement
fn handed_on(l: &syn::Local, next: &syn::Stmt, rest: &[syn::Stmt]) -> Option<syn::Stmt> {
    const LAZY: [&str; 12] = ["take_while", "map", "filter", "zip", "chain", "rev", "enumerate", "skip", "take", "cloned", "iter", "into_iter"];
    struct Put { name: String, e: syn::Expr, hit: usize }
    impl VisitMut for Put {
        fn visit_expr_mut(&mut self, e: &mut syn::Expr) { if matches!(e, syn::Expr::Path(p) if p.path.is_ident(&self.name)) { *e = self.e.clone(); self.hit += 1 } else { visit_mut::visit_expr_mut(self, e) } }
        fn visit_block_mut(&mut self, _: &mut syn::Block) {}
        fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
    }
    if !l.attrs.is_empty() || matches!(&l.pat, syn::Pat::Ident(i) if i.mutability.is_some()) { return None }
    let n = name(l)?.to_string();
    let i = l.init.as_ref().filter(|i| i.diverge.is_none())?;
    if !matches!(&*i.expr, syn::Expr::MethodCall(m) if LAZY.contains(&m.method.to_string().as_str())) { return None }
    fn count(t: proc_macro2::TokenStream, n: &str) -> usize { t.into_iter().map(|x| match x { proc_macro2::TokenTree::Ident(i) => (i == n) as usize, proc_macro2::TokenTree::Group(g) => count(g.stream(), n), _ => 0 }).sum() }
    if count(next.to_token_stream(), &n) != 1 || rest.iter().any(|s| words(s.to_token_stream(), &n)) { return None }
    let mut p = Put { name: n, e: (*i.expr).clone(), hit: 0 };
    let mut s = next.clone();
    p.visit_stmt_mut(&mut s);
    if p.hit == 1 { Some(s) } else { None }
}

fn leaves(t: proc_macro2::TokenStream) -> bool {
    t.into_iter().any(|x| match x { proc_macro2::TokenTree::Ident(i) => i == "return" || i == "break" || i == "continue", proc_macro2::TokenTree::Punct(p) => p.as_char() == '?', proc_macro2::TokenTree::Group(g) => leaves(g.stream()), _ => false })
}
fn truth(e: &syn::Expr) -> Option<bool> { match e { syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Bool(b), .. }) => Some(b.value), _ => None } }
/// for i in a..b { if c { return t; } } !t   =>   (a..b).all(|i| !c), (a..b).any(|i| c)
fn quantified(f: &syn::ExprForLoop, last: &syn::Expr) -> Option<syn::Expr> {
    let syn::Expr::Range(r) = &*f.expr else { return None };
    if f.label.is_some() || !f.attrs.is_empty() || r.start.is_none() || r.end.is_none() { return None }
    let [syn::Stmt::Expr(syn::Expr::If(i), _)] = &f.body.stmts[..] else { return None };
    let [syn::Stmt::Expr(syn::Expr::Return(x), _)] = &i.then_branch.stmts[..] else { return None };
    let (t, u) = (truth(x.expr.as_ref()?)?, truth(last)?);
    if t == u || i.else_branch.is_some() || leaves(i.cond.to_token_stream()) || matches!(&*i.cond, syn::Expr::Let(_)) { return None }
    let (p, c) = (&f.pat, &i.cond);
    if t { Some(syn::parse_quote!((#r).any(|#p| #c))) } else { let n = negated(c); Some(syn::parse_quote!((#r).all(|#p| #n))) }
}
/// let mut s = x; for i in a..b { s = e; } s   =>   (a..b).fold(x, |s, i| e)
fn gathered(l: &syn::Local, f: &syn::ExprForLoop, last: &syn::Expr) -> Option<syn::Expr> {
    let syn::Expr::Range(r) = &*f.expr else { return None };
    if f.label.is_some() || !f.attrs.is_empty() || r.start.is_none() || r.end.is_none() || !l.attrs.is_empty() { return None }
    let (n, x) = (name(l)?, l.init.as_ref().filter(|x| x.diverge.is_none())?);
    let [syn::Stmt::Expr(syn::Expr::Assign(a), _)] = &f.body.stmts[..] else { return None };
    let is = |e: &syn::Expr| matches!(e, syn::Expr::Path(p) if p.path.is_ident(n));
    if !is(&a.left) || !is(last) || leaves(a.right.to_token_stream()) || words(r.to_token_stream(), &n.to_string()) { return None }
    let (x, p, e) = (&x.expr, &f.pat, &a.right);
    Some(syn::parse_quote!((#r).fold(#x, |#n, #p| #e)))
}

/// the block ends in `return x;`: the block with `x` as its value
fn returns(b: &syn::Block) -> Option<syn::Block> {
    let mut b = b.clone();
    match b.stmts.pop()? {
        syn::Stmt::Expr(syn::Expr::Return(syn::ExprReturn { expr: Some(e), attrs, .. }), _) if attrs.is_empty() => b.stmts.push(syn::Stmt::Expr(*e, None)),
        syn::Stmt::Expr(e @ syn::Expr::If(_), _) => { let e = all_return(&e)?; b.stmts.push(syn::Stmt::Expr(e, None)) }
        _ => return None,
    }
    Some(b)
}
fn all_return(e: &syn::Expr) -> Option<syn::Expr> {
    match e {
        syn::Expr::If(i) => {
            let mut i = i.clone();
            i.then_branch = returns(&i.then_branch)?;
            let (t, x) = i.else_branch.take()?;
            i.else_branch = Some((t, Box::new(all_return(&x)?)));
            Some(syn::Expr::If(i))
        }
        syn::Expr::Block(b) if b.label.is_none() => { let mut b = b.clone(); b.block = returns(&b.block)?; Some(syn::Expr::Block(b)) }
        _ => None,
    }
}
/// every branch returns but the last one, which is missing: `rest` in its place
fn with_rest(i: &syn::ExprIf, rest: &syn::Block) -> Option<syn::ExprIf> {
    let mut i = i.clone();
    i.then_branch = returns(&i.then_branch)?;
    let e: syn::Expr = match i.else_branch.take() {
        None => syn::parse_quote!(#rest),
        Some((_, x)) => match &*x { syn::Expr::If(n) => syn::Expr::If(with_rest(n, rest)?), _ => return None },
    };
    i.else_branch = Some((Default::default(), Box::new(e)));
    Some(i)
}
/// if c { return x; } y   =>   if c { x } else { y }, as the value of a body
pub fn one_exit(b: &mut syn::Block) -> bool {
    let mut hit = false;
    if let Some(syn::Stmt::Expr(e @ syn::Expr::If(_), _)) = b.stmts.last() {
        if let Some(n) = all_return(e) { b.stmts.pop(); b.stmts.push(syn::Stmt::Expr(n, None)); hit = true }
    }
    if !matches!(b.stmts.last(), Some(syn::Stmt::Expr(_, None))) { return hit }
    let mut k = b.stmts.len() - 1;
    while k > 0 {
        k -= 1;
        let rest = syn::Block { brace_token: Default::default(), stmts: b.stmts[k + 1..].to_vec() };
        let n = match &b.stmts[k] { syn::Stmt::Expr(syn::Expr::If(i), _) => with_rest(i, &rest), _ => None };
        if let Some(n) = n { b.stmts.truncate(k); b.stmts.push(syn::Stmt::Expr(syn::Expr::If(n), None)); hit = true }
    }
    hit
}

impl Norm {
    fn guards(&mut self, b: &mut syn::Block) {
        while let Some(n) = guarded(b) { *b = n; self.n += 1; }
        // what the body ends with
        if let Some(syn::Stmt::Expr(e, _)) = b.stmts.last_mut() { self.last(e) }
    }
    fn last(&mut self, e: &mut syn::Expr) {
        match e {
            syn::Expr::If(i) => { self.guards(&mut i.then_branch); if let Some((_, x)) = &mut i.else_branch { self.last(x) } }
            syn::Expr::Match(m) => for a in m.arms.iter_mut() { self.last(&mut a.body) },
            syn::Expr::Block(b) if b.label.is_none() => self.guards(&mut b.block),
            syn::Expr::Continue(c) if c.label.is_none() => { *e = syn::parse_quote!({}); self.n += 1 }
            _ => {}
        }
    }
    fn body(&mut self, s: &syn::Signature, b: &mut syn::Block) {
        if let (Some(syn::Stmt::Expr(syn::Expr::Loop(l), None)), true) = (b.stmts.last(), optional(s)) {
            if let Some(w) = asks(l) {
                b.stmts.pop();
                b.stmts.push(syn::Stmt::Expr(w, None));
                b.stmts.push(syn::Stmt::Expr(syn::parse_quote!(None), None));
                self.n += 1;
            }
        }
        let k = b.stmts.len();
        if k >= 2 {
            if let (syn::Stmt::Expr(syn::Expr::ForLoop(f), _), syn::Stmt::Expr(e, None)) = (&b.stmts[k - 2], &b.stmts[k - 1]) {
                let one = quantified(f, e);
                let two = if k >= 3 { match &b.stmts[k - 3] { syn::Stmt::Local(l) => gathered(l, f, e), _ => None } } else { None };
                if let Some(x) = two { b.stmts.truncate(k - 3); b.stmts.push(syn::Stmt::Expr(x, None)); self.n += 1; }
                else if let Some(x) = one { b.stmts.truncate(k - 2); b.stmts.push(syn::Stmt::Expr(x, None)); self.n += 1; }
            }
        }
        if let Some(syn::Stmt::Expr(syn::Expr::Return(r), _)) = b.stmts.last() {
            if let (Some(e), true) = (&r.expr, r.attrs.is_empty()) {
                let e = (**e).clone();
                b.stmts.pop();
                b.stmts.push(syn::Stmt::Expr(e, None));
                self.n += 1;
                self.tail(b);
            }
        }
    }
    fn tail(&mut self, b: &mut syn::Block) {
        let k = b.stmts.len();
        if k < 2 { return }
        let e = match (&b.stmts[k - 2], &b.stmts[k - 1]) {
            (syn::Stmt::Local(l), syn::Stmt::Expr(syn::Expr::Path(p), None)) if l.attrs.is_empty() => match (&l.pat, &l.init) {
                (syn::Pat::Ident(i), Some(init)) if i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() && init.diverge.is_none() && p.path.is_ident(&i.ident) => (*init.expr).clone(),
                _ => return,
            },
            _ => return,
        };
        b.stmts.truncate(k - 2);
        b.stmts.push(syn::Stmt::Expr(e, None));
        self.n += 1;
    }
}
impl VisitMut for Norm {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // { { .. } }
        while let [syn::Stmt::Expr(e, None)] = &b.stmts[..] {
            let Some(x) = plain(e) else { break };
            let inner = x.block.stmts.clone();
            b.stmts = inner;
            self.n += 1;
        }
        let mut out: Vec<syn::Stmt> = vec![];
        let k = b.stmts.len();
        for (i, s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            match s {
                // { e; } among statements
                syn::Stmt::Expr(ref e, ref semi) if plain(e).is_some_and(|x| !declares(&x.block) && !x.block.stmts.is_empty()) && (i + 1 < k || semi.is_some() || !matches!(plain(e).unwrap().block.stmts.last(), Some(syn::Stmt::Expr(_, None)))) => {
                    for x in plain(e).unwrap().block.stmts.clone() {
                        out.push(match x { syn::Stmt::Expr(e, None) if !unit(&e) => syn::Stmt::Expr(e, Some(Default::default())), x => x });
                    }
                    self.n += 1;
                }
                // let x; x = e;
                syn::Stmt::Expr(syn::Expr::Assign(a), semi) => {
                    let same = matches!((out.last(), &*a.left), (Some(syn::Stmt::Local(l)), syn::Expr::Path(p)) if l.init.is_none() && l.attrs.is_empty() && name(l).is_some_and(|n| p.path.is_ident(n) && !words(a.right.to_token_stream(), &n.to_string())));
                    if same && a.attrs.is_empty() {
                        if let Some(syn::Stmt::Local(l)) = out.last_mut() { l.init = Some(syn::LocalInit { eq_token: Default::default(), expr: a.right, diverge: None }) }
                        self.n += 1;
                    } else { out.push(syn::Stmt::Expr(syn::Expr::Assign(a), semi)) }
                }
                s => out.push(s),
            }
        }
        // let it = v.iter().map(f); w.extend(it);
        let mut i = 0;
        while i + 1 < out.len() {
            let new = match &out[i] { syn::Stmt::Local(l) => handed_on(l, &out[i + 1], &out[i + 2..]), _ => None };
            match new { Some(s) => { out.splice(i..i + 2, [s]); self.n += 1; } None => i += 1 }
        }
        // let mut it = e; while let Some(p) = it.next() { .. }
        let mut i = 0;
        while i + 1 < out.len() {
            let new = match (&out[i], &out[i + 1]) {
                (syn::Stmt::Local(l), syn::Stmt::Expr(syn::Expr::While(w), _)) if l.attrs.is_empty() && w.label.is_none() => stepped(l, w, &out[i + 2..]).or_else(|| counted(l, w, &out[i + 2..])),
                _ => None,
            };
            if let Some(f) = new { out.splice(i..i + 2, [syn::Stmt::Expr(f, None)]); self.n += 1; }
            i += 1;
        }
        if let Some(syn::Stmt::Expr(e, None)) = out.last() {
            if let Some(s) = folded(e, None) { out.pop(); out.extend(s); self.n += 1; }
        }
        let mut i = 0;
        while i < out.len() {
            let new = match &out[i] { syn::Stmt::Local(l) => l.init.as_ref().filter(|x| x.diverge.is_none()).and_then(|x| folded(&x.expr, Some(l))), _ => None };
            if let Some(s) = new { out.splice(i..i + 1, s); self.n += 1; }
            i += 1;
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
        let k = b.stmts.len();
        for s in b.stmts.iter_mut().take(k.saturating_sub(1)) { if let syn::Stmt::Expr(syn::Expr::MethodCall(_), semi @ None) = s { *semi = Some(Default::default()) } }
        self.tail(b);
    }
    fn visit_item_fn_mut(&mut self, f: &mut syn::ItemFn) { visit_mut::visit_item_fn_mut(self, f); self.body(&f.sig, &mut f.block) }
    fn visit_impl_item_fn_mut(&mut self, f: &mut syn::ImplItemFn) { visit_mut::visit_impl_item_fn_mut(self, f); self.body(&f.sig, &mut f.block) }
    fn visit_trait_item_fn_mut(&mut self, f: &mut syn::TraitItemFn) { visit_mut::visit_trait_item_fn_mut(self, f); if let Some(b) = &mut f.default { self.body(&f.sig, b) } }
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
        if let Some(x) = plain(&c.body) { if let ([syn::Stmt::Expr(e, None)], syn::ReturnType::Default) = (&x.block.stmts[..], &c.output) { let e = e.clone(); *c.body = e; self.n += 1 } }
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        match e {
            syn::Expr::ForLoop(l) => self.guards(&mut l.body),
            syn::Expr::While(l) => self.guards(&mut l.body),
            syn::Expr::Loop(l) => self.guards(&mut l.body),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            // match x { P => a, _ => b }
            syn::Expr::Match(m) if m.attrs.is_empty() && m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none() && a.attrs.is_empty()) && matches!(&m.arms[1].pat, syn::Pat::Wild(_)) => {
                let (p, x, a) = (&m.arms[0].pat, &m.expr, block(&m.arms[0].body));
                let b = block(&m.arms[1].body);
                if matches!(p, syn::Pat::Wild(_) | syn::Pat::Lit(_) | syn::Pat::Range(_)) { None }
                else if b.stmts.is_empty() { Some(syn::parse_quote!(if let #p = #x #a)) } else { Some(syn::parse_quote!(if let #p = #x #a else #b)) }
            }
            // arms that exclude one another: one order
            syn::Expr::Match(m) if m.arms.len() > 1 && m.arms.iter().all(|a| a.guard.is_none() && a.attrs.is_empty()) => {
                let hs: Vec<Option<Vec<String>>> = m.arms.iter().map(|a| variants(&a.pat)).collect();
                let apart = |a: &Vec<String>, b: &Vec<String>| a.iter().zip(b).any(|(x, y)| x != y);
                if hs.iter().all(|h| h.is_some()) && (0..hs.len()).all(|i| (0..i).all(|j| apart(hs[i].as_ref().unwrap(), hs[j].as_ref().unwrap()))) {
                    let mut arms: Vec<(Vec<String>, syn::Arm)> = hs.into_iter().map(|h| h.unwrap()).zip(m.arms.iter().cloned()).collect();
                    let before: Vec<Vec<String>> = arms.iter().map(|a| a.0.clone()).collect();
                    arms.sort_by(|a, b| a.0.cmp(&b.0));
                    if arms.iter().zip(&before).any(|(a, b)| a.0 != *b) {
                        let mut m = m.clone();
                        m.arms = arms.into_iter().map(|(_, mut a)| { a.comma = Some(Default::default()); a }).collect();
                        Some(syn::Expr::Match(m))
                    } else { None }
                } else { None }
            }
            syn::Expr::Loop(l) if l.label.is_none() && l.attrs.is_empty() => looped(l),
            syn::Expr::ForLoop(f) if f.attrs.is_empty() => indexed(f).or_else(|| pushed(f)).or_else(|| match &*f.expr {
                syn::Expr::MethodCall(m) if m.method == "children" && m.args.is_empty() => { let mut f = f.clone(); *f.expr = syn::parse_quote!(#m.iter()); Some(syn::Expr::ForLoop(f)) }
                _ => None,
            }),
            // c.then_some(x), c.then(|| x)
            syn::Expr::MethodCall(m) if m.args.len() == 1 && m.turbofish.is_none() => {
                let (c, x) = (&m.receiver, &m.args[0]);
                match x {
                    _ if m.method == "then_some" && named(x) => Some(syn::parse_quote!(if #c { Some(#x) } else { None })),
                    syn::Expr::Closure(f) if m.method == "then" && f.inputs.is_empty() && !words(f.body.to_token_stream(), "return") => { let b = &f.body; Some(syn::parse_quote!(if #c { Some(#b) } else { None })) }
                    syn::Expr::MethodCall(i) if m.method == "extend" && i.method == "iter" && i.args.is_empty() && matches!(&*i.receiver, syn::Expr::Field(f) if matches!(&f.member, syn::Member::Named(n) if n == "children")) => {
                        let mut m = m.clone();
                        let v = &i.receiver;
                        m.args[0] = syn::parse_quote!(&#v);
                        Some(syn::Expr::MethodCall(m))
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new { *e = n; self.n += 1 }
    }
    fn visit_item_mut(&mut self, i: &mut syn::Item) { if !matches!(i, syn::Item::Macro(_)) { visit_mut::visit_item_mut(self, i) } }
}

pub fn run(ast: syn::File, counts: &mut BTreeMap<String, usize>) -> syn::File {
    let mut x = ast.clone();
    let mut v = Norm { n: 0 };
    v.visit_file_mut(&mut x);
    if v.n == 0 { return ast }
    // printed and read again, so that the positions are those of the new text
    match syn::parse_file(&prettyplease::unparse(&x)) {
        Ok(y) => { *counts.entry("R-norm: equivalent statement forms brought to one".into()).or_default() += v.n; y }
        Err(_) => ast,
    }
}
