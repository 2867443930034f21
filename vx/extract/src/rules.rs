//! The desugaring rules. Each application is counted in the report.
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};

pub struct Rules<'a> {
    pub counts: &'a mut BTreeMap<String, usize>,
    pub opts: Vec<String>,
    pub ref_args: Vec<String>, // parameters whose type is a reference
    pub next: usize,
    pub cf: bool, // the function returns a ControlFlow
    pub drain_vars: Vec<String>, // locals that hold a drain iterator
    pub lost: Vec<String>,
}

fn arg_recv(r: &Rules, recv: &syn::Expr, mutable: bool) -> syn::Expr {
    // pass a receiver by (mutable) reference, unless it is a parameter that is already a reference
    if let syn::Expr::Path(p) = recv {
        if let Some(i) = p.path.get_ident() {
            if r.ref_args.iter().any(|x| i == x) { return recv.clone(); }
        }
    }
    if let syn::Expr::Reference(_) = recv { return recv.clone(); }
    if mutable { syn::parse_quote!(&mut #recv) } else { syn::parse_quote!(&#recv) }
}

fn ctor_closure(r: &mut Rules, e: &syn::Expr) -> syn::Expr {
    if let syn::Expr::Path(p) = e {
        if p.path.segments.last().unwrap().ident.to_string().starts_with(char::is_uppercase) {
            r.hit("R-ctor: constructor used as a function value => closure");
            return syn::parse_quote!(|vx_a| #p(vx_a));
        }
    }
    e.clone()
}

// an expression that makes a drain iterator
fn is_drain(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Call(c) => if let syn::Expr::Path(p) = &*c.func {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            s.len() >= 2 && s[s.len() - 2] == "DrainIterator" && s[s.len() - 1] == "new"
        } else { false },
        syn::Expr::MethodCall(m) => { let n = m.method.to_string(); n.starts_with("drain_") || n == "drain" && m.args.is_empty() }
        _ => false,
    }
}
// an iterator held in a local, or made in place
fn own_iter(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().is_some_and(|i| i != "self"),
        syn::Expr::Struct(_) => true,
        syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if p.path.segments.last().unwrap().ident == "new"),
        _ => false,
    }
}
struct RefPat<'a>(&'a mut Vec<syn::Ident>);
impl VisitMut for RefPat<'_> {
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        if let syn::Pat::Reference(r) = p { if let syn::Pat::Ident(i) = &*r.pat { if i.by_ref.is_none() && i.subpat.is_none() {
            self.0.push(i.ident.clone());
            let n = quote::format_ident!("vx_r_{}", i.ident);
            *p = syn::parse_quote!(#n);
            return;
        } } }
        visit_mut::visit_pat_mut(self, p);
    }
}
struct HasReturn(bool);
impl<'a> syn::visit::Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
// no binding that could write through the matched place
fn read_only(p: &syn::Pat) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
            if i.mutability.is_some() || (i.by_ref.is_none() && !i.ident.to_string().starts_with(char::is_uppercase)) { self.0 = false }
            syn::visit::visit_pat_ident(self, i);
        }
    }
    let mut v = V(true);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}
struct StripRef;
impl VisitMut for StripRef { fn visit_pat_ident_mut(&mut self, i: &mut syn::PatIdent) { i.by_ref = None; visit_mut::visit_pat_ident_mut(self, i) } }

impl Rules<'_> {
    fn drains(&self, e: &syn::Expr) -> bool { is_drain(e) || matches!(e, syn::Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.drain_vars.iter().any(|v| i == v))) }
    fn hit(&mut self, r: &str) { *self.counts.entry(r.to_string()).or_default() += 1; }
    fn has(&self, o: &str) -> bool { self.opts.iter().any(|x| x == o) }
}

fn method<'e>(e: &'e syn::Expr, name: &str) -> Option<&'e syn::ExprMethodCall> {
    if let syn::Expr::MethodCall(m) = e { if m.method == name { return Some(m) } }
    None
}

impl VisitMut for Rules<'_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        // R-foreach: X.iter().for_each(|c| body)  =>  for c in X.iter() { body }
        if let Some(m) = method(e, "for_each") {
            if let (1, Some(syn::Expr::Closure(c))) = (m.args.len(), m.args.first()) {
                let pat = c.inputs.first().cloned().unwrap();
                let body = (*c.body).clone();
                let it = (*m.receiver).clone();
                self.hit("R-foreach: iter().for_each(closure) => for loop");
                let blk: syn::Block = match body { syn::Expr::Block(b) => b.block, b => syn::parse_quote!({ #b; }) };
                *e = syn::parse_quote!(for #pat in #it #blk);
            }
        }
        // R-own: v.extend(it.take_while(|p| c).map(|p| x))
        if let Some(m) = method(e, "extend") { if let Some(mm) = m.args.first().and_then(|a| method(a, "map")) { if let Some(tw) = method(&mm.receiver, "take_while") {
            if let (true, syn::Expr::Closure(c), syn::Expr::Closure(w)) = (own_iter(&tw.receiver), &mm.args[0], &tw.args[0]) {
                let (v, it) = (&m.receiver, &tw.receiver);
                let (p1, b1, p2, b2) = (w.inputs.first().cloned().unwrap(), &w.body, c.inputs.first().cloned().unwrap(), &c.body);
                self.hit("R-own: v.extend(it.take_while(..).map(..)) over the crate's own iterator => loop over it.next()");
                *e = syn::parse_quote!({ let mut vx_it = #it; while let Some(vx_x) = vx_it.next() { let vx_c = { let #p1 = &vx_x; #b1 }; if !vx_c { break; } let #p2 = vx_x; #v.push(#b2); } });
            }
        } } }
        // R-option: combinators of Option with a closure => match
        if self.has("option_match") {
            if let syn::Expr::MethodCall(m) = e {
                let n = m.method.to_string();
                let r = &m.receiver;
                let mut new: Option<syn::Expr> = None;
                if let (1, Some(syn::Expr::Closure(c))) = (m.args.len(), m.args.first()) {
                    let b = &c.body;
                    if n == "or_else" && c.inputs.is_empty() { new = Some(syn::parse_quote!(match #r { Some(vx_v) => Some(vx_v), None => #b })) }
                    if n == "map" && c.inputs.len() == 1 { let p = c.inputs.first().unwrap(); new = Some(syn::parse_quote!(match #r { Some(#p) => Some(#b), None => None })) }
                    if n == "and_then" && c.inputs.len() == 1 { let p = c.inputs.first().unwrap(); new = Some(syn::parse_quote!(match #r { Some(#p) => #b, None => None })) }
                }
                if n == "unwrap_or_default" { new = Some(syn::parse_quote!(match #r { Some(vx_v) => vx_v, None => Vec::new() })) }
                if let Some(x) = new { self.hit("R-option: Option::map / or_else / and_then / unwrap_or_default (of a Vec) => match"); *e = x; }
            }
        }
        // R-own: the crate's own iterators, consumed by std adaptors
        if let Some(m) = method(e, "extend") { if let Some(mm) = m.args.first().and_then(|a| method(a, "map")) {
            if let (true, syn::Expr::Closure(c)) = (own_iter(&mm.receiver), &mm.args[0]) {
                let (v, it, pat, body) = (&m.receiver, &mm.receiver, c.inputs.first().cloned().unwrap(), &c.body);
                self.hit("R-own: v.extend(it.map(|p| e)) over the crate's own iterator => loop over it.next()");
                *e = syn::parse_quote!({ let mut vx_it = #it; while let Some(#pat) = vx_it.next() { #v.push(#body); } });
            }
        } else if let Some(a) = m.args.first() { if own_iter(a) && self.has("for_path_iter") {
            let v = &m.receiver;
            self.hit("R-own: v.extend(it) over the crate's own iterator => loop over it.next()");
            *e = syn::parse_quote!({ let mut vx_it = #a; while let Some(vx_x) = vx_it.next() { #v.push(vx_x); } });
        } } }
        if let Some(m) = method(e, "collect") { if own_iter(&m.receiver) {
            let it = &m.receiver;
            self.hit("R-own: it.collect() over the crate's own iterator => loop over it.next()");
            *e = syn::parse_quote!({ let mut vx_it = #it; let mut vx_v = Vec::new(); while let Some(vx_x) = vx_it.next() { vx_v.push(vx_x); } vx_v });
        } }
        if let syn::Expr::ForLoop(f) = e { if (matches!(&*f.expr, syn::Expr::Path(_)) || method(&f.expr, "filter").is_some()) && self.has("for_path_takes") {
            let (it, pat, stmts) = (&f.expr, &f.pat, &f.body.stmts);
            let o = quote::format_ident!("vx_o{}", self.next);
            self.hit("R-for: for x in w (by value) => take the elements out one by one");
            let mut w: syn::ExprWhile = syn::parse_quote!(while #o.len() > 0 { let #pat = crate::vx::take_first(&mut #o); #(#stmts)* });
            w.label = f.label.clone();
            *e = syn::parse_quote!({ let mut #o = #it; #w });
        } }
        if let syn::Expr::ForLoop(f) = e { if own_iter(&f.expr) && self.has("for_whole_items") {
            let (it, pat, stmts) = (&f.expr, &f.pat, &f.body.stmts);
            self.hit("R-own: for p in it over the crate's own iterator => loop over it.next()");
            let mut w: syn::ExprWhile = syn::parse_quote!(while let Some(vx_x) = vx_it.next() { let #pat = vx_x; #(#stmts)* });
            w.label = f.label.clone();
            *e = syn::parse_quote!({ let mut vx_it = #it; #w });
        } }
        if let syn::Expr::ForLoop(f) = e { if own_iter(&f.expr) && self.has("for_path_iter") {
            let (it, pat, b) = (&f.expr, &f.pat, &f.body);
            self.hit("R-own: for p in it over the crate's own iterator => loop over it.next()");
            let mut w: syn::ExprWhile = syn::parse_quote!(while let Some(#pat) = vx_it.next() #b);
            w.label = f.label.clone();
            *e = syn::parse_quote!({ let mut vx_it = #it; #w });
        } }
        // R-matchref: a match through &mut that only reads
        if let syn::Expr::Match(m) = e {
            if let syn::Expr::Reference(r) = &mut *m.expr {
                if r.mutability.is_some() && m.arms.iter().all(|a| read_only(&a.pat)) {
                    r.mutability = None;
                    for a in m.arms.iter_mut() { StripRef.visit_pat_mut(&mut a.pat) }
                    self.hit("R-matchref: match &mut e { patterns without mutable bindings } => match &e");
                }
            }
        }
        // R-drop: a drain iterator that is used up within an expression
        if let syn::Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            let src = match &*m.receiver {
                syn::Expr::MethodCall(t) if t.method == "take" && t.args.first().map(|a| a.to_token_stream().to_string()).as_deref() == Some("1") && matches!(n.as_str(), "last" | "next") => Some((*t.receiver).clone()),
                x if n == "next" && is_drain(x) => Some(x.clone()),
                _ => None,
            };
            if let Some(x) = src { if self.drains(&x) {
                self.hit("R-drop: D.take(1).last() / D.next() on a drain iterator => next, then the Drop code");
                *e = syn::parse_quote!({ let mut vx_it = #x; let vx_first = vx_it.next(); crate::algorithm::removal::drain_drop(&mut vx_it); vx_first });
                return;
            } }
        }
        // R-formut: for x in v.iter_mut() => take the references out one by one
        if let syn::Expr::ForLoop(f) = e {
            if let Some(it) = method(&f.expr, "iter_mut") {
                let b = it.receiver.clone();
                let m = quote::format_ident!("vx_m{}", self.next);
                let (label, pat, stmts) = (f.label.clone(), (*f.pat).clone(), f.body.stmts.clone());
                self.hit("R-formut: for x in v.iter_mut() => loop over the vector of its element references");
                let mut w: syn::ExprWhile = syn::parse_quote!(while #m.len() > 0 { let #pat = crate::vx::take_first(&mut #m); #(#stmts)* });
                w.label = label;
                *e = syn::parse_quote!({ let mut #m = crate::vx::collect_mut(&mut #b); #w });
                visit_mut::visit_expr_mut(self, e);
                self.next += 1;
                return;
            }
        }
        // R-for: loops over slices become index loops
        if let syn::Expr::ForLoop(f) = e {
            let x = (*f.expr).clone();
            let k = self.next;
            self.next += 1;
            let iv = quote::format_ident!("vx_i{}", k);
            let sv = quote::format_ident!("vx_s{}", k);
            let label = f.label.clone();
            let pat = (*f.pat).clone();
            let mut new: Option<syn::Expr> = None;
            if let Some(en) = method(&x, "enumerate") {
                if let (Some(it), syn::Pat::Tuple(t)) = (method(&en.receiver, "iter"), &pat) {
                    let (p0, p1) = (&t.elems[0], &t.elems[1]);
                    let base = &it.receiver;
                    let stmts = &f.body.stmts;
                    self.hit("R-for: for (i, x) in v.iter().enumerate() => index loop");
                    new = Some(syn::parse_quote!({ let #sv = &#base; #label for #iv in 0..#sv.len() { let #p0 = #iv; let #p1 = &#sv[#iv]; #(#stmts)* } }));
                }
            } else {
                let base: Option<syn::Expr> = if let Some(it) = method(&x, "iter") {
                    let b = &it.receiver;
                    Some(syn::parse_quote!(&#b))
                } else if let syn::Expr::Reference(r) = &x {
                    if r.mutability.is_none() { Some(x.clone()) } else { None }
                } else if matches!(x, syn::Expr::Path(_)) && !self.has("for_path_consumes") {
                    Some(x.clone())
                } else { None };
                if let Some(b) = base {
                    let stmts = &f.body.stmts;
                    self.hit("R-for: for x in v.iter() / &v / slice => index loop");
                    new = Some(syn::parse_quote!({ let #sv = #b; #label for #iv in 0..#sv.len() { let #pat = &#sv[#iv]; #(#stmts)* } }));
                }
            }
            if let Some(n) = new {
                *e = n;
                // the inner loop is now a plain range loop; visit its body only
                if let syn::Expr::Block(b) = e {
                    for s in b.block.stmts.iter_mut() {
                        if let syn::Stmt::Expr(syn::Expr::ForLoop(l), _) = s { for st in l.body.stmts.iter_mut() { self.visit_stmt_mut(st) } }
                    }
                }
                return;
            }
            // ranges and consuming loops stay as they are; an unnamed counter gets a name
            if let (syn::Expr::Range(_), syn::Pat::Wild(_), syn::Expr::ForLoop(f)) = (&x, &pat, &mut *e) {
                let kv = quote::format_ident!("vx_k{}", k);
                self.hit("R-for: for _ in range => named counter");
                *f.pat = syn::parse_quote!(#kv);
            }
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        if matches!(e, syn::Expr::While(_) | syn::Expr::Loop(_)) { self.next += 1; }
        if let (syn::Expr::Try(t), true) = (&*e, self.cf) {
            let x = &t.expr;
            self.hit("R-try: e? in a ControlFlow function => match");
            *e = syn::parse_quote!(match #x { ControlFlow::Continue(vx_c) => vx_c, ControlFlow::Break(vx_b) => return ControlFlow::Break(vx_b) });
        }
        // R-float: a size hint computed in floating point is some usize
        if let syn::Expr::Cast(c) = e {
            let src = c.expr.to_token_stream().to_string();
            if c.ty.to_token_stream().to_string() == "usize" && (src.contains("as f32") || src.contains("as f64")) {
                self.hit("R-float: a usize computed in floating point => some usize");
                *e = syn::parse_quote!(crate::vx::some_usize());
            }
        }
        // R-any: it.any(|p| body) => loop over next()
        if let Some(m) = method(e, "any") { if let (1, Some(syn::Expr::Closure(c))) = (m.args.len(), m.args.first()) {
            let (r, p, b) = (&m.receiver, c.inputs.first().cloned().unwrap(), &c.body);
            self.hit("R-any: it.any(|p| body) => loop over it.next()");
            *e = syn::parse_quote!({ let mut vx_it = #r; let mut vx_any = false; while let Some(#p) = vx_it.next() { if #b { vx_any = true; break; } } vx_any });
        } }
        visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Struct(st) = e {
            let names: Vec<String> = self.opts.iter().filter_map(|o| o.strip_prefix("addr_field ").map(String::from)).collect();
            for f in st.fields.iter_mut() {
                if let syn::Member::Named(n) = &f.member { if names.iter().any(|x| n == x) {
                    let v = &f.expr;
                    f.expr = syn::parse_quote!(crate::vx::addr(#v));
                    f.colon_token = Some(Default::default());
                    self.hit("R-addr: &T coerced to *const T => crate::vx::addr");
                } }
            }
        }
        if let syn::Expr::MethodCall(m) = e {
            let bv = self.opts.iter().find(|o| o.starts_with("break_visitor")).cloned();
            if let Some(o) = bv { for a in m.args.iter_mut() { if let syn::Expr::Path(p) = a {
                let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
                if s.ends_with(&["ControlFlow".to_string(), "Break".to_string()]) {
                    let v = quote::format_ident!("{}", if o.ends_with("mut") { "BreakVisitorMut" } else { "BreakVisitor" });
                    *a = syn::parse_quote!(crate::vx::#v::new());
                    self.hit("R-visitor: ControlFlow::Break as a visitor => crate::vx::BreakVisitor");
                }
            } } }
        }
        let mut new: Option<syn::Expr> = None;
        if let syn::Expr::MethodCall(m) = e {
            let recv = &*m.receiver;
            let args = &m.args;
            match m.method.to_string().as_str() {
                "sort_unstable_by" | "select_nth_unstable_by" => {
                    let f = quote::format_ident!("{}", m.method.to_string());
                    let r = arg_recv(self, recv, true);
                    self.hit("R-std: slice sort/select => crate::vx contract function");
                    new = Some(syn::parse_quote!(crate::vx::#f(#r, #args)));
                }
                "is_none_or" => {
                    let a = &args[0];
                    self.hit("R-std: Option::is_none_or(F) => match");
                    new = Some(syn::parse_quote!(match #recv { None => true, Some(vx_v) => #a(vx_v) }));
                }
                "filter" if args.len() == 1 && method(recv, "iter").is_some() => {
                    let (src, f) = (&method(recv, "iter").unwrap().receiver, &args[0]);
                    self.hit("R-iter: w.iter().filter(F) => crate::vx::filter_slice(w, F), evaluated in place");
                    new = Some(syn::parse_quote!(crate::vx::filter_slice(#src, #f)));
                }
                "extend" if args.len() == 1 && self.has("heap_extend") => {
                    if let Some(mm) = method(&args[0], "map") { if let Some(ii) = method(&mm.receiver, "iter") {
                        let (src, f) = (&ii.receiver, &mm.args[0]);
                        self.hit("R-iter: h.extend(w.iter().map(F)) => h.extend(crate::vx::map_slice(w, F))");
                        new = Some(syn::parse_quote!(#recv.extend(crate::vx::map_slice(#src, #f))));
                    } }
                }
                "extend" if args.len() == 1 && !self.has("keep_extend") => {
                    let a = &args[0];
                    let r = arg_recv(self, recv, true);
                    if let Some(mm) = method(a, "map") {
                        if let Some(ii) = method(&mm.receiver, "into_iter") {
                            let (src, f) = (&ii.receiver, &ctor_closure(self, &mm.args[0]));
                            self.hit("R-iter: v.extend(w.into_iter().map(F)) => crate::vx::extend_map");
                            new = Some(syn::parse_quote!(crate::vx::extend_map(#r, #src, #f)));
                        } else if let Some(ii) = method(&mm.receiver, "iter") {
                            let (src, f) = (&ii.receiver, &mm.args[0]);
                            self.hit("R-iter: v.extend(w.iter().map(F)) => crate::vx::extend_map_ref");
                            new = Some(syn::parse_quote!(crate::vx::extend_map_ref(#r, &#src, #f)));
                        }
                    } else if let Some(ff) = method(a, "filter") {
                        if let Some(ii) = method(&ff.receiver, "iter") {
                            let (src, f) = (&ii.receiver, &ff.args[0]);
                            self.hit("R-iter: v.extend(w.iter().filter(F)) => extend with crate::vx::filter_slice(w, F)");
                            new = Some(syn::parse_quote!(crate::vx::extend_vec(#r, crate::vx::filter_slice(#src, #f))));
                        }
                    } else if let syn::Expr::Reference(x) = a {
                        if x.mutability.is_none() {
                            self.hit("R-iter: v.extend(&w) => crate::vx::extend_ref");
                            new = Some(syn::parse_quote!(crate::vx::extend_ref(#r, #a)));
                        } else {
                            self.hit("R-iter: v.extend(&mut w) => crate::vx::extend_mut");
                            new = Some(syn::parse_quote!(crate::vx::extend_mut(#r, #a)));
                        }
                    } else {
                        self.hit("R-iter: v.extend(w) => crate::vx::extend_vec");
                        new = Some(syn::parse_quote!(crate::vx::extend_vec(#r, #a)));
                    }
                }
                "collect" => {
                    if let Some(mm) = method(recv, "map") {
                        if let Some(ii) = method(&mm.receiver, "into_iter") {
                            let (src, f) = (&ii.receiver, &ctor_closure(self, &mm.args[0]));
                            self.hit("R-iter: v.into_iter().map(F).collect() => crate::vx::collect_map");
                            new = Some(syn::parse_quote!(crate::vx::collect_map(#src, #f)));
                        }
                    } else if let Some(ii) = method(recv, "iter") {
                        let src = &ii.receiver;
                        self.hit("R-iter: v.iter().collect() => crate::vx::collect_ref");
                        new = Some(syn::parse_quote!(crate::vx::collect_ref(&#src)));
                    } else if let Some(ii) = method(recv, "iter_mut") {
                        let src = &ii.receiver;
                        self.hit("R-iter: v.iter_mut().collect() => crate::vx::collect_mut");
                        new = Some(syn::parse_quote!(crate::vx::collect_mut(&mut #src)));
                    } else if let Some(ii) = method(recv, "drain") {
                        if let Some(syn::Expr::Range(rg)) = ii.args.first() {
                            if let (Some(st), None) = (&rg.start, &rg.end) {
                                let r = arg_recv(self, &ii.receiver, true);
                                self.hit("R-iter: v.drain(k..).collect() => crate::vx::drain_tail");
                                new = Some(syn::parse_quote!(crate::vx::drain_tail(#r, #st)));
                            }
                        }
                    }
                }
                "all" | "fold" if matches!(recv, syn::Expr::Paren(p) if matches!(&*p.expr, syn::Expr::Range(_))) => {
                    if let syn::Expr::Paren(p) = recv { if let syn::Expr::Range(rg) = &*p.expr {
                        let zero = matches!(rg.start.as_deref(), Some(syn::Expr::Lit(l)) if l.to_token_stream().to_string() == "0");
                        if let (true, Some(en), syn::RangeLimits::HalfOpen(_)) = (zero, &rg.end, &rg.limits) {
                            let f = quote::format_ident!("range_{}", m.method.to_string());
                            self.hit("R-iter: (0..n).all(F) / .fold(a, F) => crate::vx::range_all / range_fold");
                            new = Some(syn::parse_quote!(crate::vx::#f(#en, #args)));
                        }
                    } }
                }
                "fold" if method(recv, "into_iter").is_some() => {
                    let src = &method(recv, "into_iter").unwrap().receiver;
                    self.hit("R-iter: x.into_iter().fold(a, F) => crate::vx::iter_fold");
                    new = Some(syn::parse_quote!(crate::vx::iter_fold(#src, #args)));
                }
                "into" if args.is_empty() && self.has("into_some") => {
                    self.hit("R-into: x.into() returning Option => Some(x)");
                    new = Some(syn::parse_quote!(Some(#recv)));
                }
                "div_ceil" => {
                    let a = &args[0];
                    self.hit("R-std: usize::div_ceil => crate::vx::div_ceil");
                    new = Some(syn::parse_quote!(crate::vx::div_ceil(#recv, #a)));
                }
                "last_mut" if args.is_empty() => {
                    self.hit("R-std: Vec::last_mut => crate::vx::last_mut");
                    let r = arg_recv(self, recv, true);
                    new = Some(syn::parse_quote!(crate::vx::last_mut(#r)));
                }
                "split_first" if args.is_empty() => {
                    self.hit("R-std: slice::split_first => crate::vx::split_first");
                    new = Some(syn::parse_quote!(crate::vx::split_first(#recv)));
                }
                "shrink_to_fit" => {
                    self.hit("R-std: Vec::shrink_to_fit => crate::vx::shrink_to_fit");
                    let r = arg_recv(self, recv, true);
                    new = Some(syn::parse_quote!(crate::vx::shrink_to_fit(#r)));
                }
                "max" if args.len() == 1 => {
                    let a = &args[0];
                    self.hit("R-std: usize::max => crate::vx::umax");
                    new = Some(syn::parse_quote!(crate::vx::umax(#recv, #a)));
                }
                "clone" if args.is_empty() && self.has("clone_pure") => {
                    let r = arg_recv(self, recv, false);
                    self.hit("R-clone: x.clone() => crate::vx::clone (assumed to return an equal value)");
                    new = Some(syn::parse_quote!(crate::vx::clone(#r)));
                }
                "swap" if args.len() == 2 => {
                    let r = arg_recv(self, recv, true);
                    self.hit("R-std: slice::swap => crate::vx::vec_swap");
                    new = Some(syn::parse_quote!(crate::vx::vec_swap(#r, #args)));
                }
                _ => {}
            }
        }
        if let syn::Expr::Call(c) = e {
            if let syn::Expr::Paren(pf) = &*c.func { if let syn::Expr::Field(_) = &*pf.expr {
                let (f, args) = (&pf.expr, &c.args);
                self.hit("R-visitor: (x.visitor)(t) => x.visitor.call(t)");
                new = Some(syn::parse_quote!(#f.call(#args)));
            } }
            if let syn::Expr::Path(p) = &*c.func {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let args = &c.args;
                let last = segs.last().unwrap().as_str();
                let n = segs.len();
                let f = match (n >= 2).then(|| segs[n - 2].as_str()) {
                    Some("mem") => match last { "replace" => Some("mem_replace"), "take" => Some("mem_take"), "swap" => Some("mem_swap"), _ => None },
                    Some("ptr") if last == "eq" => Some("ptr_eq"),
                    _ if n == 1 && last == "replace" && args.len() == 2 => Some("mem_replace"),
                    _ if n == 1 && last == "take" && args.len() == 1 => Some("mem_take"),
                    Some("Default") if last == "default" && self.has("phantom_default") => { self.hit("R-phantom: Default::default() => PhantomData"); new = Some(syn::parse_quote!(core::marker::PhantomData)); None }
                    Some("Envelope") if matches!(last, "sort_envelopes" | "partition_envelopes") => Some(if last == "sort_envelopes" { "sort_envelopes" } else { "partition_envelopes" }),
                    Some("DefaultInsertionStrategy") if last == "insert" => { self.hit("R-strategy: Params::DefaultInsertionStrategy::insert => RStarInsertionStrategy::insert"); new = Some(syn::parse_quote!(crate::algorithm::rstar::rstar_insert::<T, Params>(#args))); None }
                    _ => None,
                };
                if let Some(f) = f {
                    let f = quote::format_ident!("{}", f);
                    self.hit("R-std: std/trait function => crate::vx contract function");
                    new = Some(syn::parse_quote!(crate::vx::#f(#args)));
                }
            }
        }
        if let syn::Expr::Macro(m) = e {
            if let Some(n) = macro_rule(&m.mac, self.has("asserts_proved"), self.has("rejects")) { self.hit(n.1); new = Some(n.0) }
        }
        if let Some(n) = new { *e = n }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // R-destruct: let &mut S { ref mut a, ref b } = x; => one borrow per field
        let mut k = 0;
        while k < b.stmts.len() {
            let mut new: Vec<syn::Stmt> = vec![];
            if let syn::Stmt::Local(l) = &b.stmts[k] {
                let inner = match &l.pat { syn::Pat::Reference(r) => (*r.pat).clone(), p => p.clone() };
                if let (syn::Pat::Struct(ps), Some(init)) = (&inner, &l.init) { if let (syn::Expr::Path(x), true, None) = (&*init.expr, ps.fields.iter().all(|f| matches!(&*f.pat, syn::Pat::Ident(i) if i.by_ref.is_some())), &init.diverge) {
                    for f in &ps.fields { if let syn::Pat::Ident(i) = &*f.pat {
                        let (n, m) = (&i.ident, &f.member);
                        new.push(if i.mutability.is_some() { syn::parse_quote!(let #n = &mut #x.#m;) } else { syn::parse_quote!(let #n = &#x.#m;) });
                    } }
                } }
            }
            if !new.is_empty() {
                self.hit("R-destruct: let &mut S { ref mut a, ref b } = x => one borrow per field");
                b.stmts.splice(k..k + 1, new);
            }
            k += 1;
        }
        // R-refpat: &x in the pattern of a let => bind the reference, then copy
        let mut k = 0;
        while k < b.stmts.len() {
            let mut names = vec![];
            if let syn::Stmt::Local(l) = &mut b.stmts[k] { RefPat(&mut names).visit_pat_mut(&mut l.pat) }
            for n in names {
                self.hit("R-refpat: &x in the pattern of a let => bind the reference, then copy");
                let r = quote::format_ident!("vx_r_{}", n);
                k += 1;
                b.stmts.insert(k, syn::parse_quote!(let #n = *#r;));
            }
            k += 1;
        }
        // R-drop: a local drain iterator is dropped at the end of its block
        let mut vars = vec![];
        for s in &b.stmts {
            if let syn::Stmt::Local(l) = s { if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) { if is_drain(&init.expr) { vars.push(i.ident.clone()) } } }
        }
        if !vars.is_empty() {
            let src = b.to_token_stream().to_string();
            let tail = match b.stmts.last() { Some(syn::Stmt::Expr(e, None)) => Some(e.clone()), _ => None };
            for v in &vars {
                self.drain_vars.push(v.to_string());
                let vs = v.to_string();
                let moved = tail.as_ref().is_some_and(|t| { let t = t.to_token_stream().to_string(); t == vs || t.starts_with(&format!("{vs} . take")) });
                if moved { continue }
                let mut h = HasReturn(false);
                syn::visit::Visit::visit_block(&mut h, b);
                if h.0 || src.contains(&format!("{vs} . take")) || src.contains(&format!("({vs})")) || src.contains(&format!("( {vs} )")) { self.lost.push(format!("drop of the drain iterator `{vs}`")); continue }
                self.hit("R-drop: end of a block with a local drain iterator => the Drop code");
                let d: syn::Stmt = syn::parse_quote!(crate::algorithm::removal::drain_drop(&mut #v););
                for s in b.stmts.iter_mut() { if let syn::Stmt::Local(l) = s { if let syn::Pat::Ident(i) = &mut l.pat { if i.ident == *v { i.mutability = Some(Default::default()) } } } }
                if let (Some(syn::Stmt::Expr(_, None)), Some(t)) = (b.stmts.last(), &tail) {
                    b.stmts.pop();
                    b.stmts.push(syn::parse_quote!(let vx_d = #t;));
                    b.stmts.push(d);
                    b.stmts.push(syn::Stmt::Expr(syn::parse_quote!(vx_d), None));
                } else { b.stmts.push(d) }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        if let syn::Stmt::Macro(m) = s {
            if let Some((e, r)) = macro_rule(&m.mac, self.has("asserts_proved"), self.has("rejects")) {
                self.hit(r);
                let semi = m.semi_token;
                *s = syn::Stmt::Expr(e, semi);
                // also rewrite inside the new expression
                visit_mut::visit_stmt_mut(self, s);
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        small_vec(t, self.counts);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if let Some(s) = p.path.segments.iter_mut().find(|s| s.ident == "SmallVec") {
            s.ident = syn::Ident::new("Vec", s.ident.span());
            s.arguments = syn::PathArguments::None;
            self.hit("R-smallvec: SmallVec<[T; N]> => Vec<T>");
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

pub fn small_vec(t: &mut syn::Type, counts: &mut BTreeMap<String, usize>) {
    let mut new = None;
    if let syn::Type::Path(p) = t {
        let s = p.path.segments.last().unwrap();
        if s.ident == "SmallVec" {
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                if let Some(syn::GenericArgument::Type(syn::Type::Array(arr))) = a.args.first() {
                    let el = &arr.elem;
                    *counts.entry("R-smallvec: SmallVec<[T; N]> => Vec<T>".into()).or_default() += 1;
                    new = Some(syn::parse_quote!(Vec<#el>));
                }
            }
        }
    }
    if let Some(n) = new { *t = n }
}

fn macro_rule(m: &syn::Macro, proved: bool, rejects: bool) -> Option<(syn::Expr, &'static str)> {
    let n = m.path.segments.last().unwrap().ident.to_string();
    let first = || -> Option<Vec<syn::Expr>> {
        m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect())
    };
    match n.as_str() {
        "debug_assert" => { let a = first()?; let e = &a[0]; Some((syn::parse_quote!(crate::vx::proved_assert(#e)), "R-assert: debug_assert!(e) => proof obligation e")) }
        "debug_assert_eq" => { let a = first()?; let (e, f) = (&a[0], &a[1]); Some((syn::parse_quote!(crate::vx::proved_assert(#e == #f)), "R-assert: debug_assert_eq!(a, b) => proof obligation a == b")) }
        "debug_assert_ne" => { let a = first()?; let (e, f) = (&a[0], &a[1]); Some((syn::parse_quote!(crate::vx::proved_assert(#e != #f)), "R-assert: debug_assert_ne!(a, b) => proof obligation a != b")) }
        "assert_eq" if proved || !rejects => { let a = first()?; let (e, f) = (&a[0], &a[1]); Some((syn::parse_quote!(crate::vx::proved_assert(#e == #f)), "R-assert: assert_eq!(a, b) => proof obligation a == b")) }
        "assert_ne" if proved || !rejects => { let a = first()?; let (e, f) = (&a[0], &a[1]); Some((syn::parse_quote!(crate::vx::proved_assert(#e != #f)), "R-assert: assert_ne!(a, b) => proof obligation a != b")) }
        "assert_eq" => { let a = first()?; let (e, f) = (&a[0], &a[1]); Some((syn::parse_quote!(crate::vx::runtime_assert(#e == #f)), "R-assert: assert!(e), in a function that rejects its arguments => crate::vx::runtime_assert")) }
        "assert_ne" => { let a = first()?; let (e, f) = (&a[0], &a[1]); Some((syn::parse_quote!(crate::vx::runtime_assert(#e != #f)), "R-assert: assert!(e), in a function that rejects its arguments => crate::vx::runtime_assert")) }
        "assert" if proved || !rejects => { let a = first()?; let e = &a[0]; Some((syn::parse_quote!(crate::vx::proved_assert(#e)), "R-assert: assert!(e) => proof obligation e")) }
        "assert" => { let a = first()?; let e = &a[0]; Some((syn::parse_quote!(crate::vx::runtime_assert(#e)), "R-assert: assert!(e), in a function that rejects its arguments => crate::vx::runtime_assert")) }
        "panic" if rejects && !proved => Some((syn::parse_quote!(crate::vx::runtime_panic()), "R-assert: panic!(..), in a function that rejects its arguments => crate::vx::runtime_panic")),
        "panic" | "unreachable" => Some((syn::parse_quote!(crate::vx::never()), "R-assert: panic!/unreachable! => proof obligation false")),
        "vec" => {
            let a = first()?;
            if a.is_empty() { Some((syn::parse_quote!(Vec::new()), "R-vec: vec![..] => Vec")) }
            else if a.len() == 1 { let e = &a[0]; Some((syn::parse_quote!(crate::vx::vec1(#e)), "R-vec: vec![..] => Vec")) }
            else { None }
        }
        _ => None,
    }
}
