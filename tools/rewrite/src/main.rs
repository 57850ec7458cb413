//! Development tool: applies one behaviour-preserving rewriting everywhere in a source file.
//! rewrite RULE IN OUT [skipped function names, comma separated]
use quote::{quote, ToTokens, format_ident};
use std::collections::HashSet;
use syn::visit_mut::{self, VisitMut};
use syn::visit::{self, Visit};
use syn::*;

struct R { rule: String, skip: HashSet<String>, count: usize, n: usize, cur: Vec<String>, touched: HashSet<String>, seen: std::collections::HashMap<String, usize> }

struct Flow(bool);
impl<'a> Visit<'a> for Flow {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) | Expr::Try(_) | Expr::Await(_) | Expr::Yield(_) => self.0 = true,
            Expr::Macro(m) => { let s = m.mac.tokens.to_string(); if s.contains("return") || s.contains("break") || s.contains("continue") || s.contains('?') { self.0 = true } }
            Expr::Closure(_) => return,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}
fn has_flow_b(b: &Block) -> bool { let mut f = Flow(false); f.visit_block(b); f.0 }
fn has_flow_e(b: &Expr) -> bool { let mut f = Flow(false); f.visit_expr(b); f.0 }
struct Cont(bool);
impl<'a> Visit<'a> for Cont {
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true }
}
fn has_continue(b: &Block) -> bool { let mut f = Cont(false); f.visit_block(b); f.0 }
struct LetF(bool);
impl<'a> Visit<'a> for LetF { fn visit_expr_let(&mut self, _: &'a ExprLet) { self.0 = true } }
fn has_let(e: &Expr) -> bool { let mut f = LetF(false); f.visit_expr(e); f.0 }

fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) | Some(Stmt::Expr(Expr::Continue(_), _)) | Some(Stmt::Expr(Expr::Break(_), _)) => true,
        _ => false,
    }
}
fn trivial(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Call(c) => c.args.is_empty() && matches!(&*c.func, Expr::Path(_)) && { let s = c.func.to_token_stream().to_string(); s.ends_with("new") || s.ends_with("default") },
        Expr::Macro(m) => m.mac.path.is_ident("vec") && m.mac.tokens.is_empty(),
        _ => false,
    }
}
fn pat_idents(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p) } }
    let mut v = V(vec![]); v.visit_pat(p); v.0
}
fn mentions(e: &Expr, ids: &[String]) -> bool {
    let s = e.to_token_stream().to_string();
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| ids.iter().any(|i| i == w))
}

struct Literal(String);
impl Literal { fn get(&self) -> Expr { syn::parse_str(&self.0).unwrap() } }
impl R {
    /// Whether this is the site of the function to mutate.
    fn nth(&mut self) -> bool {
        let f = self.cur.last().cloned().unwrap_or_default();
        let k: usize = std::env::var("MUT_K").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
        let c = self.seen.entry(f).or_insert(0); *c += 1;
        if *c == k + 1 { self.hit(); true } else { false }
    }
    fn on(&self) -> bool { !self.cur.is_empty() && !self.cur.iter().any(|c| self.skip.contains(c)) }
    fn hit(&mut self) -> usize { self.count += 1; self.n += 1; self.touched.insert(self.cur.last().cloned().unwrap_or_default()); self.n }
    fn rw(&mut self, e: &mut Expr) {
        if !self.on() { return }
        let rule = self.rule.clone();
        let new: Option<Expr> = match (rule.as_str(), &*e) {
            ("for_while", Expr::ForLoop(f)) => {
                let (l, p, it, b) = (&f.label, &f.pat, &f.expr, &f.body); let k = self.hit();
                let i = format_ident!("__it{}", k);
                Some(parse_quote!({ let mut #i = ::std::iter::IntoIterator::into_iter(#it); #l while let Some(__x) = ::std::iter::Iterator::next(&mut #i) { let #p = __x; #b } }))
            }
            ("for_each", Expr::ForLoop(f)) if !has_flow_b(&f.body) && f.label.is_none() => {
                let (p, it, b) = (&f.pat, &f.expr, &f.body); self.hit();
                Some(parse_quote!({ ::std::iter::IntoIterator::into_iter(#it).for_each(|#p| #b); }))
            }
            ("for_index", Expr::ForLoop(f)) => {
                let (l, p, b) = (&f.label, &f.pat, &f.body);
                let recv: Option<&Expr> = match &*f.expr {
                    Expr::MethodCall(m) if m.method == "iter" => Some(&*m.receiver),
                    Expr::Reference(r) if r.mutability.is_none() => Some(&*r.expr),
                    _ => None,
                };
                if let Some(r) = recv { if matches!(r, Expr::Path(_) | Expr::Field(_)) {
                    let k = self.hit(); let i = format_ident!("__ix{}", k);
                    Some(parse_quote!({ let mut #i = 0usize; #l while #i < #r.len() { let #p = &#r[#i]; #i += 1; #b } }))
                } else { None } } else { None }
            }
            ("for_range", Expr::ForLoop(f)) if !has_continue(&f.body) => {
                if let (Pat::Ident(p), Expr::Range(r)) = (&*f.pat, unparen(&f.expr)) {
                    if let (Some(s), Some(t), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                        let l = &f.label; let id = &p.ident; let b = &f.body; let k = self.hit(); let h = format_ident!("__hi{}", k); let c = format_ident!("__lo{}", k);
                        Some(parse_quote!({ let mut #c = #s; let #h = #t; #l while #c < #h { let #id = #c; #b #c += 1; } }))
                    } else { None }
                } else { None }
            }
            ("while_loop", Expr::While(w)) => {
                let (l, c, b) = (&w.label, &w.cond, &w.body); self.hit();
                Some(parse_quote!(#l loop { if #c #b else { break; } }))
            }
            ("while_for", Expr::While(w)) => {
                if let Expr::Let(l) = &*w.cond { if let (Pat::TupleStruct(ts), Expr::MethodCall(m)) = (&*l.pat, &*l.expr) {
                    if m.method == "next" && m.args.is_empty() && ts.elems.len() == 1 {
                        let p = &ts.elems[0]; let r = &m.receiver; let b = &w.body; let lab = &w.label; self.hit();
                        Some(parse_quote!(#lab for #p in ::std::iter::Iterator::by_ref(&mut #r) #b))
                    } else { None }
                } else { None } } else { None }
            }
            ("if_flip", Expr::If(i)) if i.else_branch.is_some() && !has_let(&i.cond) => {
                let (c, t) = (&i.cond, &i.then_branch); let el = &i.else_branch.as_ref().unwrap().1; self.hit();
                Some(parse_quote!(if !(#c) { #el } else #t))
            }
            ("if_match", Expr::If(i)) => {
                if let Expr::Let(l) = &*i.cond {
                    let (p, x, t) = (&l.pat, &l.expr, &i.then_branch);
                    let el: Expr = match &i.else_branch { Some((_, e)) => (**e).clone(), None => parse_quote!({}) }; self.hit();
                    Some(parse_quote!(match #x { #p => #t, _ => #el }))
                } else { None }
            }
            ("match_if", Expr::Match(m)) if m.arms.len() == 2 && m.arms[0].guard.is_none() && m.arms[1].guard.is_none() => {
                let s = m.arms[1].pat.to_token_stream().to_string();
                let s0 = m.arms[0].pat.to_token_stream().to_string();
                if (s == "None" || s == "_" ) && !s0.contains('|') {
                    let (x, p, a, b) = (&m.expr, &m.arms[0].pat, &m.arms[0].body, &m.arms[1].body); self.hit();
                    Some(parse_quote!(if let #p = #x { #a } else { #b }))
                } else { None }
            }
            ("and_nest", Expr::If(i)) if i.else_branch.is_none() => {
                if let Expr::Binary(b) = &*i.cond { if matches!(b.op, BinOp::And(_)) && !has_let(&i.cond) {
                    let (l, r, t) = (&b.left, &b.right, &i.then_branch); self.hit();
                    Some(parse_quote!(if #l { if #r #t }))
                } else { None } } else { None }
            }
            ("cond_temp", Expr::If(i)) if !has_let(&i.cond) => {
                let (c, t) = (&i.cond, &i.then_branch); let k = self.hit(); let id = format_ident!("__c{}", k);
                match &i.else_branch { Some((_, el)) => Some(parse_quote!({ let #id: bool = #c; if #id #t else { #el } })), None => Some(parse_quote!({ let #id: bool = #c; if #id #t })) }
            }
            ("cond_closure", Expr::If(i)) if !has_let(&i.cond) && !has_flow_e(&i.cond) => {
                let (c, t) = (&i.cond, &i.then_branch); let k = self.hit(); let id = format_ident!("__c{}", k);
                match &i.else_branch { Some((_, el)) => Some(parse_quote!(if { let #id = || #c; #id() } #t else { #el })), None => Some(parse_quote!(if { let #id = || #c; #id() } #t)) }
            }
            ("cmp_flip", Expr::Binary(b)) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::Lt(_) => { self.hit(); Some(parse_quote!((#r) > (#l))) }
                    BinOp::Gt(_) => { self.hit(); Some(parse_quote!((#r) < (#l))) }
                    BinOp::Le(_) => { self.hit(); Some(parse_quote!((#r) >= (#l))) }
                    BinOp::Ge(_) => { self.hit(); Some(parse_quote!((#r) <= (#l))) }
                    BinOp::Eq(_) => { self.hit(); Some(parse_quote!(!((#l) != (#r)))) }
                    BinOp::Ne(_) => { self.hit(); Some(parse_quote!(!((#l) == (#r)))) }
                    _ => None,
                }
            }
            ("add_assign", Expr::Binary(b)) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::AddAssign(_) => { self.hit(); Some(parse_quote!(#l = #l + #r)) }
                    BinOp::SubAssign(_) => { self.hit(); Some(parse_quote!(#l = #l - #r)) }
                    _ => None,
                }
            }
            ("empty_len", Expr::MethodCall(m)) if m.method == "is_empty" && m.args.is_empty() => { let r = &m.receiver; self.hit(); Some(parse_quote!((#r.len() == 0))) }
            ("some_none", Expr::MethodCall(m)) if m.method == "is_some" && m.args.is_empty() => { let r = &m.receiver; self.hit(); Some(parse_quote!((!#r.is_none()))) }
            ("some_none", Expr::MethodCall(m)) if m.method == "is_none" && m.args.is_empty() => { let r = &m.receiver; self.hit(); Some(parse_quote!((!#r.is_some()))) }
            ("mem_take", Expr::Call(c)) if c.func.to_token_stream().to_string().replace(' ', "").ends_with("mem::take") => { let a = &c.args; self.hit(); Some(parse_quote!(::std::mem::replace(#a, ::std::default::Default::default()))) }
            ("push_extend", Expr::ForLoop(f)) if f.body.stmts.len() == 1 => {
                if let Stmt::Expr(Expr::MethodCall(m), _) = &f.body.stmts[0] { if (m.method == "push" || m.method == "push_back") && m.args.len() == 1 && !has_flow_e(&m.args[0]) {
                    let (r, a, p, it) = (&m.receiver, &m.args[0], &f.pat, &f.expr); self.hit();
                    Some(parse_quote!({ #r.extend(::std::iter::IntoIterator::into_iter(#it).map(|#p| #a)); }))
                } else { None } } else { None }
            }
            ("extend_push", Expr::MethodCall(m)) if m.method == "extend" && m.args.len() == 1 => {
                let (r, a) = (&m.receiver, &m.args[0]); self.hit();
                Some(parse_quote!(for __x in #a { #r.push(__x); }))
            }
            ("args_temp", Expr::MethodCall(m)) if !m.args.is_empty() && m.args.iter().all(|a| !has_flow_e(a)) && m.args.iter().any(|a| !matches!(a, Expr::Path(_) | Expr::Lit(_) | Expr::Closure(_))) => {
                let k = self.hit();
                let ids: Vec<Ident> = (0..m.args.len()).map(|j| format_ident!("__a{}_{}", k, j)).collect();
                let mut lets: Vec<Stmt> = vec![]; let mut args: Vec<Expr> = vec![];
                for (j, a) in m.args.iter().enumerate() { if matches!(a, Expr::Path(_) | Expr::Lit(_) | Expr::Closure(_)) { args.push(a.clone()) } else { let id = &ids[j]; lets.push(parse_quote!(let #id = #a;)); args.push(parse_quote!(#id)); } }
                let (r, meth, tf) = (&m.receiver, &m.method, &m.turbofish);
                Some(parse_quote!({ #(#lets)* #r.#meth #tf(#(#args),*) }))
            }
            ("block_closure", Expr::Block(b)) if b.label.is_none() && !has_flow_b(&b.block) => { let k = &b.block; self.hit(); Some(parse_quote!({ let mut __k = || #k; __k() })) }
            ("unwrap_expect", Expr::MethodCall(m)) if m.method == "unwrap" => { let r = &m.receiver; self.hit(); Some(parse_quote!(#r.expect("present"))) }
            ("m_cmp", Expr::Binary(b)) => {
                let (l, r) = (&b.left, &b.right);
                let n: Option<Expr> = match b.op {
                    BinOp::Lt(_) => Some(parse_quote!(#l <= #r)), BinOp::Gt(_) => Some(parse_quote!(#l >= #r)),
                    BinOp::Le(_) => Some(parse_quote!(#l < #r)), BinOp::Ge(_) => Some(parse_quote!(#l > #r)),
                    BinOp::Eq(_) => Some(parse_quote!(#l != #r)), BinOp::Ne(_) => Some(parse_quote!(#l == #r)), _ => None };
                if n.is_some() && self.nth() { n } else { None }
            }
            ("m_arith", Expr::Binary(b)) => {
                let (l, r) = (&b.left, &b.right);
                let n: Option<Expr> = match b.op {
                    BinOp::Add(_) => Some(parse_quote!(#l - #r)), BinOp::Sub(_) => Some(parse_quote!(#l + #r)),
                    BinOp::AddAssign(_) => Some(parse_quote!(#l -= #r)), BinOp::SubAssign(_) => Some(parse_quote!(#l += #r)),
                    BinOp::Div(_) => Some(parse_quote!(#l * #r)), BinOp::Mul(_) => Some(parse_quote!(#l / #r)), _ => None };
                if n.is_some() && self.nth() { n } else { None }
            }
            ("m_half", Expr::Binary(b)) => {
                let l = &b.left;
                let n: Option<Expr> = match b.op { BinOp::And(_) | BinOp::Or(_) if !has_let(&*e) => Some(parse_quote!(#l)), _ => None };
                if n.is_some() && self.nth() { n } else { None }
            }
            ("m_andor", Expr::Binary(b)) => {
                let (l, r) = (&b.left, &b.right);
                let n: Option<Expr> = match b.op { BinOp::And(_) if !has_let(&*e) => Some(parse_quote!(#l || #r)), BinOp::Or(_) => Some(parse_quote!((#l && #r))), _ => None };
                if n.is_some() && self.nth() { n } else { None }
            }
            ("m_lit", Expr::Lit(l)) => {
                let n: Option<Expr> = if let Lit::Int(i) = &l.lit { let v: u64 = i.base10_parse().unwrap_or(0); let t = Literal(format!("{}{}", v + 1, i.suffix())).get(); Some(t) } else if let Lit::Bool(b) = &l.lit { let v = !b.value; Some(parse_quote!(#v)) } else { None };
                if n.is_some() && self.nth() { n } else { None }
            }
            ("m_uncond", Expr::If(i)) if i.else_branch.is_none() && !has_let(&i.cond) => { let t = &i.then_branch; let n: Expr = if diverges(t) { parse_quote!({}) } else { parse_quote!(#t) }; if self.nth() { Some(n) } else { None } }
            ("m_name", Expr::MethodCall(m)) => {
                let to = match m.method.to_string().as_str() { "join" => "meet", "meet" => "join", "less_equal" => "less_than", "less_than" => "less_equal", "min" => "max", "max" => "min", "first" => "last", "last" => "first",
                    "is_some" => "is_none", "is_none" => "is_some", "lower" => "upper", "upper" => "lower", "set_logical_compaction" => "set_physical_compaction", "set_physical_compaction" => "set_logical_compaction", "get_logical_compaction" => "get_physical_compaction",
                    "get_physical_compaction" => "get_logical_compaction", "step_key" => "step_val", "step_val" => "step_key", "rewind_vals" => "rewind_keys", "seek_key" => "seek_val", "push" => "insert", "any" => "all", "all" => "any", "push_front" => "push_back", "push_back" => "push_front",
                    "pop_front" => "pop_back", "pop" => "pop_front", "join_assign" => "meet_assign", "meet_assign" => "join_assign", "extend" => "clone_from", "take" => "skip", "skip" => "take", "filter" => "skip_while", "is_empty" => "is_some", "get_val" => "get_key", "key_valid" => "val_valid", "val_valid" => "key_valid", _ => "" };
                if !to.is_empty() && self.nth() { let mut m2 = m.clone(); m2.method = format_ident!("{}", to); Some(Expr::MethodCall(m2)) } else { None }
            }
            ("m_args", Expr::MethodCall(m)) if m.args.len() >= 2 => { if self.nth() { let mut m2 = m.clone(); let t = m2.args[0].clone(); m2.args[0] = m2.args[1].clone(); m2.args[1] = t; Some(Expr::MethodCall(m2)) } else { None } }
            ("m_args", Expr::Call(m)) if m.args.len() >= 2 => { if self.nth() { let mut m2 = m.clone(); let t = m2.args[0].clone(); m2.args[0] = m2.args[1].clone(); m2.args[1] = t; Some(Expr::Call(m2)) } else { None } }
            ("clone_call", Expr::MethodCall(m)) if m.method == "clone" && m.args.is_empty() => { let r = &m.receiver; self.hit(); Some(parse_quote!(::std::clone::Clone::clone(&#r))) }
            _ => None,
        };
        if let Some(n) = new { *e = n }
    }
}
fn unparen(e: &Expr) -> &Expr { match e { Expr::Paren(p) => unparen(&p.expr), x => x } }

impl VisitMut for R {
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) { return }
        visit_mut::visit_item_mod_mut(self, m)
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) { if f.attrs.iter().any(|a| a.path().is_ident("test")) || f.sig.constness.is_some() { return } self.cur.push(f.sig.ident.to_string()); visit_mut::visit_item_fn_mut(self, f); self.cur.pop(); }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) { if f.sig.constness.is_some() { return } self.cur.push(f.sig.ident.to_string()); visit_mut::visit_impl_item_fn_mut(self, f); self.cur.pop(); }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) { self.cur.push(f.sig.ident.to_string()); visit_mut::visit_trait_item_fn_mut(self, f); self.cur.pop(); }
    fn visit_expr_mut(&mut self, e: &mut Expr) { visit_mut::visit_expr_mut(self, e); self.rw(e); }
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        visit_mut::visit_item_impl_mut(self, i);
        if self.rule == "inner_fn" && i.trait_.is_none() {
            let mut extra = vec![];
            for it in i.items.iter_mut() { if let ImplItem::Fn(f) = it { if let Some((sig, call)) = split(&f.sig) {
                self.cur.push(f.sig.ident.to_string());
                if self.on() { self.hit();
                    let b = f.block.clone();
                    extra.push(parse_quote!(#[allow(dead_code)] #sig #b));
                    let slf = f.sig.receiver().is_some();
                    f.block = if slf { parse_quote!({ self.#call }) } else { parse_quote!({ Self::#call }) };
                }
                self.cur.pop();
            } } }
            i.items.extend(extra);
        }
    }
    fn visit_file_mut(&mut self, f: &mut File) {
        visit_mut::visit_file_mut(self, f);
        self.items(&mut f.items);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        if !self.on() { return }
        match self.rule.as_str() {
            "m_drop" => {
                let mut i = 0;
                while i < b.stmts.len() {
                    let ok = match &b.stmts[i] { Stmt::Expr(Expr::MethodCall(_), Some(_)) | Stmt::Expr(Expr::Call(_), Some(_)) => true, Stmt::Expr(Expr::Assign(_), Some(_)) => true, _ => false };
                    if ok && self.nth() { b.stmts.remove(i); } else { i += 1 }
                }
            }
            "noop" => { self.hit(); b.stmts.insert(0, parse_quote!(let _ = ();)); }
            "early_else" => {
                for i in 0..b.stmts.len().saturating_sub(1) {
                    let ok = match &b.stmts[i] { Stmt::Expr(Expr::If(f), _) => f.else_branch.is_none() && diverges(&f.then_branch), _ => false };
                    if ok {
                        self.hit();
                        let rest: Vec<Stmt> = b.stmts.drain(i + 1..).collect();
                        if let Some(Stmt::Expr(Expr::If(f), s)) = b.stmts.last_mut() {
                            f.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#rest)* })))); *s = None;
                        }
                        break;
                    }
                }
            }
            "let_swap" => {
                let mut i = 0;
                while i + 1 < b.stmts.len() {
                    let ok = match (&b.stmts[i], &b.stmts[i + 1]) {
                        (Stmt::Local(x), Stmt::Local(y)) => match (&x.init, &y.init) {
                            (Some(p), Some(q)) if p.diverge.is_none() && q.diverge.is_none() => (trivial(&p.expr) || trivial(&q.expr)) && !mentions(&q.expr, &pat_idents(&x.pat)) && !mentions(&p.expr, &pat_idents(&y.pat)),
                            _ => false },
                        _ => false };
                    if ok { self.hit(); b.stmts.swap(i, i + 1); i += 2 } else { i += 1 }
                }
            }
            "tail_temp" => {
                if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
                    if !has_flow_e(e) && !matches!(e, Expr::Path(_) | Expr::Lit(_) | Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Macro(_) | Expr::Reference(_)) {
                        let e = e.clone(); let k = self.hit(); let id = format_ident!("__t{}", k);
                        b.stmts.pop(); b.stmts.push(parse_quote!(let #id = #e;)); b.stmts.push(Stmt::Expr(parse_quote!(#id), None));
                    }
                }
            }
            _ => {}
        }
    }
}
impl R {
    fn items(&mut self, items: &mut Vec<Item>) {
        if self.rule != "inner_fn" { return }
        let mut extra = vec![];
        for it in items.iter_mut() { match it {
            Item::Fn(f) => { if f.attrs.iter().any(|a| a.path().is_ident("test")) { continue } if let Some((sig, call)) = split(&f.sig) {
                self.cur.push(f.sig.ident.to_string());
                if self.on() { self.hit(); let b = f.block.clone(); extra.push(parse_quote!(#[allow(dead_code)] #sig #b)); f.block = parse_quote!({ #call }); }
                self.cur.pop();
            } }
            Item::Mod(m) => { if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) { continue } if let Some((_, v)) = &mut m.content { self.items(v) } }
            _ => {}
        } }
        items.extend(extra);
    }
}
fn split(s: &Signature) -> Option<(Signature, proc_macro2::TokenStream)> {
    if s.constness.is_some() || s.asyncness.is_some() || s.unsafety.is_some() { return None }
    let mut t = s.clone(); t.ident = format_ident!("{}_inner", s.ident);
    let mut args: Vec<Ident> = vec![];
    for a in s.inputs.iter() { if let FnArg::Typed(p) = a { match &*p.pat { Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => args.push(i.ident.clone()), _ => return None } } }
    // the outer function no longer mutates its arguments: harmless warnings
    let id = &t.ident; 
    Some((t.clone(), quote!(#id(#(#args),*))))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[2]).unwrap();
    let mut f = match syn::parse_file(&src) { Ok(f) => f, Err(e) => { eprintln!("{}: {}", a[2], e); std::process::exit(2) } };
    let skip = a.get(4).map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut r = R { rule: a[1].clone(), skip, count: 0, n: 0, cur: vec![], touched: Default::default(), seen: Default::default() };
    r.visit_file_mut(&mut f);
    if r.count > 0 { std::fs::write(&a[3], f.to_token_stream().to_string()).unwrap(); }
    let mut t: Vec<_> = r.touched.into_iter().collect(); t.sort();
    println!("{} {}", r.count, t.join(","));
}
