//! Lowering rules (each semantics-preserving for the values the contracts speak about):
//!  L1 logging macros (trace/debug/info/warn/error) are dropped
//!  L2 Option/bool combinators taking closures become `match` / `if`
//!  L3 iterator chains become `while` loops over a buffered iterator
//!  L4 `for` becomes the same `while` loop
//!  L5 let-bound closures and closure arguments are beta-reduced at their calls
//!  L6 helper functions without a contract are inlined at their calls
//!  L7 `format!` becomes a named formatting stub carrying the literal
//!  L8 early returns inside inlined closures/helpers become structured branches
//!  L9 attributes, derives and visibility are dropped (Clone/Copy/PartialEq derives are kept as stated)
//!  L10 `|=` on bools becomes `= .. || ..` evaluated left to right
use crate::unit::{FnSpec, Unit};
use crate::{Found, Src};
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, ImplItem, Item, Pat, Stmt};

const LOGS: &[&str] = &["trace", "debug", "info", "warn", "error"];

pub struct Lower<'a> {
    pub u: &'a Unit,
    pub src: &'a Src,
    pub known: &'a BTreeSet<String>,
    pub f: &'a FnSpec,
    pub found: &'a Found,
    pub loops: usize,
    tmp: usize,
    pub rules: BTreeMap<String, usize>,
    pub anchors_used: BTreeSet<String>,
    pub inlined: Vec<String>,
    pub raw: Vec<String>,
    pub auto_inv: HashMap<usize, (String, String)>,
    closures: Vec<HashMap<String, syn::ExprClosure>>,
    err: Option<String>,
    depth: usize,
    /// variables bound to an iterator
    iters: BTreeSet<String>,
    /// variables bound to a Result
    ress: BTreeSet<String>,
    /// `static X: OnceLock<_> = OnceLock::new()` local to a function without parameters
    once: BTreeSet<String>,
}

fn returns_result(s: &syn::Signature) -> bool {
    if let syn::ReturnType::Type(_, t) = &s.output { if let syn::Type::Path(p) = &**t { return p.path.segments.last().is_some_and(|s| s.ident.to_string().ends_with("Result")); } }
    false
}
fn tail_is_result(e: &Expr) -> bool {
    match unwrap_paren(e) {
        Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, None)) if tail_is_result(e)),
        Expr::Call(c) => path_ident(&c.func).is_some_and(|i| i == "Ok" || i == "Err"),
        Expr::If(i) => matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(e, None)) if tail_is_result(e)),
        Expr::Match(m) => m.arms.iter().any(|a| tail_is_result(&a.body)),
        _ => false,
    }
}
thread_local! { static RES: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// `match inner { success(t) => r, failure => failure }` for `?` in the function being structured
fn try_match(inner: &Expr, t: &Ident, r: &Expr) -> Expr {
    if RES.with(|c| c.get()) { parse_quote!(match #inner { Ok(#t) => #r, Err(vx_err) => Err(vx_into_err(vx_err)) }) } else { parse_quote!(match #inner { Some(#t) => #r, None => None }) }
}
fn is_log(m: &syn::Macro) -> bool {
    m.path.segments.last().is_some_and(|s| LOGS.contains(&s.ident.to_string().as_str()))
}
fn unwrap_paren(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => unwrap_paren(&p.expr), Expr::Group(p) => unwrap_paren(&p.expr), _ => e }
}
fn path_ident(e: &Expr) -> Option<String> {
    match unwrap_paren(e) { Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()), _ => None }
}

pub fn strip_ty(t: &mut syn::Type, u: &Unit) {
    struct V<'a>(&'a Unit);
    impl VisitMut for V<'_> {
        fn visit_path_mut(&mut self, p: &mut syn::Path) {
            visit_mut::visit_path_mut(self, p);
            // keep the last segment only (modules are flattened), except for assoc types
            let full = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if let Some((_, b)) = self.0.tyrenames.iter().find(|(a, _)| a.contains("::") && *a == full) {
                let mut last = p.segments.last().unwrap().clone(); last.ident = Ident::new(b, Span::call_site());
                p.segments = std::iter::once(last).collect(); p.leading_colon = None; return;
            }
            let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
            if p.segments.len() > 1 && first != "Self" && p.segments.iter().take(p.segments.len() - 1).all(|s| s.arguments.is_none() && s.ident.to_string().chars().next().unwrap().is_lowercase()) {
                let last = p.segments.last().unwrap().clone();
                p.segments = std::iter::once(last).collect();
                p.leading_colon = None;
            }
            for (a, b) in &self.0.tyrenames {
                if let Some(s) = p.segments.first_mut() { if s.ident == a.as_str() { s.ident = Ident::new(b, Span::call_site()); } }
            }
        }
    }
    V(u).visit_type_mut(t);
}

fn derives(attrs: &[syn::Attribute]) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            if let syn::Meta::List(l) = &a.meta { for t in l.tokens.to_string().split(',') { r.insert(t.trim().rsplit("::").next().unwrap().trim().to_string()); } }
        }
    }
    r
}

pub fn lower_item(it: &Item, u: &Unit, opts: &str) -> Result<String, String> {
    let mut out = String::new();
    let (name, ders, gens) = match it {
        Item::Struct(s) => (s.ident.to_string(), derives(&s.attrs), s.generics.clone()),
        Item::Enum(s) => (s.ident.to_string(), derives(&s.attrs), s.generics.clone()),
        Item::Type(t) => {
            let mut ty = (*t.ty).clone();
            strip_ty(&mut ty, u);
            return Ok(format!("pub type {} = {};", t.ident, ty.to_token_stream()));
        }
        Item::Const(c) => return Ok(format!("pub {}", { let mut c = c.clone(); c.attrs.clear(); c.vis = syn::Visibility::Inherited; c.to_token_stream().to_string() })),
        _ => return Err("item kind".into()),
    };

    let copy = ders.contains("Copy");
    if copy { out.push_str("#[derive(Clone, Copy)]\n"); }
    match it {
        Item::Struct(s) => {
            let mut s = s.clone();
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); strip_ty(&mut f.ty, u); }
            out.push_str(&s.to_token_stream().to_string());
        }
        Item::Enum(s) => {
            let mut s = s.clone();
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); strip_ty(&mut f.ty, u); } }
            out.push_str(&s.to_token_stream().to_string());
        }
        _ => {}
    }
    out.push('\n');
    let (ig, tg, wc) = gens.split_for_impl();
    let (ig, tg, wc) = (ig.to_token_stream(), tg.to_token_stream(), wc.to_token_stream());
    if !copy && ders.contains("Clone") && !opts.contains("noclone") {
        out.push_str(&format!("impl{ig} Clone for {name}{tg} {wc} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"));
    }
    if opts.contains("eq") {
        if !ders.contains("PartialEq") { return Err(format!("lost-anchor: {name} no longer derives PartialEq")); }
        out.push_str(&format!("impl{ig} vstd::std_specs::cmp::PartialEqSpecImpl for {name}{tg} {wc} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &Self) -> bool {{ *self == *other }} }}\n"));
        out.push_str(&format!("impl{ig} PartialEq for {name}{tg} {wc} {{ #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) {{ unimplemented!() }} }}\n"));
    }
    Ok(out)
}

pub fn lower_consts(name: &str, cs: &[ImplItem]) -> Result<String, String> {
    let mut o = format!("impl {name} {{\n");
    for c in cs {
        if let ImplItem::Const(c) = c {
            let mut c = c.clone();
            c.attrs.clear();
            c.vis = parse_quote!(pub);
            o.push_str(&c.to_token_stream().to_string());
            o.push('\n');
        }
    }
    o.push_str("}\n");
    Ok(o)
}

const SOURCES: &[&str] = &["iter", "into_iter", "iter_mut", "values", "keys", "into_values", "into_keys", "values_mut", "chars", "drain"];
const ADAPT: &[&str] = &["map", "filter", "filter_map", "flat_map", "cloned", "copied", "enumerate", "chain", "rev", "zip", "dedup", "skip", "take", "tuple_windows", "flatten", "skip_while", "peekable"];
const SINKS: &[&str] = &["collect", "find", "find_map", "any", "all", "position", "fold", "for_each", "min_by_key", "max_by_key", "next", "count", "last", "unzip", "partition", "sum", "max", "min"];

struct Chain { source: Expr, adapt: Vec<syn::ExprMethodCall> }

impl<'a> Lower<'a> {
    pub fn new(u: &'a Unit, src: &'a Src, known: &'a BTreeSet<String>, f: &'a FnSpec, found: &'a Found) -> Self {
        Lower { u, src, known, f, found, loops: 0, tmp: 0, rules: BTreeMap::new(), anchors_used: BTreeSet::new(), inlined: vec![], raw: vec![], auto_inv: HashMap::new(), closures: vec![HashMap::new()], err: None, depth: 0, iters: BTreeSet::new(), ress: BTreeSet::new(), once: BTreeSet::new() }
    }
    fn rule(&mut self, r: &str) { *self.rules.entry(r.into()).or_default() += 1; }
    fn fail(&mut self, e: String) { if self.err.is_none() { self.err = Some(format!("lost-anchor: {}: {e}", self.f.key)); } }
    fn fresh(&mut self, p: &str) -> Ident { self.tmp += 1; format_ident!("vx_{}{}", p, self.tmp) }
    fn raw_stmt(&mut self, t: String) -> Stmt { let n = proc_macro2::Literal::usize_unsuffixed(self.raw.len()); self.raw.push(t); parse_quote!(vx_raw! { #n }) }
    fn hint(&mut self, anchor: &str) -> Vec<Stmt> {
        let hs: Vec<String> = self.f.hints.iter().filter(|(a, _)| a == anchor).map(|(_, t)| t.clone()).collect();
        if hs.is_empty() { return vec![]; }
        self.anchors_used.insert(anchor.into());
        hs.into_iter().map(|t| self.raw_stmt(t)).collect()
    }

    pub fn run(&mut self, sig: &mut syn::Signature, block: &mut Block) -> Result<(), String> {
        // types in the signature
        for i in sig.inputs.iter_mut() { if let syn::FnArg::Typed(t) = i { strip_ty(&mut t.ty, self.u); } }
        let mut pats: Vec<Stmt> = vec![];
        for (n, i) in sig.inputs.iter_mut().enumerate() {
            if let syn::FnArg::Typed(t) = i {
                if let (Pat::Ident(p), syn::Type::Path(ty)) = (&*t.pat, &*t.ty) { if ty.path.segments.last().is_some_and(|s| s.ident == "Pairs") { self.iters.insert(p.ident.to_string()); } }
                if !matches!(&*t.pat, Pat::Ident(_)) {
                    let v = format_ident!("vx_p{}", n);
                    let p = std::mem::replace(&mut t.pat, parse_quote!(#v));
                    pats.push(parse_quote!(let #p = #v;));
                    self.rule("L15: parameter pattern bound inside");
                }
            }
        }
        block.stmts.splice(0..0, pats);
        let mut impl_iter = false;
        if let syn::ReturnType::Type(_, t) = &mut sig.output {
            if let syn::Type::ImplTrait(it) = &**t {
                let s = it.to_token_stream();
                if s.to_string().contains("Iterator") {
                    // impl Iterator<Item = T> -> Vec<T>
                    let mut item = None;
                    for b in &it.bounds { if let syn::TypeParamBound::Trait(tb) = b { if let syn::PathArguments::AngleBracketed(ab) = &tb.path.segments.last().unwrap().arguments { for a in &ab.args { if let syn::GenericArgument::AssocType(at) = a { item = Some(at.ty.clone()); } } } } }
                    let item = item.ok_or("impl Iterator without Item")?;
                    **t = parse_quote!(Vec<#item>);
                    impl_iter = true;
                    self.rule("L3b: `impl Iterator` result buffered into Vec");
                }
            }
            strip_ty(t, self.u);
        }
        for p in sig.generics.params.iter_mut() { if let syn::GenericParam::Type(_) = p {} }
        if impl_iter {
            if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() {
                let inner = e.clone();
                *e = parse_quote!(#inner.collect::<Vec<_>>());
            }
        }
        self.visit_block_mut(block);
        if let Some(e) = self.err.take() { return Err(e); }
        let mut rp = RefPats { n: 0, bad: None };
        rp.visit_block_mut(block);
        if rp.n > 0 { *self.rules.entry("L12: `&pat` patterns become a dereference".into()).or_default() += rp.n; }
        if let Some(b) = rp.bad { return Err(format!("lost-anchor: {}: {b}", self.f.key)); }
        if !self.f.typed.is_empty() { TypeLets(&self.f.typed).visit_block_mut(block); }
        // anchors
        let st = self.hint("start");
        let en = self.hint("end");
        let ta = self.hint("tail");
        for (i, s) in st.into_iter().enumerate() { block.stmts.insert(i, s); }
        // in a function without a result, the tail is a statement
        if matches!(sig.output, syn::ReturnType::Default) && !en.is_empty() {
            if let Some(Stmt::Expr(_, semi @ None)) = block.stmts.last_mut() { *semi = Some(Default::default()); }
        }
        let has_tail = matches!(block.stmts.last(), Some(Stmt::Expr(_, None)));
        if !en.is_empty() {
            let at = if has_tail { block.stmts.len() - 1 } else { block.stmts.len() };
            for (i, s) in en.into_iter().enumerate() { block.stmts.insert(at + i, s); }
        }
        if !ta.is_empty() {
            if has_tail {
                if let Some(Stmt::Expr(e, None)) = block.stmts.pop() {
                    block.stmts.push(parse_quote!(let vx_ret = #e;));
                    block.stmts.extend(ta);
                    block.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
                }
            } else { return Err(format!("lost-anchor: {}: no tail expression", self.f.key)); }
        }
        // call anchors
        let wanted: Vec<String> = self.f.hints.iter().map(|(a, _)| a.clone()).filter(|a| a.starts_with("call:") || a.starts_with("ret:") || a.starts_with("let:")).collect();
        if !wanted.is_empty() {
            let mut ca = CallAnchors { counts: HashMap::new(), stack: vec![], wanted: wanted.iter().cloned().collect(), plan: vec![] , retc: 0 };
            ca.visit_block_mut(block);
            let mut done: BTreeSet<String> = BTreeSet::new();
            // plan entries name anchors placed as vx_anchor!{idx}; replace
            let plan = ca.plan;
            let mut rep = AnchorFill { lw: self, plan, done: &mut done };
            rep.visit_block_mut(block);
        }
        Ok(())
    }

    // ---------- closures ----------
    fn closure_of(&mut self, e: &Expr) -> Option<syn::ExprClosure> {
        match unwrap_paren(e) {
            Expr::Closure(c) => Some(c.clone()),
            Expr::Path(_) => {
                let id = path_ident(e)?;
                for m in self.closures.iter().rev() { if let Some(c) = m.get(&id) { return Some(c.clone()); } }
                None
            }
            _ => None,
        }
    }
    /// `f(args)` where f is a closure literal, a let-bound closure or a path
    fn apply(&mut self, f: &Expr, args: Vec<Expr>) -> Expr {
        if let Some(c) = self.closure_of(f) {
            self.rule("L5: closure applied in place");
            return self.apply_closure(&c, args);
        }
        let f = f.clone();
        parse_quote!(#f(#(#args),*))
    }
    fn apply_closure(&mut self, c: &syn::ExprClosure, args: Vec<Expr>) -> Expr {
        let mut body: Expr = (*c.body).clone();
        if has_early_exit(&body) {
            RES.with(|c| c.set(tail_is_result(&body)));
            match elim_expr(&body) {
                Ok(b) => { self.rule("L8: early exits structured"); body = b }
                Err(e) => { self.fail(format!("closure with early exit not structurable: {e}")); }
            }
        }
        let mut stmts: Vec<Stmt> = vec![];
        let mut late: Vec<Stmt> = vec![];
        let mut subst: HashMap<String, Expr> = HashMap::new();
        for (p, a) in c.inputs.iter().zip(args) {
            let (pat, ty) = match p { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), p => (p.clone(), None) };
            if let Some(cl) = self.closure_of(&a) {
                if let Pat::Ident(i) = &pat { subst.insert(i.ident.to_string(), Expr::Closure(cl)); continue; }
            }
            if matches!(pat, Pat::Wild(_)) { continue; }
            // a single argument may bind directly
            let _ = ty;
            if c.inputs.len() == 1 { stmts.push(parse_quote!(let #pat = #a;)); }
            else {
                let t = self.fresh("a");
                stmts.push(parse_quote!(let #t = #a;));
                late.push(parse_quote!(let #pat = #t;));
            }
        }
        stmts.extend(late);
        if !subst.is_empty() { SubstIdent(&subst).visit_expr_mut(&mut body); }
        if stmts.is_empty() { return parse_quote!({ #body }); }
        match body {
            Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => { let inner = b.block.stmts; parse_quote!({ #(#stmts)* #(#inner)* }) }
            b => parse_quote!({ #(#stmts)* #b }),
        }
    }

    // ---------- chains ----------
    fn is_source(&self, m: &syn::ExprMethodCall) -> bool {
        let n = m.method.to_string();
        SOURCES.contains(&n.as_str()) || self.u.itersrc.contains(&n)
    }
    fn chain_of(&self, e: &Expr) -> Option<Chain> {
        match unwrap_paren(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.u.keep_methods.contains(&n) { return None; }
                if self.is_source(m) { return Some(Chain { source: Expr::MethodCall(m.clone()), adapt: vec![] }); }
                if ADAPT.contains(&n.as_str()) {
                    let mut c = self.chain_of(&m.receiver)?;
                    c.adapt.push(m.clone());
                    return Some(c);
                }
                None
            }
            Expr::Range(r) if r.start.is_some() && r.end.is_some() => Some(Chain { source: Expr::Range(r.clone()), adapt: vec![] }),
            Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.iters.contains(&i.to_string())) => Some(Chain { source: e.clone(), adapt: vec![] }),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func { if self.u.itersrc.contains(&p.path.segments.last().unwrap().ident.to_string()) { return Some(Chain { source: Expr::Call(c.clone()), adapt: vec![] }); } }
                None
            }
            _ => None,
        }
    }
    fn source_expr(&mut self, e: Expr) -> Expr {
        match e {
            Expr::MethodCall(mut m) => {
                let n = m.method.to_string();
                if SOURCES.contains(&n.as_str()) { m.method = format_ident!("vx_{}", n); }
                else if let Some((_, b)) = self.u.renames.iter().find(|(a, b)| *a == n && b.starts_with('.')) { m.method = Ident::new(&b[1..], Span::call_site()); }
                self.visit_expr_mut(&mut m.receiver);
                for a in m.args.iter_mut() { self.visit_expr_mut(a); }
                Expr::MethodCall(m)
            }
            Expr::Range(mut r) => {
                let (mut s, mut t) = (*r.start.take().unwrap(), *r.end.take().unwrap());
                self.visit_expr_mut(&mut s); self.visit_expr_mut(&mut t);
                match r.limits { syn::RangeLimits::HalfOpen(_) => parse_quote!(vx_range(#s, #t)), syn::RangeLimits::Closed(_) => parse_quote!(vx_range_incl(#s, #t)) }
            }
            Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.iters.contains(&i.to_string())) => parse_quote!(#p.vx_into_iter()),
            mut e => { self.visit_expr_mut(&mut e); e }
        }
    }
    /// builds `{ pre; loop over source+adaptors with `sink` at the innermost point; }`
    /// `stop`: extra loop condition (e.g. `r.is_none()`)
    fn loop_over(&mut self, c: Chain, stop: Option<Expr>, pat: Option<(Pat, Box<dyn FnOnce(&mut Self, Expr) -> Vec<Stmt> + '_>)>, sink: Option<Box<dyn FnOnce(&mut Self, Expr) -> Vec<Stmt> + '_>>) -> Vec<Stmt> {
        // structural adaptors on the whole source are stub methods of VxIter
        let mut src = self.source_expr(c.source);
        let mut rest = c.adapt;
        while let Some(m) = rest.first() {
            let n = m.method.to_string();
            if matches!(n.as_str(), "rev" | "skip" | "take" | "dedup" | "zip" | "chain" | "enumerate" | "tuple_windows" | "copied" | "peekable") {
                let mut m = rest.remove(0);
                if matches!(n.as_str(), "zip" | "chain") {
                    let a = m.args[0].clone();
                    let a2 = if let Expr::Array(mut r) = a.clone() { for x in r.elems.iter_mut() { self.visit_expr_mut(x); } parse_quote!(#r.vx_into_iter()) } else if let Some(ch) = self.chain_of(&a) { if ch.adapt.is_empty() { self.source_expr(ch.source) } else { let v = self.collect_chain(ch, None); parse_quote!(#v.vx_into_iter()) } } else { let mut a = a; self.visit_expr_mut(&mut a); parse_quote!(#a.vx_into_iter()) };
                    m.args[0] = a2;
                } else { for a in m.args.iter_mut() { self.visit_expr_mut(a); } }
                let meth = format_ident!("vx_{}", n);
                let args = m.args;
                src = parse_quote!(#src.#meth(#args));
            } else { break; }
        }
        // a later structural adaptor needs buffering
        if let Some(pos) = rest.iter().position(|m| matches!(m.method.to_string().as_str(), "rev" | "skip" | "take" | "dedup" | "zip" | "chain" | "enumerate" | "tuple_windows" | "peekable")) {
            let tail = rest.split_off(pos);
            let t = self.fresh("buf");
            let mut out = vec![];
            let v = self.collect_lowered(src, rest);
            out.push(parse_quote!(let #t = #v;));
            let ch = Chain { source: parse_quote!(#t.into_iter()), adapt: tail };
            out.extend(self.loop_over(ch, stop, pat, sink));
            return out;
        }
        let k = self.loops;
        self.loops += 1;
        self.rule(if pat.is_some() { "L4: for loop" } else { "L3: iterator chain" });
        let it = format_ident!("it{}", k);
        let mut out: Vec<Stmt> = vec![];
        out.extend(self.hint(&format!("loop{k}.pre")));
        // a block-like receiver lives as long as the iterator over it
        let src = match src {
            Expr::MethodCall(mut m) if matches!(unwrap_paren(&m.receiver), Expr::If(_) | Expr::Match(_) | Expr::Block(_)) => {
                let (t, r) = (self.fresh("src"), unwrap_paren(&m.receiver).clone());
                out.push(parse_quote!(let #t = #r;));
                *m.receiver = parse_quote!(#t);
                Expr::MethodCall(m)
            }
            s => s,
        };
        // a source fn whose `impl Iterator` result is buffered into a Vec (L3b)
        let src = match src {
            Expr::MethodCall(m) if self.src.fns.iter().any(|(q, f)| q.ends_with(&format!("::{}", m.method)) && matches!(&f.sig.output, syn::ReturnType::Type(_, t) if matches!(&**t, syn::Type::ImplTrait(_)))) => parse_quote!(#m.vx_into_iter()),
            s => s,
        };
        out.push(parse_quote!(let mut #it = #src;));
        out.push(self.raw_stmt(format!("let ghost g{k} = it{k}@;")));
        self.auto_inv.insert(k, (format!("it{k}@ == g{k}, 0 <= it{k}.pos() <= it{k}@.len(),\n"), format!("it{k}@.len() - it{k}.pos()")));
        let x = format_ident!("vx_x{}", k);
        let hs = self.hint(&format!("loop{k}.start"));
        let kk = proc_macro2::Literal::usize_unsuffixed(k);
        let mut body: Vec<Stmt> = vec![parse_quote!(vx_loop! { #kk })];
        match (pat, sink) {
            (Some((p, f)), _) => {
                body.push(parse_quote!(let #p = #it.vx_next();));
                body.extend(hs);
                let xe: Expr = parse_quote!(#x);
                body.extend(f(self, xe));
            }
            (None, Some(s)) => {
                body.push(parse_quote!(let #x = #it.vx_next();));
                body.extend(hs);
                let xe: Expr = parse_quote!(#x);
                let inner = self.nest(rest, xe, s);
                body.extend(inner);
            }
            _ => unreachable!(),
        }
        body.extend(self.hint(&format!("loop{k}.end")));
        let cond: Expr = match stop { Some(s) => parse_quote!(#s && #it.has_next()), None => parse_quote!(#it.has_next()) };
        out.extend(self.hint(&format!("loop{k}.before")));
        out.push(parse_quote!(while #cond { #(#body)* }));
        out.extend(self.hint(&format!("loop{k}.after")));
        out
    }
    fn nest(&mut self, mut ad: Vec<syn::ExprMethodCall>, x: Expr, sink: Box<dyn FnOnce(&mut Self, Expr) -> Vec<Stmt> + '_>) -> Vec<Stmt> {
        if ad.is_empty() { return sink(self, x); }
        let m = ad.remove(0);
        let n = m.method.to_string();
        match n.as_str() {
            "map" => {
                let mut b = self.apply(&m.args[0], vec![x]);
                self.visit_expr_mut(&mut b);
                let y = self.fresh("m");
                let mut out: Vec<Stmt> = vec![parse_quote!(let #y = #b;)];
                out.extend(self.nest(ad, parse_quote!(#y), sink));
                out
            }
            "cloned" | "copied" => {
                let y = self.fresh("c");
                let mut out: Vec<Stmt> = vec![parse_quote!(let #y = vx_clone(#x);)];
                out.extend(self.nest(ad, parse_quote!(#y), sink));
                out
            }
            "filter" => {
                let mut b = self.apply(&m.args[0], vec![parse_quote!(&#x)]);
                self.visit_expr_mut(&mut b);
                let y = self.fresh("k");
                let inner = self.nest(ad, x, sink);
                vec![parse_quote!(let #y = #b;), parse_quote!(if #y { #(#inner)* })]
            }
            "filter_map" => {
                let mut b = self.apply(&m.args[0], vec![x]);
                self.visit_expr_mut(&mut b);
                let y = self.fresh("f");
                let z = self.fresh("o");
                let inner = self.nest(ad, parse_quote!(#y), sink);
                vec![parse_quote!(let #z = #b;), parse_quote!(match #z { Some(#y) => { #(#inner)* } None => {} })]
            }
            "flat_map" | "flatten" => {
                let b = if n == "flatten" { x } else { self.apply(&m.args[0], vec![x]) };
                let v = self.fresh("v");
                let buf = self.to_buffer(b);
                let mut out: Vec<Stmt> = vec![parse_quote!(let #v = #buf;)];
                let ch = Chain { source: parse_quote!(#v.into_iter()), adapt: ad };
                out.extend(self.loop_over(ch, None, None, Some(sink)));
                out
            }
            _ => { self.fail(format!("adaptor {n} in this position")); vec![] }
        }
    }
    /// expression yielding an iterable (possibly an un-sunk chain at its tail) -> buffered value
    fn to_buffer(&mut self, e: Expr) -> Expr {
        match e {
            Expr::Block(mut b) => {
                if let Some(Stmt::Expr(t, None)) = b.block.stmts.pop() {
                    let mut pre = b.block.clone();
                    self.visit_block_mut(&mut pre);
                    let t2 = self.to_buffer(t);
                    let st = pre.stmts;
                    parse_quote!({ #(#st)* #t2 })
                } else { self.fail("flat_map closure without value".into()); parse_quote!(()) }
            }
            e => {
                if let Some(c) = self.chain_of(&e) { if c.adapt.is_empty() { return self.source_expr(c.source); } return self.collect_chain(c, Some(quote!(Vec<_>))); }
                let mut e = e;
                self.visit_expr_mut(&mut e);
                e
            }
        }
    }
    fn collect_lowered(&mut self, src: Expr, ad: Vec<syn::ExprMethodCall>) -> Expr {
        // src is already lowered; wrap so that source_expr leaves it alone
        let acc = format_ident!("acc{}b", self.loops);
        let accn = acc.clone();
        let body = self.loop_over_lowered(src, ad, Box::new(move |_, x| vec![parse_quote!(#accn.push(#x);)]));
        parse_quote!({ let mut #acc = Vec::new(); #(#body)* #acc })
    }
    fn loop_over_lowered(&mut self, src: Expr, ad: Vec<syn::ExprMethodCall>, sink: Box<dyn FnOnce(&mut Self, Expr) -> Vec<Stmt> + '_>) -> Vec<Stmt> {
        let t = self.fresh("src");
        let mut out: Vec<Stmt> = vec![parse_quote!(let #t = #src;)];
        let k = self.loops; let _ = k;
        out.extend(self.loop_over(Chain { source: Expr::Path(parse_quote!(#t)), adapt: ad }, None, None, Some(sink)));
        out
    }
    fn collect_chain(&mut self, c: Chain, turbofish: Option<TokenStream>) -> Expr {
        let k = self.loops;
        let acc = format_ident!("acc{}", k);
        let accn = acc.clone();
        let body = self.loop_over(c, None, None, Some(Box::new(move |_, x| vec![parse_quote!(#accn.push(#x);)])));
        let fin: TokenStream = match turbofish { Some(t) => quote!(vx_collect::<_, #t>(#acc)), None => quote!(vx_collect(#acc)) };
        parse_quote!({ let mut #acc = Vec::new(); #(#body)* #fin })
    }
    fn lower_sink(&mut self, m: &syn::ExprMethodCall, c: Chain) -> Expr {
        let n = m.method.to_string();
        let k = self.loops;
        let r = format_ident!("r{}", k);
        let rn = r.clone();
        let arg = |i: usize| m.args.iter().nth(i).cloned();
        match n.as_str() {
            "collect" => {
                let tf = m.turbofish.as_ref().map(|t| { let mut a = t.args.clone(); for x in a.iter_mut() { if let syn::GenericArgument::Type(ty) = x { strip_ty(ty, self.u); } } a.to_token_stream() });
                self.collect_chain(c, tf)
            }
            "find" => {
                // iter_mut().find(..) on a place: locate the index, then borrow it
                if let Expr::MethodCall(s) = &c.source { if s.method == "iter_mut" && c.adapt.is_empty() {
                    let place = { let mut p = (*s.receiver).clone(); self.visit_expr_mut(&mut p); p };
                    let p = arg(0).unwrap();
                    let c2 = Chain { source: parse_quote!(#place.iter()), adapt: vec![] };
                    let i = format_ident!("i{}", k);
                    let inn = i.clone();
                    let body = self.loop_over(c2, Some(parse_quote!(#r.is_none())), None, Some(Box::new(move |s, x| {
                        let mut b = s.apply(&p, vec![parse_quote!(&#x)]);
                        s.visit_expr_mut(&mut b);
                        let y = s.fresh("k");
                        vec![parse_quote!(let #y = #b;), parse_quote!(if #y { #rn = Some(#inn); }), parse_quote!(#inn = #inn + 1;)]
                    })));
                    self.rule("L3c: iter_mut().find as index search");
                    let j = self.fresh("j");
                    let ga = self.raw_stmt(format!("let ghost gi{k}: int = 0;"));
                    let _ = ga;
                    self.auto_inv.get_mut(&k).unwrap().0.push_str(&format!("{i} == it{k}.pos(), {r} matches Some(q) ==> 0 <= q < it{k}.pos(),\n"));
                    return parse_quote!({ let mut #i: usize = 0; let mut #r: Option<usize> = None; #(#body)* match #r { Some(#j) => Some(&mut #place[#j]), None => None } });
                } }
                // on an iterator variable `find` borrows: what is left of the iterator stays in it
                let back: Vec<Stmt> = match &c.source { Expr::Path(v) if c.adapt.is_empty() => { let (v, it) = (v.clone(), format_ident!("it{}", k)); vec![parse_quote!(#v = #it;)] } _ => vec![] };
                let p = arg(0).unwrap();
                let body = self.loop_over(c, Some(parse_quote!(#r.is_none())), None, Some(Box::new(move |s, x| {
                    let mut b = s.apply(&p, vec![parse_quote!(&#x)]);
                    s.visit_expr_mut(&mut b);
                    let y = s.fresh("k");
                    vec![parse_quote!(let #y = #b;), parse_quote!(if #y { #rn = Some(#x); })]
                })));
                parse_quote!({ let mut #r = None; #(#body)* #(#back)* #r })
            }
            "find_map" => {
                let p = arg(0).unwrap();
                let body = self.loop_over(c, Some(parse_quote!(#r.is_none())), None, Some(Box::new(move |s, x| {
                    let mut b = s.apply(&p, vec![x]);
                    s.visit_expr_mut(&mut b);
                    vec![parse_quote!(#rn = #b;)]
                })));
                parse_quote!({ let mut #r = None; #(#body)* #r })
            }
            "any" | "all" => {
                let any = n == "any";
                let p = arg(0).unwrap();
                let init: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
                let stop: Expr = if any { parse_quote!(!#r) } else { parse_quote!(#r) };
                let body = self.loop_over(c, Some(stop), None, Some(Box::new(move |s, x| {
                    let mut b = s.apply(&p, vec![x]);
                    s.visit_expr_mut(&mut b);
                    vec![parse_quote!(#rn = #b;)]
                })));
                parse_quote!({ let mut #r: bool = #init; #(#body)* #r })
            }
            "position" => {
                let p = arg(0).unwrap();
                let i = format_ident!("i{}", k);
                let inn = i.clone();
                let body = self.loop_over(c, Some(parse_quote!(#r.is_none())), None, Some(Box::new(move |s, x| {
                    let mut b = s.apply(&p, vec![x]);
                    s.visit_expr_mut(&mut b);
                    let y = s.fresh("k");
                    vec![parse_quote!(let #y = #b;), parse_quote!(if #y { #rn = Some(#inn); }), parse_quote!(#inn = #inn + 1;)]
                })));
                self.auto_inv.get_mut(&k).unwrap().0.push_str(&format!("{i} == it{k}.pos(), {r} matches Some(q) ==> 0 <= q < it{k}.pos() && q as int == {i} - 1,\n"));
                parse_quote!({ let mut #i: usize = 0; let mut #r: Option<usize> = None; #(#body)* #r })
            }
            "fold" => {
                let mut init = arg(0).unwrap();
                self.visit_expr_mut(&mut init);
                let p = arg(1).unwrap();
                let acc = format_ident!("acc{}", k);
                let accn = acc.clone();
                let body = self.loop_over(c, None, None, Some(Box::new(move |s, x| {
                    let mut b = s.apply_fold(&p, parse_quote!(#accn), x);
                    s.visit_expr_mut(&mut b);
                    vec![parse_quote!(#accn = #b;)]
                })));
                // loop numbering: the init expression is evaluated first
                parse_quote!({ let mut #acc = #init; #(#body)* #acc })
            }
            "for_each" => {
                let p = arg(0).unwrap();
                let body = self.loop_over(c, None, None, Some(Box::new(move |s, x| {
                    let mut b = s.apply(&p, vec![x]);
                    s.visit_expr_mut(&mut b);
                    vec![Stmt::Expr(b, Some(Default::default()))]
                })));
                parse_quote!({ #(#body)* })
            }
            "count" => {
                let body = self.loop_over(c, None, None, Some(Box::new(move |_, _x| vec![parse_quote!(#rn = #rn + 1;)])));
                parse_quote!({ let mut #r: usize = 0; #(#body)* #r })
            }
            "next" if c.adapt.is_empty() => { let src = self.source_expr(c.source); parse_quote!(#src.next()) }
            "next" => {
                let body = self.loop_over(c, Some(parse_quote!(#r.is_none())), None, Some(Box::new(move |_, x| vec![parse_quote!(#rn = Some(#x);)])));
                parse_quote!({ let mut #r = None; #(#body)* #r })
            }
            "last" => {
                let body = self.loop_over(c, None, None, Some(Box::new(move |_, x| vec![parse_quote!(#rn = Some(#x);)])));
                parse_quote!({ let mut #r = None; #(#body)* #r })
            }
            "min_by_key" => {
                let p = arg(0).unwrap();
                let body = self.loop_over(c, None, None, Some(Box::new(move |s, x| {
                    let cur = s.fresh("cur");
                    let (kx, kc, better) = (s.fresh("kx"), s.fresh("kc"), s.fresh("b"));
                    let mut b1 = s.apply(&p, vec![parse_quote!(&#x)]);
                    s.visit_expr_mut(&mut b1);
                    let mut b2 = s.apply(&p, vec![parse_quote!(#cur)]);
                    s.visit_expr_mut(&mut b2);
                    vec![
                        parse_quote!(let #better = match &#rn { None => true, Some(#cur) => { let #kx = #b1; let #kc = #b2; vx_lt(&#kx, &#kc) } };),
                        parse_quote!(if #better { #rn = Some(#x); }),
                    ]
                })));
                parse_quote!({ let mut #r = None; #(#body)* #r })
            }
            "unzip" => {
                let (a, b) = (format_ident!("ua{}", k), format_ident!("ub{}", k));
                let (a2, b2) = (a.clone(), b.clone());
                let body = self.loop_over(c, None, None, Some(Box::new(move |_, x| vec![parse_quote!(let (vx_l, vx_r) = #x;), parse_quote!(#a2.push(vx_l);), parse_quote!(#b2.push(vx_r);)])));
                parse_quote!({ let mut #a = Vec::new(); let mut #b = Vec::new(); #(#body)* (#a, #b) })
            }
            "partition" => {
                let (a, b) = (format_ident!("pa{}", k), format_ident!("pb{}", k));
                let (a2, b2) = (a.clone(), b.clone());
                let p = arg(0).unwrap();
                let body = self.loop_over(c, None, None, Some(Box::new(move |s, x| {
                    let mut e = s.apply(&p, vec![parse_quote!(&#x)]);
                    s.visit_expr_mut(&mut e);
                    let y = s.fresh("k");
                    vec![parse_quote!(let #y = #e;), parse_quote!(if #y { #a2.push(#x); } else { #b2.push(#x); })]
                })));
                parse_quote!({ let mut #a = Vec::new(); let mut #b = Vec::new(); #(#body)* (#a, #b) })
            }
            "min" | "max" | "sum" => {
                let f = format_ident!("vx_{}", n);
                let src = if c.adapt.is_empty() { self.source_expr(c.source) } else { let v = self.collect_chain(c, Some(quote!(Vec<_>))); parse_quote!(#v.vx_into_iter()) };
                parse_quote!(#src.#f())
            }
            _ => { self.fail(format!("sink {n}")); parse_quote!(()) }
        }
    }
    /// fold closure application: bind accumulator pattern and item pattern
    fn apply_fold(&mut self, f: &Expr, acc: Expr, x: Expr) -> Expr {
        self.apply(f, vec![acc, x])
    }

    // ---------- options ----------
    fn lower_option(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let is_fnarg = |e: &Expr| matches!(unwrap_paren(e), Expr::Closure(_) | Expr::Path(_));
        let recv = (*m.receiver).clone();
        if self.is_result(&recv) { return self.lower_result(m); }
        let y = self.fresh("o");
        let ye: Expr = parse_quote!(#y);
        let a = |i: usize| m.args.iter().nth(i).cloned().unwrap();
        let e: Expr = match (n.as_str(), m.args.len()) {
            ("map", 1) if is_fnarg(&a(0)) => { let b = self.apply(&a(0), vec![ye]); parse_quote!(match #recv { Some(#y) => Some(#b), None => None }) }
            ("and_then", 1) if is_fnarg(&a(0)) => { let b = self.apply(&a(0), vec![ye]); parse_quote!(match #recv { Some(#y) => #b, None => None }) }
            ("next_if", 1) if matches!(recv, Expr::Path(_)) => { let b = self.apply(&a(0), vec![ye]); parse_quote!(match #recv.vx_peek() { Some(#y) => if #b { #recv.next() } else { None }, None => None }) }
            ("or_else", 1) => { let b = self.apply(&a(0), vec![]); parse_quote!(match #recv { Some(#y) => Some(#y), None => #b }) }
            ("unwrap_or_else", 1) => { let b = self.apply(&a(0), vec![]); parse_quote!(match #recv { Some(#y) => #y, None => #b }) }
            ("map_or", 2) => { let d = a(0); let b = self.apply(&a(1), vec![ye]); let t = self.fresh("d"); parse_quote!({ let #t = #d; match #recv { Some(#y) => #b, None => #t } }) }
            ("map_or_else", 2) => { let d = self.apply(&a(0), vec![]); let b = self.apply(&a(1), vec![ye]); parse_quote!(match #recv { Some(#y) => #b, None => #d }) }
            ("is_some_and", 1) => { let b = self.apply(&a(0), vec![ye]); parse_quote!(match #recv { Some(#y) => #b, None => false }) }
            ("is_none_or", 1) => { let b = self.apply(&a(0), vec![ye]); parse_quote!(match #recv { Some(#y) => #b, None => true }) }
            ("filter", 1) => { let b = self.apply(&a(0), vec![parse_quote!(&#y)]); parse_quote!(match #recv { Some(#y) => if #b { Some(#y) } else { None }, None => None }) }
            ("ok_or", 1) => { let d = a(0); let t = self.fresh("d"); parse_quote!({ let #t = #d; match #recv { Some(#y) => Ok(#y), None => Err(#t) } }) }
            ("ok_or_else", 1) => { let d = self.apply(&a(0), vec![]); parse_quote!(match #recv { Some(#y) => Ok(#y), None => Err(#d) }) }
            ("zip", 1) => { let b = a(0); let z = self.fresh("z"); parse_quote!(match (#recv, #b) { (Some(#y), Some(#z)) => Some((#y, #z)), _ => None }) }
            ("then", 1) => { let b = self.apply(&a(0), vec![]); parse_quote!(if #recv { Some(#b) } else { None }) }
            ("then_some", 1) => { let b = a(0); let t = self.fresh("t"); let c = self.fresh("c"); parse_quote!({ let #c = #recv; let #t = #b; if #c { Some(#t) } else { None } }) }
            ("get_or_init", 1) if matches!(unwrap_paren(&recv), Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.once.contains(&i.to_string()))) => { let b = self.apply(&a(0), vec![]); parse_quote!(vx_leak(#b)) }
            ("get_or_init", 1) => { let b = self.apply(&a(0), vec![]); parse_quote!(match #recv.vx_get() { Some(#y) => #y, None => #recv.vx_store(#b) }) }
            ("or_insert_with", 1) => { let b = self.apply(&a(0), vec![]); parse_quote!(#recv.or_insert(#b)) }
            _ => return None,
        };
        self.rule("L2: Option/bool combinator");
        Some(e)
    }

    /// does the expression have type Result? (known callees, `results` of the unit, signatures in the sources)
    fn is_result(&self, e: &Expr) -> bool {
        const M: &[&str] = &["parse", "try_into", "ok_or", "ok_or_else", "map_err", "from_str_radix", "from_utf8", "try_from", "Ok", "Err"];
        const KEEP: &[&str] = &["map", "and_then", "or_else", "or"];
        let known = |n: &str| M.contains(&n) || self.u.results.iter().any(|r| r == n);
        let by_sig = |k: &dyn Fn(&str) -> bool| { let c: Vec<&Found> = self.src.fns.iter().filter(|(q, _)| k(q)).map(|(_, f)| f).collect(); !c.is_empty() && c.iter().all(|f| returns_result(&f.sig)) };
        match unwrap_paren(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if KEEP.contains(&n.as_str()) { return self.is_result(&m.receiver); }
                known(&n) || by_sig(&|q| q.ends_with(&format!("::{n}")) && !q.contains(" as "))
            }
            Expr::Call(c) => { let Expr::Path(p) = &*c.func else { return false }; let n = p.path.segments.last().unwrap().ident.to_string(); known(&n) || (p.path.segments.len() == 1 && by_sig(&|q| q == n)) }
            Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.ress.contains(&i.to_string()) || self.u.results.iter().any(|r| i == r.as_str())),
            _ => false,
        }
    }
    fn lower_result(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let recv = (*m.receiver).clone();
        let (y, x) = (self.fresh("o"), self.fresh("e"));
        let (ye, xe): (Expr, Expr) = (parse_quote!(#y), parse_quote!(#x));
        let a = |i: usize| m.args.iter().nth(i).cloned().unwrap();
        let e: Expr = match (n.as_str(), m.args.len()) {
            ("map", 1) => { let b = self.apply(&a(0), vec![ye]); parse_quote!(match #recv { Ok(#y) => Ok(#b), Err(#x) => Err(#x) }) }
            ("map_err", 1) => { let b = self.apply(&a(0), vec![xe]); parse_quote!(match #recv { Ok(#y) => Ok(#y), Err(#x) => Err(#b) }) }
            ("and_then", 1) => { let b = self.apply(&a(0), vec![ye]); parse_quote!(match #recv { Ok(#y) => #b, Err(#x) => Err(#x) }) }
            ("or_else", 1) => { let b = self.apply(&a(0), vec![xe]); parse_quote!(match #recv { Ok(#y) => Ok(#y), Err(#x) => #b }) }
            ("unwrap_or_else", 1) => { let b = self.apply(&a(0), vec![xe]); parse_quote!(match #recv { Ok(#y) => #y, Err(#x) => #b }) }
            ("unwrap_or", 1) => { let d = a(0); let t = self.fresh("d"); parse_quote!({ let #t = #d; match #recv { Ok(#y) => #y, Err(_) => #t } }) }
            ("unwrap_or_default", 0) => parse_quote!(match #recv { Ok(#y) => #y, Err(_) => vx_default() }),
            ("map_or", 2) => { let d = a(0); let b = self.apply(&a(1), vec![ye]); let t = self.fresh("d"); parse_quote!({ let #t = #d; match #recv { Ok(#y) => #b, Err(_) => #t } }) }
            ("map_or_else", 2) => { let d = self.apply(&a(0), vec![xe]); let b = self.apply(&a(1), vec![ye]); parse_quote!(match #recv { Ok(#y) => #b, Err(#x) => #d }) }
            ("is_ok_and", 1) => { let b = self.apply(&a(0), vec![ye]); parse_quote!(match #recv { Ok(#y) => #b, Err(_) => false }) }
            _ => return None,
        };
        self.rule("L2: Result combinator");
        Some(e)
    }

    // ---------- helper inlining ----------
    fn helper_key(&self, e: &Expr) -> Option<(String, Option<Expr>, Vec<Expr>)> {
        let own_ty = self.found.self_ty.as_ref().map(|s| s.split(['<', ' ']).next().unwrap().to_string());
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let key = match segs.len() {
                    1 => segs[0].clone(),
                    2 if segs[0] == "Self" => format!("{}::{}", own_ty?, segs[1]),
                    2 => format!("{}::{}", segs[0], segs[1]),
                    _ => segs.last().unwrap().clone(),
                };
                if self.known.contains(&key) || self.u.stubbed.contains(segs.last().unwrap()) || self.u.stubbed.contains(&key) { return None; }
                if !self.src.fns.contains_key(&key) { return None; }
                let f = &self.src.fns[&key];
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(_))) {
                    let mut a = args; if a.is_empty() { return None; }
                    let r = a.remove(0);
                    return Some((key, Some(r), a));
                }
                Some((key, None, args))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.u.stubbed.contains(&n) || self.u.keep_methods.contains(&n) { return None; }
                // candidates: any inherent method of that name in the unit's sources
                let cands: Vec<&String> = self.src.fns.keys().filter(|k| k.ends_with(&format!("::{n}")) && !k.contains(" as ")).collect();
                if cands.is_empty() { return None; }
                let own = own_ty.map(|t| format!("{t}::{n}"));
                let key = if path_ident(&m.receiver).as_deref() == Some("self") && own.as_ref().is_some_and(|o| self.src.fns.contains_key(o)) { own.unwrap() }
                    else if cands.len() == 1 { cands[0].clone() } else { return None };
                if self.known.contains(&key) || self.u.stubbed.contains(&key) { return None; }
                Some((key, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }
    fn inline(&mut self, key: &str, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 6 { self.fail(format!("inlining of {key} too deep")); return None; }
        if self.src.dup.iter().any(|d| d == key) { self.fail(format!("several nested functions named {key}")); return None; }
        let f = &self.src.fns[key];
        let mut body = f.block.clone();
        if has_early_exit_block(&body) {
            RES.with(|c| c.set(returns_result(&f.sig)));
            match elim_block(&body) {
                Ok(e) => { self.rule("L8: early exits structured"); body = parse_quote!({ #e }); }
                Err(e) => { self.fail(format!("helper {key} has early exits that cannot be structured: {e}")); return None; }
            }
        }
        if let Some(t) = &f.self_ty { if let Ok(id) = syn::parse_str::<Ident>(t.split(['<', ' ']).next().unwrap()) { SelfTy(&id).visit_block_mut(&mut body); } }
        self.tmp += 1;
        let suf = self.tmp;
        let mut names = BTreeSet::new();
        for i in &f.sig.inputs { if let syn::FnArg::Typed(t) = i { Binders(&mut names).visit_pat(&t.pat); } }
        Binders(&mut names).visit_block(&body);
        Rename(&names, suf).visit_block_mut(&mut body);
        let mut pre: Vec<Stmt> = vec![];
        let mut subst: HashMap<String, Expr> = HashMap::new();
        let mut it = args.into_iter();
        for i in &f.sig.inputs {
            match i {
                syn::FnArg::Receiver(_) => {}
                syn::FnArg::Typed(t) => {
                    let a = it.next()?;
                    let mut pat = (*t.pat).clone();
                    Rename(&names, suf).visit_pat_mut(&mut pat);
                    if let Some(c) = self.closure_of(&a) {
                        if let Pat::Ident(pi) = &pat { subst.insert(pi.ident.to_string(), Expr::Closure(c)); continue; }
                    }
                    pre.push(parse_quote!(let #pat = #a;));
                }
            }
        }
        if let Some(r) = recv {
            // place expressions are substituted, anything else is bound first
            fn is_place(e: &Expr) -> bool { match unwrap_paren(e) { Expr::Path(_) => true, Expr::Field(f) => is_place(&f.base), _ => false } }
            let r2 = if is_place(&r) { r } else { let t = self.fresh("recv"); pre.insert(0, parse_quote!(let #t = #r;)); parse_quote!(#t) };
            subst.insert("self".into(), r2);
        }
        SubstIdent(&subst).visit_block_mut(&mut body);
        let st = body.stmts;
        self.inlined.push(key.to_string());
        self.rule("L6: helper inlined");
        Some(parse_quote!({ #(#pre)* #(#st)* }))
    }
}

impl Lower<'_> {
    /// `M.entry(K).and_modify(|p| B).or_insert(V)` whose value is not used: look the key up, change
    /// what is there, evaluate V, insert it where nothing was there
    fn lower_entry(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        if !matches!(n.as_str(), "or_insert" | "or_insert_with" | "or_default") { return None; }
        let Expr::MethodCall(am) = unwrap_paren(&m.receiver) else { return None };
        if am.method != "and_modify" || am.args.len() != 1 { return None; }
        let Expr::MethodCall(en) = unwrap_paren(&am.receiver) else { return None };
        if en.method != "entry" || en.args.len() != 1 { return None; }
        let (mut map, mut k) = ((*en.receiver).clone(), en.args[0].clone());
        let (kn, on, pn, vn) = (self.fresh("key"), self.fresh("occ"), self.fresh("held"), self.fresh("new"));
        self.visit_expr_mut(&mut map);
        self.visit_expr_mut(&mut k);
        let mut b = self.apply(&am.args[0], vec![parse_quote!(#pn)]);
        self.visit_expr_mut(&mut b);
        self.rule("L21: entry/and_modify/or_insert as lookup and insertion");
        let mut v: Expr = match n.as_str() { "or_insert" => m.args[0].clone(), "or_insert_with" => self.apply(&m.args[0], vec![]), _ => parse_quote!(vx_default()) };
        self.visit_expr_mut(&mut v);
        Some(if n == "or_insert" {
            parse_quote!({ let #kn = #k; let #on = if let Some(#pn) = #map.get_mut(&#kn) { #b; true } else { false }; let #vn = #v; if !#on { #map.insert(#kn, #vn); } })
        } else {
            parse_quote!({ let #kn = #k; let #on = if let Some(#pn) = #map.get_mut(&#kn) { #b; true } else { false }; if !#on { let #vn = #v; #map.insert(#kn, #vn); } })
        })
    }
}

/// `Self` in an inlined method
struct SelfTy<'a>(&'a Ident);
impl VisitMut for SelfTy<'_> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if let Some(s) = p.segments.first_mut() { if s.ident == "Self" { s.ident = self.0.clone(); } }
        visit_mut::visit_path_mut(self, p);
    }
}

/// calls on the entry of an L23 match
struct EntryCalls<'a> { var: &'a syn::Ident, held: Option<&'a syn::Ident>, map: &'a Expr, key: &'a syn::Ident, bad: bool }
impl VisitMut for EntryCalls<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if path_ident(&m.receiver).is_some_and(|i| *self.var == i) {
                let (map, key) = (self.map, self.key);
                let n: Expr = match (m.method.to_string().as_str(), m.args.len(), self.held) {
                    ("get_mut" | "into_mut", 0, Some(h)) => parse_quote!(#h),
                    ("get", 0, Some(h)) => parse_quote!((&*#h)),
                    ("key", 0, _) => parse_quote!((&#key)),
                    ("insert", 1, None) => { let mut v = m.args[0].clone(); self.visit_expr_mut(&mut v); parse_quote!(#map.insert(#key, #v)) }
                    _ => { self.bad = true; return; }
                };
                *e = n;
                return;
            }
        }
        if let Expr::Path(p) = e { if p.path.is_ident(self.var) { self.bad = true; } }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl Lower<'_> {
    /// `match M.entry(K) { Entry::Occupied(e) => A, Entry::Vacant(e) => B }`
    fn lower_entry_match(&mut self, m: &syn::ExprMatch) -> Option<Expr> {
        let Expr::MethodCall(en) = unwrap_paren(&m.expr) else { return None };
        if en.method != "entry" || en.args.len() != 1 || m.arms.len() != 2 { return None; }
        let (kn, held) = (self.fresh("key"), self.fresh("held"));
        let map = (*en.receiver).clone();
        let (mut occ, mut vac) = (None, None);
        for a in &m.arms {
            let Pat::TupleStruct(t) = &a.pat else { return None };
            if a.guard.is_some() || t.elems.len() != 1 { return None; }
            let Pat::Ident(v) = &t.elems[0] else { return None };
            let o = match t.path.segments.last()?.ident.to_string().as_str() { "Occupied" => true, "Vacant" => false, _ => return None };
            let mut b = (*a.body).clone();
            let mut c = EntryCalls { var: &v.ident, held: if o { Some(&held) } else { None }, map: &map, key: &kn, bad: false };
            c.visit_expr_mut(&mut b);
            if c.bad { return None; }
            if o { occ = Some(b); } else { vac = Some(b); }
        }
        let (a, b, k) = (occ?, vac?, &en.args[0]);
        self.rule("L23: match on a map entry as lookup and insertion");
        let mut x: Expr = parse_quote!({ let #kn = #k; match #map.get_mut(&#kn) { Some(#held) => #a, None => #b } });
        self.visit_expr_mut(&mut x);
        Some(x)
    }
}

impl VisitMut for Lower<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.closures.push(HashMap::new());
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        for (i, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            match &s {
                Stmt::Macro(m) if is_log(&m.mac) => { self.rule("L1: logging dropped"); continue; }
                Stmt::Item(Item::Use(_)) => continue,
                Stmt::Item(Item::Static(st)) if self.found.sig.inputs.is_empty() && matches!(st.mutability, syn::StaticMutability::None) && quote::quote!(#st).to_string().ends_with("= OnceLock :: new () ;") => {
                    self.rule("L20: local OnceLock holds the value of its initialiser");
                    self.once.insert(st.ident.to_string());
                    continue;
                }
                Stmt::Item(Item::Fn(_)) => { self.rule("L14: nested fn lifted to the top level"); continue; }
                Stmt::Expr(Expr::Macro(m), _) if is_log(&m.mac) => { self.rule("L1: logging dropped"); continue; }
                Stmt::Local(l) => {
                    if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                        if let Expr::Closure(c) = unwrap_paren(&init.expr) {
                            self.closures.last_mut().unwrap().insert(p.ident.to_string(), c.clone());
                            self.rule("L5: let-bound closure");
                            continue;
                        }
                    }
                }
                _ => {}
            }
            // statement-position macros that are expressions at the tail
            if let Stmt::Macro(m) = &s { if i + 1 == n && m.semi_token.is_none() { s = Stmt::Expr(Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() }), None); } }
            if let Stmt::Local(l) = &mut s { if let Pat::Type(t) = &mut l.pat { strip_ty(&mut t.ty, self.u); } l.attrs.clear(); }
            if let Stmt::Local(l) = &mut s { if let Pat::Ident(p) = &mut l.pat { if self.u.mutlets.iter().any(|m| p.ident == m.as_str()) && p.mutability.is_none() { p.mutability = Some(Default::default()); self.rule("L18: interior mutation of a local written as mutation"); } } }
            if let Stmt::Local(l) = &mut s {
                // `let x;` stays
                let chain = l.init.as_ref().and_then(|i| self.chain_of(&i.expr));
                let unsunk = chain.as_ref().is_some_and(|c| !c.adapt.is_empty());
                let bound = if let Pat::Ident(p) = &l.pat { Some(p.ident.to_string()) } else { None };
                let res = bound.is_some() && l.init.as_ref().is_some_and(|i| i.diverge.is_none() && self.is_result(&i.expr));
                if let Some(init) = &mut l.init { self.visit_expr_mut(&mut init.expr); if unsunk && bound.is_some() { let x = &init.expr; init.expr = Box::new(parse_quote!(#x.vx_into_iter())); } if let Some((_, d)) = &mut init.diverge { self.visit_expr_mut(d); } }
                if let Some(b) = &bound { if res { self.ress.insert(b.clone()); } else { self.ress.remove(b); } }
                if let Some(b) = bound { if chain.is_some() { self.iters.insert(b); } else { self.iters.remove(&b); } }
            } else if let Stmt::Expr(e, semi) = &mut s {
                self.visit_expr_mut(e);
                let _ = semi;
            } else { visit_mut::visit_stmt_mut(self, &mut s); }
            out.push(s);
        }
        b.stmts = out;
        self.closures.pop();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.err.is_some() { return; }
        // helper inlining first
        if let Some((key, recv, args)) = self.helper_key(e) {
            if let Some(mut x) = self.inline(&key, recv, args) {
                self.depth += 1;
                self.visit_expr_mut(&mut x);
                self.depth -= 1;
                *e = x;
                return;
            }
        }
        match e {
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if is_log(&m.mac) { self.rule("L1: logging dropped"); *e = parse_quote!(()); return; }
                if name == "format" { let x = self.lower_format(&m.mac); *e = x; return; }
                if name == "vec" {
                    let p = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated);
                    if let Ok(p) = p {
                        let mut v: Vec<Expr> = p.into_iter().collect();
                        for x in v.iter_mut() { self.visit_expr_mut(x); }
                        if v.is_empty() { *e = parse_quote!(Vec::new()); }
                        else { *e = parse_quote!(vx_vec!(#(#v),*)); let t = self.fresh("vec"); *e = parse_quote!({ let mut #t = Vec::new(); #(#t.push(#v);)* #t }); }
                    }
                    return;
                }
                if name == "matches" {
                    // matches!(e, pat [if g])
                    struct M(Expr, Pat, Option<Expr>);
                    impl syn::parse::Parse for M { fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> { let e = i.parse()?; i.parse::<syn::Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(syn::Token![if]) { i.parse::<syn::Token![if]>()?; Some(i.parse()?) } else { None }; let _: Option<syn::Token![,]> = i.parse()?; Ok(M(e, p, g)) } }
                    if let Ok(M(mut x, p, g)) = syn::parse2::<M>(m.mac.tokens.clone()) {
                        self.visit_expr_mut(&mut x);
                        *e = match g { None => parse_quote!(match #x { #p => true, _ => false }), Some(mut g) => { self.visit_expr_mut(&mut g); parse_quote!(match #x { #p if #g => true, _ => false }) } };
                    }
                    return;
                }
                if name == "point" || name == "coord" {
                    struct F(Vec<(Ident, Expr)>);
                    impl syn::parse::Parse for F { fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> { let mut v = vec![]; while !i.is_empty() { let n: Ident = i.parse()?; i.parse::<syn::Token![:]>()?; let e: Expr = i.parse()?; v.push((n, e)); let _: Option<syn::Token![,]> = i.parse()?; } Ok(F(v)) } }
                    if let Ok(F(v)) = syn::parse2::<F>(m.mac.tokens.clone()) {
                        let mut x = None; let mut y = None;
                        for (n, mut ex) in v { self.visit_expr_mut(&mut ex); if n == "x" { x = Some(ex) } else { y = Some(ex) } }
                        if let (Some(x), Some(y)) = (x, y) { let f = format_ident!("vx_{}", name); *e = parse_quote!(#f(#x, #y)); return; }
                    }
                }
                if name == "unreachable" { *e = parse_quote!(vx_unreachable()); return; }
                return;
            }
            Expr::ForLoop(fl) => {
                let label = fl.label.clone();
                let pat = (*fl.pat).clone();
                let body = fl.body.clone();
                let c = match self.chain_of(&fl.expr) { Some(c) => c, None => { let x = (*fl.expr).clone(); Chain { source: parse_quote!(#x.into_iter()), adapt: vec![] } } };
                let stmts = if c.adapt.iter().any(|m| !matches!(m.method.to_string().as_str(), "rev" | "skip" | "take" | "dedup" | "zip" | "chain" | "enumerate" | "tuple_windows" | "copied")) {
                    // closure adaptors: bind the pattern inside the innermost body
                    self.loop_over(c, None, None, Some(Box::new(move |s, x| {
                        let mut b = body;
                        s.visit_block_mut(&mut b);
                        let st = b.stmts;
                        let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #x;)];
                        v.extend(st);
                        v
                    })))
                } else {
                    self.loop_over(c, None, Some((pat, Box::new(move |s, _| { let mut b = body; s.visit_block_mut(&mut b); b.stmts }))), None)
                };
                if label.is_some() { self.fail("labelled for loop".into()); }
                *e = parse_quote!({ #(#stmts)* });
                return;
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                self.visit_expr_mut(&mut w.cond);
                let hs = self.hint(&format!("loop{k}.start"));
                self.visit_block_mut(&mut w.body);
                let he = self.hint(&format!("loop{k}.end"));
                let kk = proc_macro2::Literal::usize_unsuffixed(k);
                let st = std::mem::take(&mut w.body.stmts);
                w.body.stmts = std::iter::once(parse_quote!(vx_loop! { #kk })).chain(hs).chain(st).chain(he).collect();
                // while let
                if let Expr::Let(l) = &*w.cond {
                    let (p, x) = (l.pat.clone(), l.expr.clone());
                    let st: Vec<Stmt> = w.body.stmts.drain(1..).collect();
                    *e = parse_quote!(loop { vx_loop! { #kk } match #x { #p => { #(#st)* } _ => { break; } } });
                    self.rule("L4b: while let");
                }
                self.around_loop(k, e);
                return;
            }
            Expr::Loop(w) => {
                let k = self.loops;
                self.loops += 1;
                let hs = self.hint(&format!("loop{k}.start"));
                self.visit_block_mut(&mut w.body);
                let he = self.hint(&format!("loop{k}.end"));
                let kk = proc_macro2::Literal::usize_unsuffixed(k);
                let st = std::mem::take(&mut w.body.stmts);
                w.body.stmts = std::iter::once(parse_quote!(vx_loop! { #kk })).chain(hs).chain(st).chain(he).collect();
                self.around_loop(k, e);
                return;
            }
            Expr::Call(c) => {
                if let Some(id) = path_ident(&c.func) {
                    let known = self.closures.iter().rev().find_map(|m| m.get(&id).cloned());
                    if let Some(cl) = known {
                        let args = c.args.iter().cloned().collect();
                        let mut x = self.apply_closure(&cl, args);
                        self.rule("L5: closure call reduced");
                        self.visit_expr_mut(&mut x);
                        *e = x;
                        return;
                    }
                }
                if let Expr::Closure(cl) = unwrap_paren(&c.func) {
                    let cl = cl.clone();
                    let args = c.args.iter().cloned().collect();
                    let mut x = self.apply_closure(&cl, args);
                    self.visit_expr_mut(&mut x);
                    *e = x;
                    return;
                }
            }
            Expr::Match(m) if matches!(unwrap_paren(&m.expr), Expr::MethodCall(en) if en.method == "entry") => {
                if let Some(x) = self.lower_entry_match(&m.clone()) { *e = x; return; }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Some(x) = self.lower_entry(&m.clone()) { *e = x; return; }
                if n == "clone_from" && m.args.len() == 1 && matches!(unwrap_paren(&m.receiver), Expr::Field(_)) {
                    let (mut r, mut a) = ((*m.receiver).clone(), m.args[0].clone());
                    self.visit_expr_mut(&mut r);
                    self.visit_expr_mut(&mut a);
                    self.rule("L22: clone_from as assignment of a clone");
                    *e = parse_quote!({ #r = vx_clone(#a); });
                    return;
                }
                if !self.u.keep_methods.contains(&n) {
                    // sink on a chain
                    if SINKS.contains(&n.as_str()) {
                        let stepping = n == "next" && matches!(unwrap_paren(&m.receiver), Expr::Path(_));
                        if let Some(c) = self.chain_of(&m.receiver).filter(|_| !stepping) {
                            let m2 = m.clone();
                            *e = self.lower_sink(&m2, c);
                            return;
                        }
                    }
                    if n == "extend" && m.args.len() == 1 {
                        if let Some(c) = self.chain_of(&m.args[0]) {
                            let v = self.collect_chain(c, Some(quote!(Vec<_>)));
                            let mut r = (*m.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            *e = parse_quote!(#r.vx_extend(#v));
                            return;
                        }
                    }
                    if self.chain_of(&Expr::MethodCall(m.clone())).is_none() {
                        let m2 = m.clone();
                        if let Some(mut x) = self.lower_option(&m2) {
                            self.visit_expr_mut(&mut x);
                            *e = x;
                            return;
                        }
                    } else if ADAPT.contains(&n.as_str()) {
                        // un-sunk chain in value position: buffer it
                        let c = self.chain_of(&Expr::MethodCall(m.clone())).unwrap();
                        *e = self.collect_chain(c, Some(quote!(Vec<_>)));
                        return;
                    } else {
                        // bare source in value position
                        let mut m2 = m.clone();
                        if SOURCES.contains(&n.as_str()) && n != "drain" { m2.method = format_ident!("vx_{}", n); }
                        visit_mut::visit_expr_method_call_mut(self, &mut m2);
                        *e = Expr::MethodCall(m2);
                        return;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
                if let Expr::MethodCall(m) = e {
                    let n = m.method.to_string();
                    if let Some((_, b)) = self.u.renames.iter().find(|(a, b)| *a == n && b.starts_with('.')) { m.method = Ident::new(&b[1..], Span::call_site()); return; }
                    if let Some((_, b)) = self.u.renames.iter().find(|(a, _)| *a == n) {
                        let f: syn::Path = syn::parse_str(b).unwrap();
                        let r = (*m.receiver).clone();
                        let a: Vec<Expr> = m.args.iter().cloned().collect();
                        let tf = m.turbofish.clone();
                        *e = match tf { Some(tf) => { let args = tf.args; parse_quote!(#f::<#args, _>(#r #(, #a)*)) } None => parse_quote!(#f(#r #(, #a)*)) };
                    }
                }
                return;
            }
            Expr::Cast(c) if self.f.floats && matches!(unwrap_paren(&c.expr), Expr::MethodCall(m) if ["round", "floor", "ceil", "trunc"].contains(&m.method.to_string().as_str())) => {
                self.visit_expr_mut(&mut c.expr);
                let (x, t) = (c.expr.clone(), &c.ty);
                let f = format_ident!("vx_f_as_{}", quote::quote!(#t).to_string());
                self.rule("L16: f64 arithmetic as functions");
                *e = parse_quote!(#f(#x));
                return;
            }
            Expr::Cast(c) if self.f.fcmp && ["f32", "f64"].contains(&quote::quote!(#c).to_string().rsplit(' ').next().unwrap_or("")) => {
                self.visit_expr_mut(&mut c.expr);
                let (x, t) = (c.expr.clone(), &c.ty);
                let f = format_ident!("vx_as_{}", quote::quote!(#t).to_string());
                self.rule("L16: f64 arithmetic as functions");
                *e = parse_quote!(#f(#x));
                return;
            }
            Expr::Unary(u) if self.f.floats && matches!(u.op, syn::UnOp::Neg(_)) && !matches!(unwrap_paren(&u.expr), Expr::Lit(_)) => {
                self.visit_expr_mut(&mut u.expr);
                let x = u.expr.clone();
                self.rule("L16: f64 arithmetic as functions");
                *e = parse_quote!(vx_fneg(#x));
                return;
            }
            Expr::Index(ix) if matches!(unwrap_paren(&ix.index), Expr::Range(_)) => {
                self.visit_expr_mut(&mut ix.expr);
                let base = ix.expr.clone();
                let Expr::Range(r) = unwrap_paren(&ix.index).clone() else { return };
                let (mut a, mut b) = (r.start.clone(), r.end.clone());
                if matches!(r.limits, syn::RangeLimits::Closed(_)) { self.fail("inclusive slice".into()); }
                if let Some(x) = &mut a { self.visit_expr_mut(x); }
                if let Some(x) = &mut b { self.visit_expr_mut(x); }
                self.rule("L17: range indexing as a function");
                *e = match (a, b) {
                    (Some(a), Some(b)) => parse_quote!((*vx_slice(&#base, #a, #b))),
                    (Some(a), None) => parse_quote!((*vx_slice_from(&#base, #a))),
                    (None, Some(b)) => parse_quote!((*vx_slice(&#base, 0, #b))),
                    (None, None) => parse_quote!((*vx_slice_from(&#base, 0))),
                };
                return;
            }
            Expr::Index(ix) if matches!(unwrap_paren(&ix.index), Expr::Reference(_)) => {
                self.visit_expr_mut(&mut ix.expr);
                self.visit_expr_mut(&mut ix.index);
                let (b, i) = (ix.expr.clone(), ix.index.clone());
                *e = parse_quote!((*#b.vx_at(#i)));
                return;
            }
            Expr::Index(ix) if path_ident(&ix.expr).is_some_and(|n| self.u.indexfns.iter().any(|(a, _)| *a == n)) => {
                let n = path_ident(&ix.expr).unwrap();
                let f: syn::Path = syn::parse_str(&self.u.indexfns.iter().find(|(a, _)| *a == n).unwrap().1).unwrap();
                self.visit_expr_mut(&mut ix.expr);
                self.visit_expr_mut(&mut ix.index);
                let (b, i) = (ix.expr.clone(), ix.index.clone());
                *e = parse_quote!((*#f(&#b, #i)));
                return;
            }
            Expr::Binary(b) => {
                if self.f.floats {
                    let int = |x: &Expr| matches!(unwrap_paren(x), Expr::Lit(l) if matches!(l.lit, syn::Lit::Int(_)));
                    let f = match b.op { _ if int(&b.left) || int(&b.right) => "", syn::BinOp::Add(_) => "vx_fadd", syn::BinOp::Sub(_) => "vx_fsub", syn::BinOp::Mul(_) => "vx_fmul", syn::BinOp::Div(_) => "vx_fdiv", _ => "" };
                    if !f.is_empty() {
                        self.visit_expr_mut(&mut b.left);
                        self.visit_expr_mut(&mut b.right);
                        let (f, l, r) = (format_ident!("{f}"), b.left.clone(), b.right.clone());
                        self.rule("L16: f64 arithmetic as functions");
                        *e = parse_quote!(#f(#l, #r));
                        return;
                    }
                }
                if self.f.fcmp {
                    let f = match b.op { syn::BinOp::Lt(_) => ("vx_clt", false), syn::BinOp::Gt(_) => ("vx_clt", true), syn::BinOp::Le(_) => ("vx_cle", false), syn::BinOp::Ge(_) => ("vx_cle", true), _ => ("", false) };
                    if !f.0.is_empty() {
                        self.visit_expr_mut(&mut b.left);
                        self.visit_expr_mut(&mut b.right);
                        let (n, l, r) = (format_ident!("{}", f.0), b.left.clone(), b.right.clone());
                        self.rule("L16: f64 arithmetic as functions");
                        *e = if f.1 { parse_quote!(#n(&(#r), &(#l))) } else { parse_quote!(#n(&(#l), &(#r))) };
                        return;
                    }
                }
                let fl = |x: &Expr| matches!(unwrap_paren(x), Expr::Lit(l) if matches!(l.lit, syn::Lit::Float(_)));
                if matches!(b.op, syn::BinOp::Ne(_)) && (fl(&b.left) || fl(&b.right)) {
                    self.visit_expr_mut(&mut b.left);
                    self.visit_expr_mut(&mut b.right);
                    let (l, r) = (b.left.clone(), b.right.clone());
                    self.rule("L13: != on floats as the negation of ==");
                    *e = parse_quote!(!(#l == #r));
                    return;
                }
                if matches!(b.op, syn::BinOp::BitOrAssign(_)) {
                    self.visit_expr_mut(&mut b.left);
                    self.visit_expr_mut(&mut b.right);
                    let (l, r) = (b.left.clone(), b.right.clone());
                    self.rule("L10: |= on bool");
                    *e = parse_quote!(#l = vx_or(#l, #r));
                    return;
                }
            }
            Expr::Path(p) => {
                let full = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                if let Some((_, b)) = self.u.callrenames.iter().find(|(a, _)| *a == full) {
                    p.path = syn::parse_str(b).unwrap();
                    return;
                }
                // flatten module paths
                let n = p.path.segments.len();
                if n > 1 {
                    let mods = p.path.segments.iter().take_while(|s| s.arguments.is_none() && s.ident.to_string().chars().next().unwrap().is_lowercase()).count();
                    let last_lower = mods == n;
                    let mut drop = if last_lower { n - 1 } else { mods };
                    // constants of primitive types (`u32::MAX`) keep their type
                    let prim = |s: &str| matches!(s, "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "f32" | "f64" | "char");
                    if !last_lower && drop > 0 && prim(&p.path.segments[drop - 1].ident.to_string()) { drop -= 1; }
                    if drop > 0 { let segs: Vec<_> = p.path.segments.iter().skip(drop).cloned().collect(); p.path.segments = segs.into_iter().collect(); p.path.leading_colon = None; }
                }
                for (a, b) in &self.u.tyrenames { if let Some(s) = p.path.segments.first_mut() { if s.ident == a.as_str() { s.ident = Ident::new(b, Span::call_site()); } } }
                return;
            }
            Expr::Struct(x) => {
                for (a, b) in &self.u.tyrenames { if let Some(s) = x.path.segments.first_mut() { if s.ident == a.as_str() { s.ident = Ident::new(b, Span::call_site()); } } }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_path_mut(&mut self, _p: &mut syn::Path) {}
}

impl Lower<'_> {
    fn around_loop(&mut self, k: usize, e: &mut Expr) {
        let b = self.hint(&format!("loop{k}.before"));
        let a = self.hint(&format!("loop{k}.after"));
        if b.is_empty() && a.is_empty() { return; }
        let x = e.clone();
        if a.is_empty() { *e = parse_quote!({ #(#b)* #x }); } else { *e = parse_quote!({ #(#b)* #x #(#a)* }); }
    }
    fn lower_format(&mut self, m: &syn::Macro) -> Expr {
        struct A(syn::LitStr, Vec<(Option<Ident>, Expr)>);
        impl syn::parse::Parse for A {
            fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                let l: syn::LitStr = i.parse()?;
                let mut v = vec![];
                while !i.is_empty() {
                    i.parse::<syn::Token![,]>()?;
                    if i.is_empty() { break; }
                    if i.peek(syn::Ident) && i.peek2(syn::Token![=]) && !i.peek2(syn::Token![==]) { let n: Ident = i.parse()?; i.parse::<syn::Token![=]>()?; v.push((Some(n), i.parse()?)); }
                    else { v.push((None, i.parse()?)); }
                }
                Ok(A(l, v))
            }
        }
        self.rule("L7: format! stub");
        let Ok(A(lit, args)) = syn::parse2::<A>(m.tokens.clone()) else { self.fail("format! not understood".into()); return parse_quote!(()) };
        let s = lit.value();
        let mut norm = String::new();
        let mut out: Vec<Expr> = vec![];
        let mut pos = 0;
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i] == '{' && cs.get(i + 1) == Some(&'{') { norm.push_str("{{"); i += 2; continue; }
            if cs[i] == '}' && cs.get(i + 1) == Some(&'}') { norm.push_str("}}"); i += 2; continue; }
            if cs[i] == '{' {
                let j = (i..cs.len()).find(|&j| cs[j] == '}').unwrap_or(cs.len() - 1);
                let inner: String = cs[i + 1..j].iter().collect();
                let (name, spec) = match inner.split_once(':') { Some((a, b)) => (a.to_string(), format!(":{b}")), None => (inner.clone(), String::new()) };
                let ex: Expr = if name.is_empty() {
                    let pl: Vec<&Expr> = args.iter().filter(|a| a.0.is_none()).map(|a| &a.1).collect();
                    let r = pl.get(pos).map(|e| (*e).clone()); pos += 1;
                    match r { Some(e) => e, None => { self.fail("format! arity".into()); return parse_quote!(()) } }
                } else if let Some(a) = args.iter().find(|a| a.0.as_ref().is_some_and(|n| *n == name)) { a.1.clone() }
                else { let id = Ident::new(&name, Span::call_site()); parse_quote!(#id) };
                norm.push_str(&format!("{{{spec}}}"));
                out.push(ex);
                i = j + 1;
                continue;
            }
            norm.push(cs[i]);
            i += 1;
        }
        for x in out.iter_mut() { self.visit_expr_mut(x); }
        // plain placeholders only: the text is the concatenation of its parts
        if self.u.concat_formats {
            let mut parts: Vec<Expr> = vec![];
            let t = self.fresh("fmt");
            let mut rest = norm.as_str();
            let mut k = 0;
            let mut ok = true;
            let mut litbuf = String::new();
            while !rest.is_empty() {
                if rest.starts_with("{{") || rest.starts_with("}}") { litbuf.push_str(&rest[..1]); rest = &rest[2..]; }
                else if rest.starts_with("{}") {
                    if !litbuf.is_empty() { let l = syn::LitStr::new(&litbuf, Span::call_site()); parts.push(parse_quote!(vx_push_lit(&mut #t, #l))); litbuf.clear(); }
                    let e = match &out[k] { x @ (Expr::Binary(_) | Expr::Cast(_) | Expr::Unary(_) | Expr::Range(_)) => parse_quote!((#x)), x => x.clone() }; let e = &e; k += 1;
                    parts.push(parse_quote!(vx_push_show(&mut #t, &#e)));
                    rest = &rest[2..];
                } else if let Some(w) = rest.strip_prefix("{:0").and_then(|r| r.split_once('}')).and_then(|(w, _)| w.parse::<usize>().ok()) {
                    if !litbuf.is_empty() { let l = syn::LitStr::new(&litbuf, Span::call_site()); parts.push(parse_quote!(vx_push_lit(&mut #t, #l))); litbuf.clear(); }
                    let e = match &out[k] { x @ (Expr::Binary(_) | Expr::Cast(_) | Expr::Unary(_) | Expr::Range(_)) => parse_quote!((#x)), x => x.clone() }; let e = &e; k += 1;
                    parts.push(parse_quote!(vx_push_padded(&mut #t, &#e, #w)));
                    rest = rest.split_once('}').unwrap().1;
                } else if let Some(w) = rest.strip_prefix("{:.").and_then(|r| r.split_once('}')).and_then(|(w, _)| w.parse::<usize>().ok()) {
                    if !litbuf.is_empty() { let l = syn::LitStr::new(&litbuf, Span::call_site()); parts.push(parse_quote!(vx_push_lit(&mut #t, #l))); litbuf.clear(); }
                    let e = match &out[k] { x @ (Expr::Binary(_) | Expr::Cast(_) | Expr::Unary(_) | Expr::Range(_)) => parse_quote!((#x)), x => x.clone() }; let e = &e; k += 1;
                    parts.push(parse_quote!(vx_push_fixed(&mut #t, &#e, #w)));
                    rest = rest.split_once('}').unwrap().1;
                } else if rest.starts_with('{') { ok = false; break; }
                else { let c = rest.chars().next().unwrap(); litbuf.push(c); rest = &rest[c.len_utf8()..]; }
            }
            if !litbuf.is_empty() { let l = syn::LitStr::new(&litbuf, Span::call_site()); parts.push(parse_quote!(vx_push_lit(&mut #t, #l))); }
            if ok { return parse_quote!({ let mut #t = vx_new_text(); #(#parts;)* #t }); }
        }
        let f = format_ident!("vx_format{}", out.len());
        let l = syn::LitStr::new(&norm, Span::call_site());
        parse_quote!(#f(#l #(, &#out)*))
    }
}

/// `&x` patterns: bind the reference, then `let x = *r;`
struct RefPats { n: usize, bad: Option<String> }
struct RefIn<'a> { n: &'a mut usize, out: Vec<Stmt>, bad: bool }
impl VisitMut for RefIn<'_> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            *self.n += 1;
            let id = format_ident!("vx_rp{}", *self.n);
            let mut inner = (*r.pat).clone();
            if matches!(inner, Pat::Wild(_)) { *p = parse_quote!(_); return; }
            if !matches!(inner, Pat::Ident(_) | Pat::Tuple(_) | Pat::Reference(_) | Pat::TupleStruct(_)) { self.bad = true; }
            let mut more = RefIn { n: self.n, out: vec![], bad: false };
            more.visit_pat_mut(&mut inner);
            let (o, b) = (more.out, more.bad);
            self.bad |= b;
            self.out.push(parse_quote!(let #inner = *#id;));
            self.out.extend(o);
            *p = parse_quote!(#id);
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
impl RefPats {
    fn pat(&mut self, p: &mut Pat) -> Vec<Stmt> {
        let mut r = RefIn { n: &mut self.n, out: vec![], bad: false };
        r.visit_pat_mut(p);
        let (o, b) = (r.out, r.bad);
        if b { self.bad = Some("reference pattern over a refutable pattern".into()); }
        o
    }
}
impl VisitMut for RefPats {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut post = vec![];
            if let Stmt::Local(l) = &mut s {
                if let (Pat::Reference(r), Some(init)) = (&l.pat, &l.init) {
                    if init.diverge.is_none() { let p = (*r.pat).clone(); let e = init.expr.clone(); l.pat = p; l.init = Some(syn::LocalInit { eq_token: Default::default(), expr: parse_quote!(*#e), diverge: None }); self.n += 1; }
                }
                post = self.pat(&mut l.pat);
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
            out.extend(post);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Match(m) => for a in m.arms.iter_mut() {
                let post = self.pat(&mut a.pat);
                if !post.is_empty() {
                    if a.guard.is_some() { self.bad = Some("reference pattern with a guard".into()); }
                    let x = a.body.clone();
                    *a.body = parse_quote!({ #(#post)* #x });
                }
            },
            Expr::If(i) => if let Expr::Let(l) = &mut *i.cond {
                let post = self.pat(&mut l.pat);
                for (k, p) in post.into_iter().enumerate() { i.then_branch.stmts.insert(k, p); }
            },
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// gives the accumulators introduced by the rules the type stated in the unit (`//@ type r0 T`)
struct TypeLets<'a>(&'a Vec<(String, String)>);
impl VisitMut for TypeLets<'_> {
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
        if let Pat::Ident(p) = &l.pat {
            if let Some((_, t)) = self.0.iter().find(|(a, _)| p.ident == a.as_str()) {
                if let Ok(t) = syn::parse_str::<syn::Type>(t) { let q = l.pat.clone(); l.pat = Pat::Type(syn::PatType { attrs: vec![], pat: Box::new(q), colon_token: Default::default(), ty: Box::new(t) }); }
            }
        }
    }
}

// ---------- substitution and renaming ----------
struct SubstIdent<'a>(&'a HashMap<String, Expr>);
impl VisitMut for SubstIdent<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.qself.is_none() { if let Some(i) = p.path.get_ident() { if let Some(x) = self.0.get(&i.to_string()) { *e = match x { Expr::Closure(_) => parse_quote!((#x)), Expr::Path(_) | Expr::Field(_) => x.clone(), x => parse_quote!((#x)) }; return; } } } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        // textual substitution inside macro arguments (format!, warn!, matches!)
        m.tokens = subst_tokens(m.tokens.clone(), self.0);
    }
}
fn subst_tokens(ts: TokenStream, m: &HashMap<String, Expr>) -> TokenStream {
    use proc_macro2::{Group, TokenTree};
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Ident(id) => {
                let after_dot = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.') ;
                if let (false, Some(x)) = (after_dot, m.get(&id.to_string())) { out.extend(x.to_token_stream()); } else { out.push(t.clone()); }
            }
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), subst_tokens(g.stream(), m)))),
            _ => out.push(t.clone()),
        }
    }
    out.into_iter().collect()
}
struct Binders<'a>(&'a mut BTreeSet<String>);
impl<'a> Visit<'a> for Binders<'_> {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let s = p.ident.to_string();
        if s.chars().next().unwrap().is_lowercase() || s.starts_with('_') { self.0.insert(s); }
        syn::visit::visit_pat_ident(self, p);
    }
}
struct Rename<'a>(&'a BTreeSet<String>, usize);
impl Rename<'_> { fn n(&self, i: &Ident) -> Ident { format_ident!("{}_h{}", i.to_string().trim_start_matches('_'), self.1) } }
impl VisitMut for Rename<'_> {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) { if self.0.contains(&p.ident.to_string()) { p.ident = self.n(&p.ident); } visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) { if let Some(i) = p.path.get_ident().cloned() { if self.0.contains(&i.to_string()) { let n = self.n(&i); p.path = parse_quote!(#n); } } }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } visit_mut::visit_field_value_mut(self, f); }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } visit_mut::visit_field_pat_mut(self, f); }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let map: HashMap<String, Expr> = self.0.iter().map(|s| { let i = self.n(&Ident::new(s, Span::call_site())); (s.clone(), parse_quote!(#i)) }).collect();
        // inline format arguments become explicit
        m.tokens = inline_fmt(m.tokens.clone(), self.0, self.1);
        m.tokens = subst_tokens(m.tokens.clone(), &map);
    }
}
fn inline_fmt(ts: TokenStream, names: &BTreeSet<String>, suf: usize) -> TokenStream {
    use proc_macro2::{Literal, TokenTree};
    ts.into_iter().map(|t| match &t {
        TokenTree::Literal(l) => {
            let s = l.to_string();
            if s.starts_with('"') {
                let mut r = s.clone();
                for n in names {
                    r = r.replace(&format!("{{{n}}}"), &format!("{{{n}_h{suf}}}")).replace(&format!("{{{n}:"), &format!("{{{n}_h{suf}:"));
                }
                if r != s { if let Ok(x) = syn::parse_str::<syn::LitStr>(&r) { return TokenTree::Literal(Literal::string(&x.value())); } }
            }
            t
        }
        _ => t,
    }).collect()
}

// ---------- early exits ----------
struct EarlyExit(bool);
impl<'a> Visit<'a> for EarlyExit {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
fn has_early_exit(e: &Expr) -> bool { let mut v = EarlyExit(false); v.visit_expr(e); v.0 }
fn has_early_exit_block(b: &Block) -> bool { let mut v = EarlyExit(false); v.visit_block(b); v.0 }
fn has_early_exit_stmt(s: &Stmt) -> bool { let mut v = EarlyExit(false); v.visit_stmt(s); v.0 }

pub fn elim_expr(e: &Expr) -> Result<Expr, String> {
    if !has_early_exit(e) { return Ok(e.clone()); }
    match e {
        Expr::Block(b) => { let x = elim_stmts(&b.block.stmts)?; Ok(parse_quote!({ #x })) }
        Expr::Paren(p) => elim_expr(&p.expr),
        _ => elim_stmts(&[Stmt::Expr(e.clone(), None)]),
    }
}
pub fn elim_block(b: &Block) -> Result<Expr, String> { elim_stmts(&b.stmts) }

fn block_expr(pre: &[Stmt], tail: Expr) -> Expr { if pre.is_empty() { tail } else { parse_quote!({ #(#pre)* #tail }) } }

/// value of a statement list in which `return`/`?` exit the list
fn elim_stmts(st: &[Stmt]) -> Result<Expr, String> {
    let Some(i) = st.iter().position(has_early_exit_stmt) else {
        return Ok(match st { [Stmt::Expr(e, None)] => e.clone(), _ => { let s = st; parse_quote!({ #(#s)* }) } });
    };
    let pre = &st[..i];
    let rest = &st[i + 1..];
    let inner = elim_one(&st[i], rest)?;
    Ok(block_expr(pre, inner))
}
fn elim_one(s: &Stmt, rest: &[Stmt]) -> Result<Expr, String> {
    // let-else / let with `?` / let with branching initialiser
    if let Stmt::Local(l) = s {
        let init = l.init.as_ref().ok_or("let without init")?;
        let pat = l.pat.clone();
        if let Some((_, d)) = &init.diverge {
            if has_early_exit(&init.expr) {
                let x = init.expr.clone();
                let (hoist, x2) = hoist_try(&x)?;
                if let Some((t, inner)) = hoist { let l2: Stmt = { let d = d.clone(); parse_quote!(let #pat = #x2 else #d;) }; let mut v = vec![l2]; v.extend_from_slice(rest); let r = elim_stmts(&v)?; return Ok(try_match(&inner, &t, &r)); }
                return Err("let-else".into());
            }
            let x = init.expr.clone();
            let d2 = elim_expr_tail(d)?;
            let r = elim_stmts(rest)?;
            let p2 = match &pat { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
            return Ok(parse_quote!(match #x { #p2 => #r, _ => #d2 }));
        }
        return cont_expr(&init.expr, &|v: Expr| { let mut st: Vec<Stmt> = vec![parse_quote!(let #pat = #v;)]; st.extend_from_slice(rest); elim_stmts(&st) });
    }
    if let Stmt::Expr(e, semi) = s {
        if rest.is_empty() && semi.is_none() { return elim_expr_tail(e); }
        if rest.is_empty() {
            if let Expr::Return(_) = e { return elim_expr_tail(e); }
        }
        return cont_expr(e, &|v: Expr| { let mut st: Vec<Stmt> = vec![Stmt::Expr(v, Some(Default::default()))]; st.extend_from_slice(rest); elim_stmts(&st) });
    }
    Err("statement with early exit".into())
}
/// tail expression: its value is the result
fn elim_expr_tail(e: &Expr) -> Result<Expr, String> {
    if !has_early_exit(e) { return Ok(e.clone()); }
    match e {
        Expr::Return(r) => { let x: Expr = match &r.expr { Some(x) => (**x).clone(), None => parse_quote!(()) }; elim_expr_tail(&x) }
        Expr::Block(b) => { let x = elim_stmts(&b.block.stmts)?; Ok(parse_quote!({ #x })) }
        Expr::Paren(p) => elim_expr_tail(&p.expr),
        Expr::If(i) if !has_early_exit(&i.cond) => {
            let c = &i.cond;
            let t = elim_stmts(&i.then_branch.stmts)?;
            let el: Expr = match &i.else_branch { Some((_, x)) => elim_expr_tail(x)?, None => return Err("if without else at tail".into()) };
            Ok(parse_quote!(if #c { #t } else { #el }))
        }
        Expr::Match(m) if !has_early_exit(&m.expr) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() { if a.guard.as_ref().is_some_and(|g| has_early_exit(&g.1)) { return Err("guard".into()); } *a.body = elim_expr_tail(&a.body)?; if a.comma.is_none() { a.comma = Some(Default::default()); } }
            Ok(Expr::Match(m))
        }
        _ => {
            let (h, x) = hoist_try(e)?;
            match h { Some((t, inner)) => { let r = elim_expr_tail(&x)?; cont_expr(&inner, &|v| Ok(try_match(&v, &t, &r))) } None => Err("tail".into()) }
        }
    }
}
/// evaluate e (which may exit early), pass its value to k
fn cont_expr(e: &Expr, k: &dyn Fn(Expr) -> Result<Expr, String>) -> Result<Expr, String> {
    if !has_early_exit(e) { return k(e.clone()); }
    match e {
        Expr::Return(r) => { let x: Expr = match &r.expr { Some(x) => (**x).clone(), None => parse_quote!(()) }; elim_expr_tail(&x) }
        Expr::Paren(p) => cont_expr(&p.expr, k),
        Expr::Block(b) => {
            let st = &b.block.stmts;
            if let Some((Stmt::Expr(t, None), pre)) = st.split_last() {
                if pre.iter().any(has_early_exit_stmt) {
                    let i = pre.iter().position(has_early_exit_stmt).unwrap();
                    let (p0, p1) = (&pre[..i], &st[i..]);
                    // continue after the nested list by re-nesting
                    let tailst: Vec<Stmt> = p1[1..].to_vec();
                    let inner = elim_one_k(&p1[0], &tailst, k)?;
                    return Ok(block_expr(p0, inner));
                }
                let x = cont_expr(t, k)?;
                return Ok(block_expr(pre, x));
            }
            // block without value
            let i = st.iter().position(has_early_exit_stmt).unwrap();
            let tailst: Vec<Stmt> = st[i + 1..].to_vec();
            let inner = elim_one_k(&st[i], &tailst, k)?;
            Ok(block_expr(&st[..i], inner))
        }
        Expr::If(i) if !has_early_exit(&i.cond) => {
            let c = &i.cond;
            let tb: Expr = { let b = &i.then_branch; parse_quote!(#b) };
            let t = cont_expr(&tb, k)?;
            let el = match &i.else_branch { Some((_, x)) => cont_expr(x, k)?, None => k(parse_quote!(()))? };
            Ok(parse_quote!(if #c { #t } else { #el }))
        }
        Expr::Match(m) if !has_early_exit(&m.expr) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() { *a.body = cont_expr(&a.body, k)?; a.comma = Some(Default::default()); }
            Ok(Expr::Match(m))
        }
        Expr::Try(t) if !has_early_exit(&t.expr) => {
            let x = &t.expr;
            let v = Ident::new("vx_q", Span::call_site());
            let r = k(parse_quote!(#v))?;
            Ok(try_match(x, &v, &r))
        }
        _ => {
            let (h, x) = hoist_try(e)?;
            match h { Some((t, inner)) => { let r = cont_expr(&x, k)?; Ok(try_match(&inner, &t, &r)) } None => Err("expression with early exit".into()) }
        }
    }
}
fn elim_one_k(s: &Stmt, rest: &[Stmt], k: &dyn Fn(Expr) -> Result<Expr, String>) -> Result<Expr, String> {
    let cont_rest = |extra: Vec<Stmt>| -> Result<Expr, String> { let mut st = extra; st.extend_from_slice(rest); let b: Expr = parse_quote!({ #(#st)* }); cont_expr_block(&b, k) };
    if let Stmt::Local(l) = s {
        let init = l.init.as_ref().ok_or("let without init")?;
        let pat = l.pat.clone();
        if let Some((_, d)) = &init.diverge {
            let x = init.expr.clone();
            let d2 = elim_expr_tail(d)?;
            let r = cont_rest(vec![])?;
            return Ok(parse_quote!(match #x { #pat => #r, _ => #d2 }));
        }
        return cont_expr(&init.expr, &|v: Expr| cont_rest(vec![parse_quote!(let #pat = #v;)]));
    }
    if let Stmt::Expr(e, _) = s { return cont_expr(e, &|v: Expr| cont_rest(vec![Stmt::Expr(v, Some(Default::default()))])); }
    Err("stmt".into())
}
fn cont_expr_block(b: &Expr, k: &dyn Fn(Expr) -> Result<Expr, String>) -> Result<Expr, String> {
    if has_early_exit(b) { return cont_expr(b, k); }
    // keep scope: { stmts; k(tail) }
    if let Expr::Block(bl) = b {
        if let Some((Stmt::Expr(t, None), pre)) = bl.block.stmts.split_last() { let x = k(t.clone())?; return Ok(block_expr(pre, x)); }
        let x = k(parse_quote!(()))?;
        return Ok(block_expr(&bl.block.stmts, x));
    }
    k(b.clone())
}
/// pulls the first evaluated `x?` out of an expression
fn hoist_try(e: &Expr) -> Result<(Option<(Ident, Expr)>, Expr), String> {
    struct H { out: Option<(Ident, Expr)>, n: usize, bad: bool }
    impl VisitMut for H {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if self.out.is_some() { return; }
            match e { Expr::Closure(_) => return, Expr::If(_) | Expr::Match(_) | Expr::Binary(_) if has_early_exit(e) => { if !matches!(e, Expr::Binary(_)) { self.bad = true; return; } } _ => {} }
            visit_mut::visit_expr_mut(self, e);
            if self.out.is_some() { return; }
            if let Expr::Try(t) = e {
                let id = format_ident!("vx_t{}", self.n);
                self.out = Some((id.clone(), (*t.expr).clone()));
                *e = parse_quote!(#id);
            }
        }
    }
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let mut h = H { out: None, n: N.fetch_add(1, Ordering::Relaxed), bad: false };
    let mut x = e.clone();
    h.visit_expr_mut(&mut x);
    if h.bad { return Err("`?`/return under a branch inside an expression".into()); }
    Ok((h.out, x))
}

// ---------- statement anchors: call:NAME#n.before / .after, ret:#n ----------
struct CallAnchors { counts: HashMap<String, usize>, stack: Vec<Vec<String>>, wanted: BTreeSet<String>, plan: Vec<String>, retc: usize }
impl CallAnchors {
    fn hit(&mut self, name: &str) {
        let c = self.counts.entry(name.to_string()).or_default();
        let base = format!("call:{name}#{}", *c);
        *c += 1;
        if let Some(t) = self.stack.last_mut() { t.push(base); }
    }
}
impl VisitMut for CallAnchors {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            self.stack.push(vec![]);
            visit_mut::visit_stmt_mut(self, &mut s);
            let hits = self.stack.pop().unwrap();
            let mut after = vec![];
            for h in hits {
                for (suf, is_after) in [(".before", false), (".after", true)] {
                    let a = format!("{h}{suf}");
                    if self.wanted.contains(&a) {
                        let n = proc_macro2::Literal::usize_unsuffixed(self.plan.len());
                        self.plan.push(a);
                        let st: Stmt = parse_quote!(vx_anchor! { #n });
                        if is_after { after.push(st) } else { out.push(st) }
                    }
                }
            }
            if let Stmt::Expr(Expr::Return(_), _) = &s {
                let a = format!("ret:#{}", self.retc);
                self.retc += 1;
                if self.wanted.contains(&a) { let n = proc_macro2::Literal::usize_unsuffixed(self.plan.len()); self.plan.push(a); out.push(parse_quote!(vx_anchor! { #n })); }
            }
            if let Stmt::Local(l) = &s { if let Pat::Ident(p) = match &l.pat { Pat::Type(t) => &*t.pat, p => p } {
                let a = format!("let:{}", p.ident);
                if self.wanted.contains(&a) { let n = proc_macro2::Literal::usize_unsuffixed(self.plan.len()); self.plan.push(a); after.push(parse_quote!(vx_anchor! { #n })); }
            } }
            let tail_expr = matches!(&s, Stmt::Expr(_, None));
            if tail_expr && !after.is_empty() {
                if let Stmt::Expr(e, None) = s { out.push(parse_quote!(let vx_ret = #e;)); out.extend(after); out.push(Stmt::Expr(parse_quote!(vx_ret), None)); }
            } else { out.push(s); out.extend(after); }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) => { let n = m.method.to_string(); visit_mut::visit_expr_mut(self, e); self.hit(&n); return; }
            Expr::Call(c) => { if let Expr::Path(p) = &*c.func { let n = p.path.segments.last().unwrap().ident.to_string(); visit_mut::visit_expr_mut(self, e); self.hit(&n); return; } }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct AnchorFill<'a, 'b> { lw: &'b mut Lower<'a>, plan: Vec<String>, done: &'b mut BTreeSet<String> }
impl VisitMut for AnchorFill<'_, '_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Macro(m) = &s { if m.mac.path.is_ident("vx_anchor") {
                let n: usize = m.mac.tokens.to_string().trim().parse().unwrap();
                let a = self.plan[n].clone();
                self.done.insert(a.clone());
                out.extend(self.lw.hint(&a));
                continue;
            } }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
        }
        b.stmts = out;
    }
}
