//! vx: mechanical extraction of functions from /repo into one Verus file.
//!
//! vx UNIT.vrs --repo /repo --common DIR --out FILE.rs --report FILE.json
//!
//! The unit file names source items and gives contracts, loop invariants and
//! proof hints; the executable text always comes from /repo's current source.
//! Every rewriting rule applied is listed in lower.rs (and in DESIGN.md).
mod grammar;
mod lower;
mod print;
mod unit;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use syn::{Block, File, ImplItem, Item, Type};

pub struct Found {
    pub sig: syn::Signature,
    pub block: Block,
    /// `impl` self type tokens and trait path tokens
    pub self_ty: Option<String>,
    pub trait_: Option<String>,
    pub generics: syn::Generics,
    pub impl_items_other: Vec<ImplItem>,
    pub file: String,
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => ty_name(&r.elem),
        _ => quote::quote!(#t).to_string(),
    }
}

fn in_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string();
        s.contains("cfg") && s.contains("test") || s.contains("cfg") && s.contains("kani")
    })
}

pub struct Src {
    pub fns: HashMap<String, Found>,
    pub items: HashMap<String, Item>,
    pub consts: HashMap<String, Vec<ImplItem>>,
    pub top: Vec<(String, String)>, // fn key -> file
    pub dup: Vec<String>, // nested fn names used more than once
}

fn load(repo: &str, files: &[String]) -> Result<Src, String> {
    let mut s = Src { fns: HashMap::new(), items: HashMap::new(), consts: HashMap::new(), top: vec![], dup: vec![] };
    for f in files {
        let text = fs::read_to_string(format!("{repo}/{f}")).map_err(|e| format!("lost-anchor: source file {f}: {e}"))?;
        let file: File = syn::parse_file(&text).map_err(|e| format!("unparsable {f}: {e}"))?;
        walk(&file.items, f, &mut s);
    }
    Ok(s)
}

/// fn items nested in a body, as top-level functions (they capture nothing)
fn nested(b: &syn::Block, f: &str, s: &mut Src) {
    for st in &b.stmts {
        if let syn::Stmt::Item(Item::Fn(i)) = st {
            if s.fns.insert(i.sig.ident.to_string(), Found { sig: i.sig.clone(), block: (*i.block).clone(), self_ty: None, trait_: None, generics: Default::default(), impl_items_other: vec![], file: f.into() }).is_some() { s.dup.push(i.sig.ident.to_string()); }
            nested(&i.block, f, s);
        }
    }
}

/// what `#[derive(Default)]` expands to, as a function that can be put under contract
fn derived_default(name: &syn::Ident, attrs: &[syn::Attribute], generics: &syn::Generics, it: &Item, f: &str, s: &mut Src) {
    let derives = attrs.iter().any(|a| a.path().is_ident("derive") && quote::quote!(#a).to_string().replace(['(', ')', ',', ']'], " ").split_whitespace().any(|w| w == "Default"));
    if !derives || !generics.params.is_empty() { return; }
    let body: syn::Block = match it {
        Item::Enum(e) => match e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))) {
            Some(v) => { let v = &v.ident; syn::parse_quote!({ Self::#v }) }
            None => return,
        },
        Item::Struct(i) => match &i.fields {
            syn::Fields::Named(n) => { let n: Vec<_> = n.named.iter().map(|x| x.ident.clone().unwrap()).collect(); let t: Vec<_> = i.fields.iter().map(|x| x.ty.clone()).collect(); syn::parse_quote!({ Self { #(#n: <#t>::default()),* } }) }
            _ => return,
        },
        _ => return,
    };
    s.fns.insert(format!("{name} as Default::default"), Found { sig: syn::parse_quote!(fn default() -> Self), block: body, self_ty: Some(name.to_string()), trait_: Some("Default".into()), generics: Default::default(), impl_items_other: vec![], file: f.into() });
}

fn walk(items: &[Item], f: &str, s: &mut Src) {
    for it in items {
        match it {
            Item::Fn(i) => {
                if in_test(&i.attrs) { continue; }
                s.top.push((i.sig.ident.to_string(), f.to_string()));
                nested(&i.block, f, s);
                s.fns.insert(i.sig.ident.to_string(), Found { sig: i.sig.clone(), block: (*i.block).clone(), self_ty: None, trait_: None, generics: Default::default(), impl_items_other: vec![], file: f.into() });
            }
            Item::Impl(i) => {
                if in_test(&i.attrs) { continue; }
                let st = ty_name(&i.self_ty);
                let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let trfull = i.trait_.as_ref().map(|(_, p, _)| { let l = p.segments.last().unwrap(); quote::quote!(#l).to_string() });
                let selft = { let t = &i.self_ty; quote::quote!(#t).to_string() };
                let others: Vec<ImplItem> = i.items.iter().filter(|x| !matches!(x, ImplItem::Fn(_))).cloned().collect();
                for ii in &i.items {
                    match ii {
                        ImplItem::Fn(m) => {
                            let key = match &tr { Some(t) => format!("{st} as {t}::{}", m.sig.ident), None => format!("{st}::{}", m.sig.ident) };
                            s.top.push((key.clone(), f.to_string()));
                            nested(&m.block, f, s);
                            s.fns.insert(key, Found { sig: m.sig.clone(), block: m.block.clone(), self_ty: Some(selft.clone()), trait_: trfull.clone(), generics: i.generics.clone(), impl_items_other: others.clone(), file: f.into() });
                        }
                        ImplItem::Const(_) if tr.is_none() => s.consts.entry(st.clone()).or_default().push(ii.clone()),
                        _ => {}
                    }
                }
            }
            Item::Struct(i) => { derived_default(&i.ident, &i.attrs, &i.generics, it, f, s); s.items.insert(i.ident.to_string(), it.clone()); }
            Item::Enum(i) => { derived_default(&i.ident, &i.attrs, &i.generics, it, f, s); s.items.insert(i.ident.to_string(), it.clone()); }
            Item::Type(i) => { s.items.insert(i.ident.to_string(), it.clone()); }
            Item::Const(i) => { s.items.insert(i.ident.to_string(), it.clone()); }
            Item::Trait(i) => {
                // default methods of traits
                let tn = i.ident.to_string();
                for ti in &i.items {
                    if let syn::TraitItem::Fn(m) = ti {
                        if let Some(b) = &m.default {
                            s.fns.insert(format!("{tn}::{}", m.sig.ident), Found { sig: m.sig.clone(), block: b.clone(), self_ty: Some(tn.clone()), trait_: None, generics: Default::default(), impl_items_other: vec![], file: f.into() });
                        }
                    }
                }
                s.items.insert(tn, it.clone());
            }
            _ => {}
        }
    }
}

fn squash(e: &syn::Expr) -> String { quote::quote!(#e).to_string().split_whitespace().collect::<Vec<_>>().join(" ") }
/// replaces an expression by a call of the stub whose assumed contract says what it computes
struct Repl { pat: String, call: syn::Expr, n: usize }
impl syn::visit_mut::VisitMut for Repl {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if squash(e) == self.pat { *e = self.call.clone(); self.n += 1; return; }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

/// renames a type within an item
struct SubTy<'a>(&'a str, &'a str);
impl syn::visit_mut::VisitMut for SubTy<'_> {
    fn visit_path_segment_mut(&mut self, p: &mut syn::PathSegment) { if p.ident == self.0 { p.ident = syn::Ident::new(self.1, p.ident.span()); } syn::visit_mut::visit_path_segment_mut(self, p); }
    fn visit_item_struct_mut(&mut self, i: &mut syn::ItemStruct) { if i.ident == self.0 { i.ident = syn::Ident::new(self.1, i.ident.span()); } syn::visit_mut::visit_item_struct_mut(self, i); }
}

/// an associated constant whose value is computed by a call, replaced by that call where it is used
struct ConstIn<'a> { self_ty: Option<&'a str>, vals: &'a HashMap<(String, String), syn::Expr>, n: usize }
impl syn::visit_mut::VisitMut for ConstIn<'_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Path(p) = e {
            let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
            if s.len() == 2 {
                let t = if s[0] == "Self" { self.self_ty.unwrap_or("Self").to_string() } else { s[0].clone() };
                if let Some(v) = self.vals.get(&(t, s[1].clone())) { *e = v.clone(); self.n += 1; return; }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let unit_path = args[1].clone();
    let repo = get("--repo").unwrap_or("/repo".into());
    let common = get("--common").unwrap_or("/verif/units/common".into());
    let out = get("--out").unwrap();
    let report = get("--report").unwrap();
    let mut rep = serde_json::Map::new();
    match run(&unit_path, &repo, &common, &mut rep) {
        Ok(text) => {
            fs::write(&out, text).unwrap();
            rep.insert("status".into(), "ok".into());
        }
        Err(e) => {
            rep.insert("status".into(), "lost-anchor".into());
            rep.insert("reason".into(), e.clone().into());
            eprintln!("vx: {e}");
        }
    }
    fs::write(report, serde_json::to_string_pretty(&serde_json::Value::Object(rep)).unwrap()).unwrap();
}

fn run(unit_path: &str, repo: &str, common: &str, rep: &mut serde_json::Map<String, serde_json::Value>) -> Result<String, String> {
    let u = unit::parse(&fs::read_to_string(unit_path).map_err(|e| e.to_string())?)?;
    let src = load(repo, &u.sources)?;
    for (f, t) in &u.literals {
        let text = fs::read_to_string(format!("{repo}/{f}")).map_err(|e| format!("lost-anchor: source file {f}: {e}"))?;
        let squeeze = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
        if !squeeze(&text).contains(&squeeze(t)) { return Err(format!("lost-anchor: {f} no longer contains {t} (a trusted contract is written for it)")); }
    }
    let mut o = String::new();
    o.push_str("// generated by vx from /repo's current source; do not edit\n");
    o.push_str("#![allow(unused, non_snake_case, non_camel_case_types, dead_code)]\nuse vstd::prelude::*;\n");
    for (l, t) in &u.raw_uses { let _ = l; o.push_str(t); o.push('\n'); }
    o.push_str("verus! {\n");
    for c in &u.commons {
        o.push_str(&fs::read_to_string(format!("{common}/{c}.rs")).map_err(|e| format!("common {c}: {e}"))?);
        o.push('\n');
    }
    for (parser, starts) in &u.grammars {
        let it = src.items.get(parser).ok_or(format!("lost-anchor: parser {parser} not found"))?;
        let Item::Struct(it) = it else { return Err(format!("lost-anchor: parser {parser}")) };
        let files: Vec<String> = it.attrs.iter().filter(|a| a.path().is_ident("grammar")).filter_map(|a| match &a.meta { syn::Meta::NameValue(n) => match &n.value { syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()), _ => None }, _ => None }).collect();
        if files.is_empty() { return Err(format!("lost-anchor: parser {parser} has no grammar")); }
        o.push_str(&grammar::emit(repo, &files, starts)?);
    }
    for p in &u.prelude { o.push_str(p); o.push('\n'); }
    // type items
    for name in &u.items {
        // `FILE#NAME`: the item of that file, where two files declare the same name
        let own;
        let it = if let Some((f, n)) = name.split_once('#') {
            own = load(repo, &[f.to_string()])?;
            own.items.get(n)
        } else { src.items.get(name) }.ok_or(format!("lost-anchor: item {name} not found"))?;
        // sub=A:B renames the type A to B within the item
        let mut it = it.clone();
        for s in u.item_attrs.get(name).map(String::as_str).unwrap_or("").split_whitespace() {
            if let Some((a, b)) = s.strip_prefix("sub=").and_then(|s| s.split_once(':')) { syn::visit_mut::VisitMut::visit_item_mut(&mut SubTy(a, b), &mut it); }
        }
        o.push_str(&lower::lower_item(&it, &u, u.item_attrs.get(name).map(String::as_str).unwrap_or(""))?);
        o.push('\n');
    }
    let mut calls: HashMap<(String, String), syn::Expr> = HashMap::new();
    for name in &u.consts {
        if let Some(cs) = src.consts.get(name) {
            let (c, plain): (Vec<_>, Vec<_>) = cs.iter().cloned().partition(|c| matches!(c, ImplItem::Const(k) if matches!(k.expr, syn::Expr::Call(_) | syn::Expr::Tuple(_))));
            for k in c { if let ImplItem::Const(k) = k { calls.insert((name.clone(), k.ident.to_string()), k.expr.clone()); } }
            if !plain.is_empty() { o.push_str(&lower::lower_consts(name, &plain)?); }
        }
    }
    let mut replaced = vec![0usize; u.exprcalls.len()];
    let mut fns_rep = vec![];
    let known: BTreeSet<String> = u.fns.iter().map(|f| f.key.clone()).collect();
    let mut rules: BTreeMap<String, usize> = BTreeMap::new();
    let mut trait_groups: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut order: Vec<String> = vec![];
    for f in &u.fns {
        let found = src.fns.get(&f.key).ok_or(format!("lost-anchor: function {} not found", f.key))?;
        let mut lw = lower::Lower::new(&u, &src, &known, f, found);
        let mut block = found.block.clone();
        let mut sig = found.sig.clone();
        for (k, (call, pat)) in u.exprcalls.iter().enumerate() {
            let mut r = Repl { pat: squash(&syn::parse_str::<syn::Expr>(pat).map_err(|e| format!("exprcall: {e}"))?), call: syn::parse_str(call).map_err(|e| format!("exprcall: {e}"))?, n: 0 };
            syn::visit_mut::VisitMut::visit_block_mut(&mut r, &mut block);
            replaced[k] += r.n;
        }
        if !calls.is_empty() {
            let mut ci = ConstIn { self_ty: found.self_ty.as_deref(), vals: &calls, n: 0 };
            syn::visit_mut::VisitMut::visit_block_mut(&mut ci, &mut block);
            if ci.n > 0 { *rules.entry("L19 constant computed by a call put in place".into()).or_default() += ci.n; }
        }
        lw.run(&mut sig, &mut block)?;
        for (k, v) in &lw.rules { *rules.entry(k.clone()).or_default() += v; }
        let used_loops = lw.loops;
        for (k, _) in &f.loops {
            if *k >= used_loops { return Err(format!("lost-anchor: {}: loop {} no longer exists ({} loops)", f.key, k, used_loops)); }
        }
        if let Some(n) = f.nloops { if n != used_loops { return Err(format!("lost-anchor: {}: {} loops, annotations written for {}", f.key, used_loops, n)); } }
        for (a, _) in &f.hints { if !lw.anchors_used.contains(a) { return Err(format!("lost-anchor: {}: hint anchor {:?} not found", f.key, a)); } }
        let text = print::print_fn(&sig, &block, f, &lw)?;
        let start_marker = format!("// VXFN {}\n", f.key);
        let body = format!("{start_marker}{text}\n// VXEND {}\n", f.key);
        let wrapped = match (&found.self_ty, &found.trait_) {
            (Some(st), Some(tr)) => {
                let gid = format!("impl {} for {}", f.trait_override.clone().unwrap_or(tr.clone()), st);
                if !trait_groups.contains_key(&gid) { order.push(gid.clone()); }
                let e = trait_groups.entry(gid).or_default();
                if e.is_empty() {
                    for x in &found.impl_items_other { e.push(quote::quote!(#x).to_string()); }
                }
                e.push(body);
                String::new()
            }
            (Some(st), None) => {
                let g = &found.generics;
                let (ig, _, wc) = g.split_for_impl();
                format!("impl{} {} {} {{\n{body}}}\n", quote::quote!(#ig), st, quote::quote!(#wc))
            }
            _ => body,
        };
        o.push_str(&wrapped);
        fns_rep.push(serde_json::json!({"fn": f.key, "file": found.file, "loops": used_loops, "inlined": lw.inlined, "trusted": f.external_body}));
    }
    for (k, (_, pat)) in u.exprcalls.iter().enumerate() { if replaced[k] == 0 { return Err(format!("lost-anchor: the expression {pat} no longer occurs (a trusted contract is written for it)")); } else { *rules.entry("exprcall".into()).or_default() += replaced[k]; } }
    for gid in order {
        o.push_str(&format!("{gid} {{\n{}\n}}\n", trait_groups[&gid].join("\n")));
    }
    for p in &u.lemmas { o.push_str(p); o.push('\n'); }
    o.push_str("} // verus!\nfn main() {}\n");
    rep.insert("functions".into(), fns_rep.into());
    rep.insert("rules".into(), serde_json::to_value(rules).unwrap());
    rep.insert("rlimit".into(), u.rlimit.into());
    Ok(o)
}
