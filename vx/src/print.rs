//! Token printer: prints lowered Rust and splices contracts, invariants and hints.
use crate::lower::Lower;
use crate::unit::FnSpec;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;

/// `name ! { N } ;?` at position i
fn marker(ts: &[TokenTree], i: usize, name: &str) -> Option<(usize, usize)> {
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (ts.get(i), ts.get(i + 1), ts.get(i + 2)) {
        if id == name && p.as_char() == '!' {
            let n: usize = g.stream().to_string().trim().parse().ok()?;
            let mut used = 3;
            if let Some(TokenTree::Punct(p)) = ts.get(i + 3) { if p.as_char() == ';' { used = 4; } }
            return Some((n, used));
        }
    }
    None
}

pub struct P<'a> { pub o: String, pub f: &'a FnSpec, pub lw: &'a Lower<'a>, err: Option<String> }

impl<'a> P<'a> {
    fn nl(&mut self) { self.o.push('\n'); }
    fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut glue = true;
        while i < v.len() {
            if let Some((n, used)) = marker(&v, i, "vx_raw") {
                let t = self.lw.raw[n].clone();
                self.nl(); self.o.push_str(&t); self.nl();
                i += used; glue = true; continue;
            }
            if let Some((_, used)) = marker(&v, i, "vx_loop") { i += used; continue; }
            match &v[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            if let Some((k, _)) = marker(&inner, 0, "vx_loop") {
                                let t = self.loop_text(k);
                                self.o.push_str(&t);
                            }
                            self.o.push_str(" {"); self.nl();
                            self.stream(g.stream());
                            self.nl(); self.o.push('}');
                            // newline unless followed by something that continues the expression
                            match v.get(i + 1) {
                                Some(TokenTree::Punct(_)) => {}
                                Some(TokenTree::Ident(id)) if id == "else" || id == "as" => self.o.push(' '),
                                _ => self.nl(),
                            }
                        }
                        Delimiter::Parenthesis => { self.o.push('('); self.stream(g.stream()); self.o.push(')'); }
                        Delimiter::Bracket => { self.o.push('['); self.stream(g.stream()); self.o.push(']'); }
                        Delimiter::None => self.stream(g.stream()),
                    }
                    glue = false;
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if !glue && !matches!(c, ';' | ',' | '.' | '?') { self.o.push(' '); }
                    self.o.push(c);
                    glue = p.spacing() == Spacing::Joint || c == '.' || c == '&' || c == '!' || c == '\'';
                    if c == ';' { self.nl(); glue = true; }
                    if c == '\'' { glue = true; }
                }
                TokenTree::Ident(id) => { if !glue { self.o.push(' '); } self.o.push_str(&id.to_string()); glue = false; }
                TokenTree::Literal(l) => { if !glue { self.o.push(' '); } self.o.push_str(&l.to_string()); glue = false; }
            }
            i += 1;
        }
    }

    fn loop_text(&mut self, k: usize) -> String {
        let user = self.f.loops.get(&k).cloned().unwrap_or_default();
        let auto = self.lw.auto_inv.get(&k).cloned();
        let mut inv = String::new();
        let mut ieb = String::new();
        let mut ens = String::new();
        let mut dec = String::new();
        let mut cur = 1;
        for line in user.lines() {
            let l = line.trim();
            let mut body = line.to_string();
            for (w, n) in [("invariant_except_break", 2), ("invariant", 1), ("ensures", 3), ("decreases", 4)] {
                if l == w || l.starts_with(&format!("{w} ")) { cur = n; body = l[w.len()..].to_string(); break; }
            }
            let t = match cur { 1 => &mut inv, 2 => &mut ieb, 3 => &mut ens, 4 => &mut dec, _ => { if !l.is_empty() { self.err = Some(format!("loop {k}: text before keyword: {l}")); } continue; } };
            t.push_str(&body); t.push('\n');
        }
        if let Some((i, d)) = auto { inv = format!("{i}{inv}"); if dec.trim().is_empty() { dec = d; } }
        let mut out = String::new();
        let mut add = |kw: &str, t: &str| { if !t.trim().is_empty() { let t = t.trim_end(); let t = t.trim_end_matches(','); out.push_str(&format!("\n{kw}\n{t},\n")); } };
        add("invariant_except_break", &ieb);
        add("invariant", &inv);
        add("ensures", &ens);
        add("decreases", &dec);
        out
    }
}

pub fn tokens_text(ts: TokenStream) -> String { ts.to_string() }

pub fn print_fn(sig: &syn::Signature, block: &syn::Block, f: &FnSpec, lw: &Lower) -> Result<String, String> {
    let mut o = String::new();
    for a in &f.attrs { o.push_str(&format!("#[{a}]\n")); }
    let in_trait = lw.found.trait_.is_some();
    if let Some(s) = &f.sigtext { o.push_str(s); }
    else {
        if !in_trait { o.push_str("pub "); }
        let name = &sig.ident;
        let (ig, _, wc) = sig.generics.split_for_impl();
        let inputs = &sig.inputs;
        o.push_str(&format!("fn {name}{}({})", ig.to_token_stream(), inputs.to_token_stream()));
        if let syn::ReturnType::Type(_, t) = &sig.output {
            o.push_str(&format!(" -> ({}: {})", f.ret, t.to_token_stream()));
        }
        o.push_str(&format!(" {}", wc.to_token_stream()));
    }
    o.push('\n');
    o.push_str(&f.spec);
    if f.external_body { o.push_str("{ unimplemented!() }\n"); return Ok(o); }
    let mut p = P { o: String::new(), f, lw, err: None };
    p.stream(block.to_token_stream());
    if let Some(e) = p.err { return Err(e); }
    o.push_str(&p.o.replacen('{', "{/*VXPROBE*/", 1));
    Ok(o)
}
