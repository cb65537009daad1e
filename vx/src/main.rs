//! vx: extract functions and types from the compiler's macro-expanded text of the crate
//! (rustc -Zunpretty=expanded,hygiene on stdin) into the dialect Verus accepts.
//! Prints a JSON array of items.  The rewrites are listed in DESIGN.md ("extraction").
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- hygiene marks
fn mark_hygiene(s: &str) -> String {
    // IDENT /* n#ctx */  ->  IDENT or IDENT__hctx
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '/' && i + 1 < b.len() && b[i + 1] == '*' {
            let mut j = i + 2;
            let mut body = String::new();
            while j + 1 < b.len() && !(b[j] == '*' && b[j + 1] == '/') {
                body.push(b[j]);
                j += 1;
            }
            let t = body.trim();
            let parts: Vec<&str> = t.split('#').collect();
            if parts.len() == 2 && parts.iter().all(|p| !p.is_empty() && p.chars().all(|c| c.is_ascii_digit())) {
                while out.ends_with(|c: char| c.is_whitespace()) {
                    out.pop();
                }
                if parts[1] != "0" {
                    out.push_str("__h");
                    out.push_str(parts[1]);
                }
            }
            i = j + 2;
        } else if b[i] == '/' && i + 1 < b.len() && b[i + 1] == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if b[i] == '"' {
            out.push('"');
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    out.push(b[i]);
                    i += 1;
                }
                out.push(b[i]);
                i += 1;
            }
            out.push('"');
            i += 1;
        } else if b[i] == '\'' && i + 2 < b.len() && (b[i + 2] == '\'' || b[i + 1] == '\\') {
            // char literal
            out.push(b[i]);
            i += 1;
            if b[i] == '\\' {
                out.push(b[i]);
                i += 1;
                out.push(b[i]);
                i += 1;
                while b[i] != '\'' {
                    out.push(b[i]);
                    i += 1;
                }
            } else {
                out.push(b[i]);
                i += 1;
            }
            out.push('\'');
            i += 1;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn base_name(s: &str) -> &str {
    match s.rfind("__h") {
        Some(p) if p > 0 && s[p + 3..].chars().all(|c| c.is_ascii_digit()) && s.len() > p + 3 => &s[..p],
        _ => s,
    }
}

// ---------------------------------------------------------------- configuration
#[derive(Default)]
struct Cfg {
    /// (module path suffix, name) -> new name
    rename: BTreeMap<(String, String), String>,
}

fn mk_ident(s: &str) -> Ident {
    format_ident!("{}", s)
}

struct Strip {
    bound: BTreeSet<String>,
}
impl VisitMut for Strip {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        let s = i.to_string();
        let b = base_name(&s);
        if b != s && !self.bound.contains(&s) {
            *i = mk_ident(b);
        }
    }
    // `Word { index, .. }` binds `index` under its full name, and the field has the plain one
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        visit_mut::visit_field_pat_mut(self, f);
        if let Member::Named(i) = &mut f.member {
            let b = base_name(&i.to_string()).to_string();
            if b != i.to_string() {
                *i = mk_ident(&b);
                f.colon_token.get_or_insert_with(Default::default);
            }
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        visit_mut::visit_field_value_mut(self, f);
        if let Member::Named(i) = &mut f.member {
            let b = base_name(&i.to_string()).to_string();
            if b != i.to_string() {
                *i = mk_ident(&b);
                f.colon_token.get_or_insert_with(Default::default);
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = strip_tokens(m.tokens.clone(), &self.bound);
        visit_mut::visit_macro_mut(self, m);
    }
}
fn strip_tokens(ts: TokenStream, bound: &BTreeSet<String>) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                let b = base_name(&s);
                if b != s && !bound.contains(&s) {
                    TokenTree::Ident(mk_ident(b))
                } else {
                    TokenTree::Ident(i)
                }
            }
            TokenTree::Group(g) => {
                TokenTree::Group(proc_macro2::Group::new(g.delimiter(), strip_tokens(g.stream(), bound)))
            }
            t => t,
        })
        .collect()
}

struct Bound(BTreeSet<String>);
impl VisitMut for Bound {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        let s = p.ident.to_string();
        if base_name(&s) != s && s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.0.insert(s);
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
}

struct Renum {
    seen: BTreeMap<String, String>,
    count: BTreeMap<String, usize>,
}
impl VisitMut for Renum {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        let s = i.to_string();
        let b = base_name(&s).to_string();
        if b != s {
            let n = match self.seen.get(&s) {
                Some(x) => x.clone(),
                None => {
                    let c = self.count.entry(b.clone()).or_insert(0);
                    *c += 1;
                    // `x` and `x_` are different names
                    let n = format!("{}_{}{}", b.trim_end_matches('_'), if b.ends_with('_') { 'k' } else { 'h' }, c);
                    self.seen.insert(s, n.clone());
                    n
                }
            };
            *i = mk_ident(&n);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
        visit_mut::visit_macro_mut(self, m);
    }
}
impl Renum {
    fn tokens(&mut self, ts: TokenStream) -> TokenStream {
        ts.into_iter()
            .map(|t| match t {
                TokenTree::Ident(mut i) => {
                    self.visit_ident_mut(&mut i);
                    TokenTree::Ident(i)
                }
                TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()))),
                t => t,
            })
            .collect()
    }
}

fn contains_ident(ts: TokenStream, name: &str) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == name,
        TokenTree::Group(g) => contains_ident(g.stream(), name),
        _ => false,
    })
}
/// exactly what log's macros expand to: { let lvl = ..; if lvl <= .. { one call of the logger } }, perhaps in another block
fn is_log_block(b: &Block) -> bool {
    match &b.stmts[..] {
        [Stmt::Expr(Expr::Block(x), _)] => is_log_block(&x.block),
        [Stmt::Local(l), Stmt::Expr(Expr::If(f), _)] => {
            let (l, c) = (l.to_token_stream().to_string(), f.cond.to_token_stream().to_string());
            let one = f.else_branch.is_none() && f.then_branch.stmts.len() == 1;
            let call = f.then_branch.to_token_stream().to_string();
            one && l.starts_with("let lvl") && l.contains(":: log") && c.contains("STATIC_MAX_LEVEL") && call.matches("__private_api").count() >= 1 && call.trim_start_matches(|c| c == '{' || c == ' ').starts_with(":: log")
        }
        _ => false,
    }
}
fn has_ret(e: &impl ToTokens) -> bool {
    // a `return` or `?` inside of a closure body would change its meaning when inlined
    struct H(bool);
    impl VisitMut for H {
        fn visit_expr_return_mut(&mut self, _: &mut ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try_mut(&mut self, _: &mut ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        fn visit_item_mut(&mut self, _: &mut Item) {}
    }
    let mut h = H(false);
    if let Ok(mut x) = syn::parse2::<Expr>(e.to_token_stream()) {
        h.visit_expr_mut(&mut x);
    }
    h.0
}
fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}
fn closure(e: &Expr) -> Option<ExprClosure> {
    match unparen(e) {
        Expr::Closure(c) => Some(c.clone()),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => closure(e),
            _ => None,
        },
        _ => None,
    }
}
fn mcall<'a>(e: &'a Expr, name: &str, nargs: usize) -> Option<&'a ExprMethodCall> {
    match unparen(e) {
        Expr::MethodCall(m) if base_name(&m.method.to_string()) == name && m.args.len() == nargs => Some(m),
        _ => None,
    }
}

/// the receiver of a `map` is an iterator
fn iterish(e: &Expr) -> bool {
    match unparen(e) {
        Expr::MethodCall(m) => matches!(
            base_name(&m.method.to_string()),
            "iter" | "into_iter" | "iter_mut" | "drain" | "chars" | "char_indices" | "segments" | "iter_elements" | "iter_indices" | "sensitivity" | "keys" | "values"
        ),
        _ => false,
    }
}

struct Rewrite<'c> {
    cfg: &'c Cfg,
    module: Vec<String>,
    aliases: BTreeMap<String, String>,
    assoc: BTreeMap<String, Type>,
    nloop: usize,
    heads: Vec<String>,
    uniq: usize,
    notes: BTreeSet<String>,
    nested: Vec<ItemFn>,
    nested_items: Vec<Item>,
}

impl<'c> Rewrite<'c> {
    fn note(&mut self, s: &str) {
        self.notes.insert(s.to_string());
    }
    fn fresh(&mut self, s: &str) -> Ident {
        self.uniq += 1;
        format_ident!("__{}{}", s, self.uniq)
    }
    fn lookup(&self, module: &str, name: &str) -> Option<String> {
        self.cfg.rename.get(&(module.to_string(), name.to_string())).cloned()
    }
    fn resolve_path(&self, p: &mut Path) {
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        let n = segs.len();
        // number of leading module segments
        let mut k = 0;
        while k + 1 < n {
            let s = segs[k].ident.to_string();
            let s = base_name(&s).to_string();
            let first = s.chars().next().unwrap();
            if s == "Self" || s == "self" && n == 1 {
                break;
            }
            if first.is_lowercase() && !matches!(s.as_str(), "u32" | "i32" | "usize" | "isize" | "u8" | "char" | "str" | "u64") {
                k += 1;
            } else {
                break;
            }
        }
        let mut rest: Vec<PathSegment> = segs[k..].to_vec();
        let name = base_name(&rest[0].ident.to_string()).to_string();
        if k > 0 {
            let m = base_name(&segs[k - 1].ident.to_string()).to_string();
            let m = if m == "super" {
                // number of supers
                let ups = segs[..k].iter().filter(|s| s.ident == "super").count();
                let l = self.module.len();
                if l > ups {
                    self.module[l - ups - 1].clone()
                } else {
                    "crate".to_string()
                }
            } else if m == "self" {
                self.module.last().cloned().unwrap_or("crate".into())
            } else {
                m
            };
            if let Some(x) = self.lookup(&m, &name) {
                rest[0].ident = mk_ident(&x);
            }
            p.leading_colon = None;
            p.segments = rest.into_iter().collect();
        } else {
            let full = self.module.join("::");
            let new = self.lookup(&full, &name).or_else(|| self.aliases.get(&name).cloned());
            if let Some(x) = new {
                p.segments[0].ident = mk_ident(&x);
            }
            p.leading_colon = None;
        }
        if p.segments.len() >= 2 && p.segments[0].ident == "Self" {
            let a = p.segments[1].ident.to_string();
            if let Some(Type::Path(t)) = self.assoc.get(&a) {
                *p = t.path.clone();
            }
        }
        if p.segments.len() == 1 {
            let s = p.segments[0].ident.to_string();
            let n = match s.as_str() {
                "str" => Some("Txt"),
                "String" => Some("Text"),
                _ => None,
            };
            if let Some(n) = n {
                p.segments[0].ident = mk_ident(n);
            }
        } else if p.segments.len() == 2 && p.segments[0].ident == "String" {
            p.segments[0].ident = mk_ident("Text");
        }
    }
    /// { loop marker } prepended to the body
    fn mark_loop(&mut self, body: &mut Block, head: String) {
        let n = self.nloop;
        self.nloop += 1;
        self.heads.push(head);
        let id = format_ident!("__vx_loop_{}", n);
        body.stmts.insert(0, parse_quote!(#id!();));
    }
    /// iterator chain -> block expression with loops, or None
    fn chain(&mut self, e: &Expr) -> Option<Expr> {
        // E.map(|p| B).sum()
        if let Some(m) = mcall(e, "sum", 0) {
            if let Some(mm) = mcall(&m.receiver, "map", 1) {
                let c = closure(&mm.args[0])?;
                if has_ret(&c.body) || c.inputs.len() != 1 {
                    return None;
                }
                let (it, acc) = (self.fresh("it"), self.fresh("acc"));
                let (src, pat, body) = (&mm.receiver, &c.inputs[0], &c.body);
                self.note("iter().map(f).sum() -> accumulator loop");
                return Some(parse_quote!({
                    let mut #acc: usize = 0;
                    let mut #it = #src;
                    while let Some(#pat) = #it.next() {
                        #acc += #body;
                    }
                    #acc
                }));
            }
        }
        if let Some(m) = mcall(e, "collect", 0) {
            if let Some(mm) = mcall(&m.receiver, "filter_map", 1) {
                if let Some(im) = mcall(&mm.receiver, "iter_mut", 0) {
                    let c = closure(&mm.args[0])?;
                    if has_ret(&c.body) || c.inputs.len() != 1 {
                        return None;
                    }
                    let (ix, out) = (self.fresh("ix"), self.fresh("out"));
                    let (src, pat, body) = (&im.receiver, &c.inputs[0], &c.body);
                    self.note("iter_mut().filter_map(f).collect() -> index loop");
                    return Some(parse_quote!({
                        let mut #out = Vec::new();
                        let mut #ix: usize = 0;
                        while #ix < #src.len() {
                            let #pat = &mut #src[#ix];
                            match #body {
                                Some(__x) => { #out.push(__x); }
                                None => {}
                            }
                            #ix += 1;
                        }
                        #out
                    }));
                }
            }
            if let Some(mm) = mcall(&m.receiver, "map", 1) {
                if mcall(&mm.receiver, "drain", 1).is_some() {
                    let d = mcall(&mm.receiver, "drain", 1)?;
                    let src = &d.receiver;
                    self.note("nom error list conversion -> opaque conversion");
                    return Some(parse_quote!(nom_conv_list(#src)));
                }
                let c = closure(&mm.args[0])?;
                if has_ret(&c.body) || c.inputs.len() != 1 {
                    return None;
                }
                let (it, out) = (self.fresh("it"), self.fresh("out"));
                let (src, pat, body) = (&mm.receiver, &c.inputs[0], &c.body);
                self.note("iter().map(f).collect() -> push loop");
                return Some(parse_quote!({
                    let mut #out = Vec::new();
                    let mut #it = #src;
                    while let Some(#pat) = #it.next() {
                        #out.push(#body);
                    }
                    #out
                }));
            }
        }
        // M.update_with(k, n, |old, new| B)
        if let Some(m) = mcall(e, "update_with", 3) {
            let c = closure(&m.args[2])?;
            if has_ret(&c.body) || c.inputs.len() != 2 {
                return None;
            }
            let (k, n, r) = (self.fresh("k"), self.fresh("n"), self.fresh("r"));
            let (src, ka, na) = (&m.receiver, &m.args[0], &m.args[1]);
            let (p0, p1, body) = (&c.inputs[0], &c.inputs[1], &c.body);
            self.note("im update_with(closure) -> get and update");
            return Some(parse_quote!({
                let #k = #ka;
                let #n = #na;
                match #src.get(&#k) {
                    Some(__o) => {
                        let #p0 = __o.clone();
                        let #p1 = #n;
                        let #r = #body;
                        #src.update(#k, #r)
                    }
                    None => #src.update(#k, #n),
                }
            }));
        }
        // M.entry(k).and_modify(|p| B).or_insert_with(|| V)
        if let Some(m) = mcall(e, "or_insert_with", 1) {
            let v = closure(&m.args[0])?;
            if let Some(am) = mcall(&m.receiver, "and_modify", 1) {
                let c = closure(&am.args[0])?;
                if let Some(en) = mcall(&am.receiver, "entry", 1) {
                    if has_ret(&c.body) || has_ret(&v.body) || c.inputs.len() != 1 || !v.inputs.is_empty() {
                        return None;
                    }
                    let k = self.fresh("k");
                    let (src, ka, p, b, vb) = (&en.receiver, &en.args[0], &c.inputs[0], &c.body, &v.body);
                    self.note("im entry().and_modify().or_insert_with() -> contains_key, get_mut, insert");
                    return Some(parse_quote!({
                        let #k = #ka;
                        if #src.contains_key(&#k) {
                            let #p = #src.get_mut(&#k).unwrap();
                            #b
                        } else {
                            #src.insert(#k, #vb);
                        }
                    }));
                }
            }
        }
        // match M.entry(k) { Entry::Occupied(o) => .. o.insert(x) .., Entry::Vacant(v) => .. v.insert(x) .. }
        if let Expr::Match(m) = e {
            if let Some(en) = mcall(&m.expr, "entry", 1) {
                let pats: Vec<String> = m.arms.iter().map(|a| a.pat.to_token_stream().to_string()).collect();
                if m.arms.len() == 2 && pats[0].contains("Occupied") && pats[1].contains("Vacant") && m.arms.iter().all(|a| a.guard.is_none()) {
                    let k = self.fresh("k");
                    let mut out = vec![];
                    for a in &m.arms {
                        let id = match &a.pat {
                            Pat::TupleStruct(t) if t.elems.len() == 1 => match &t.elems[0] {
                                Pat::Ident(i) => i.ident.clone(),
                                _ => return None,
                            },
                            _ => return None,
                        };
                        struct Ins<'a>(&'a Ident, &'a Expr, &'a Ident, bool);
                        impl<'a> VisitMut for Ins<'a> {
                            fn visit_expr_mut(&mut self, e: &mut Expr) {
                                if let Expr::MethodCall(m) = e {
                                    if m.method == "insert" && m.args.len() == 1 && matches!(unparen(&m.receiver), Expr::Path(p) if p.path.is_ident(self.0)) {
                                        let (s, k, x) = (self.1, self.2, &m.args[0]);
                                        *e = parse_quote!(#s.insert(#k, #x));
                                        return;
                                    }
                                }
                                if matches!(e, Expr::Path(p) if p.path.is_ident(self.0)) {
                                    self.3 = false;
                                }
                                visit_mut::visit_expr_mut(self, e);
                            }
                        }
                        let mut b = (*a.body).clone();
                        let mut ins = Ins(&id, &en.receiver, &k, true);
                        ins.visit_expr_mut(&mut b);
                        if !ins.3 {
                            return None;
                        }
                        out.push(b);
                    }
                    let (src, ka, o, v) = (&en.receiver, &en.args[0], &out[0], &out[1]);
                    self.note("match im entry() -> contains_key, insert");
                    return Some(parse_quote!({
                        let #k = #ka;
                        if #src.contains_key(&#k) { #o } else { #v }
                    }));
                }
            }
        }
        // E.zip(F).position(|(a, b)| P)
        if let Some(m) = mcall(e, "position", 1) {
            if let Some(z) = mcall(&m.receiver, "zip", 1) {
                let c = closure(&m.args[0])?;
                if has_ret(&c.body) || c.inputs.len() != 1 {
                    return None;
                }
                let (ia, ib, res, n) = (self.fresh("it"), self.fresh("it"), self.fresh("res"), self.fresh("n"));
                let (sa, sb, pat, body) = (&z.receiver, &z.args[0], &c.inputs[0], &c.body);
                self.note("a.zip(b).position(p) -> loop over both iterators");
                return Some(parse_quote!({
                    let mut #ia = #sa;
                    let mut #ib = #sb;
                    let mut #n: usize = 0;
                    let mut #res: Option<usize> = None;
                    loop {
                        let #pat = match #ia.next() {
                            Some(__a) => match #ib.next() { Some(__b) => (__a, __b), None => break },
                            None => break,
                        };
                        if #body { #res = Some(#n); break; }
                        #n += 1;
                    }
                    #res
                }));
            }
        }
        // E.find(|&(_, c)| P)   on an iterator of pairs
        if let Some(m) = mcall(e, "find", 1) {
            if let Some(c) = closure(&m.args[0]) {
                if has_ret(&c.body) || c.inputs.len() != 1 {
                    return None;
                }
                let (it, res, x) = (self.fresh("it"), self.fresh("res"), self.fresh("x"));
                let (src, pat, body) = (&m.receiver, &c.inputs[0], &c.body);
                self.note("it.find(p) -> loop");
                // `iter.find` takes the iterator by reference: bind a path receiver directly
                let is_path = matches!(unparen(src), Expr::Path(_));
                let bind: Pat = match pat {
                    Pat::Reference(r) => (*r.pat).clone(),
                    p => p.clone(),
                };
                let xin: Expr = match pat {
                    Pat::Reference(_) => parse_quote!(#x),
                    _ => parse_quote!(&#x),
                };
                return Some(if is_path {
                    parse_quote!({
                        let mut #res = None;
                        while let Some(#x) = #src.next() {
                            let #bind = #xin;
                            if #body { #res = Some(#x); break; }
                        }
                        #res
                    })
                } else {
                    parse_quote!({
                        let mut #it = #src;
                        let mut #res = None;
                        while let Some(#x) = #it.next() {
                            let #bind = #xin;
                            if #body { #res = Some(#x); break; }
                        }
                        #res
                    })
                });
            }
        }
        None
    }
    fn closure_arg(&mut self, e: &Expr) -> Option<Expr> {
        // a predicate closure that stays a closure: state its meaning
        let c = closure(e)?;
        if c.inputs.len() != 1 || has_ret(&c.body) {
            return None;
        }
        let p = match &c.inputs[0] {
            Pat::Ident(p) => p.ident.clone(),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(p) => p.ident.clone(),
                _ => return None,
            },
            _ => return None,
        };
        let body = &c.body;
        self.note("predicate closure annotated with ensures result == body");
        Some(parse_quote!(__vx_pred!(#p, #body)))
    }
}

impl<'c> VisitMut for Rewrite<'c> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = parse_quote!(pub);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        self.resolve_path(p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(x) = self.assoc.get(&p.path.segments[1].ident.to_string()) {
                    *t = x.clone();
                }
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            match s {
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(Item::Fn(f)) if base_name(&f.sig.ident.to_string()) == "unify_types" => {}
                // nom's unify_types only relates the types of two errors
                Stmt::Expr(Expr::Call(ref c), _) if matches!(&*c.func, Expr::Path(q) if q.path.segments.len() == 1 && base_name(&q.path.segments[0].ident.to_string()) == "unify_types") => {}
                Stmt::Item(Item::Fn(f)) => self.nested.push(f),
                Stmt::Item(Item::Impl(i)) if derived(&i.attrs) => {}
                Stmt::Item(Item::Macro(_)) => {}
                Stmt::Item(i) => self.nested_items.push(i),
                Stmt::Expr(Expr::Block(bb), semi) => {
                    let inner = if bb.block.stmts.len() == 1 {
                        match &bb.block.stmts[0] {
                            Stmt::Expr(Expr::Block(x), _) => Some(x.block.clone()),
                            _ => None,
                        }
                    } else {
                        None
                    };
                    let log = is_log_block(&bb.block) || inner.as_ref().map_or(false, is_log_block);
                    if log {
                        if semi.is_none() {
                            // value position of a unit block
                        }
                    } else {
                        b.stmts.push(Stmt::Expr(Expr::Block(bb), semi));
                    }
                }
                s => b.stmts.push(s),
            }
        }
        // let cl = || B; match cl() { .. }  ->  match B { .. }
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            let mut found = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(x), Some(init)) = (&l.pat, &l.init) {
                    if let Some(c) = closure(&init.expr) {
                        if c.inputs.is_empty() && !has_ret(&c.body) {
                            if let Stmt::Expr(Expr::Match(m), _) = &b.stmts[i + 1] {
                                if let Expr::Call(k) = unparen(&m.expr) {
                                    if k.args.is_empty() && matches!(unparen(&k.func), Expr::Path(q) if q.path.is_ident(&x.ident)) {
                                        found = Some((*c.body).clone());
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if let Some(body) = found {
                if let Stmt::Expr(Expr::Match(m), _) = &mut b.stmts[i + 1] {
                    m.expr = Box::new(body);
                }
                self.note("immediately applied closure -> let block");
                b.stmts.remove(i);
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
        // if let P = (&a, &b) {}  has no effect
        fn pure(e: &Expr) -> bool {
            match unparen(e) {
                Expr::Path(_) => true,
                Expr::Reference(r) => pure(&r.expr),
                Expr::Tuple(t) => t.elems.iter().all(pure),
                _ => false,
            }
        }
        b.stmts.retain(|s| match s {
            Stmt::Expr(Expr::If(i), _) => !(i.else_branch.is_none() && i.then_branch.stmts.is_empty() && matches!(&*i.cond, Expr::Let(l) if pure(&l.expr))),
            _ => true,
        });
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- rewrites before descending
        if let Some(x) = self.chain(e) {
            *e = x;
        }
        match e {
            Expr::ForLoop(f) => {
                let (pat, body, label) = (f.pat.clone(), f.body.clone(), f.label.clone());
                let src = unparen(&f.expr).clone();
                let it = self.fresh("it");
                let mk = |s: Expr| -> Expr {
                    parse_quote!({
                        let mut #it = #s;
                        #label while let Some(#pat) = #it.next() #body
                    })
                };
                self.notes.insert("for loop -> iterator binding and while let".into());
                *e = match &src {
                    Expr::Reference(r) if r.mutability.is_none() => {
                        let x = &r.expr;
                        mk(parse_quote!(#x.iter()))
                    }
                    Expr::MethodCall(m) if m.method == "iter_mut" => {
                        let x = &m.receiver;
                        let ix = self.fresh("ix");
                        let stmts = &body.stmts;
                        parse_quote!({
                            let mut #ix: usize = 0;
                            while #ix < #x.len() {
                                let #pat = &mut #x[#ix];
                                #ix += 1;
                                #(#stmts)*
                            }
                        })
                    }
                    Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                        let (a, b) = (r.start.clone().unwrap(), r.end.clone().unwrap());
                        let (ix, end) = (self.fresh("ix"), self.fresh("end"));
                        let stmts = &body.stmts;
                        parse_quote!({
                            let #end: usize = #b;
                            let mut #ix: usize = #a;
                            while #ix < #end {
                                let #pat = #ix;
                                #ix += 1;
                                #(#stmts)*
                            }
                        })
                    }
                    Expr::Path(p) => mk(parse_quote!(vec_into_iter(#p))),
                    s => mk(s.clone()),
                };
            }
            Expr::Call(c) => {
                // (|p| B)(x)
                if let Some(cl) = closure(&c.func) {
                    if !has_ret(&cl.body) && cl.inputs.len() == c.args.len() {
                        let lets: Vec<Stmt> = cl
                            .inputs
                            .iter()
                            .zip(c.args.iter())
                            .map(|(p, a)| -> Stmt {
                                match p {
                                    Pat::Type(t) => {
                                        let (p, ty) = (&t.pat, &t.ty);
                                        parse_quote!(let #p: #ty = #a;)
                                    }
                                    p => parse_quote!(let #p = #a;),
                                }
                            })
                            .collect();
                        let body = &cl.body;
                        let pre: Vec<Stmt> = match unparen(&c.func) {
                            Expr::Block(_) => vec![],
                            _ => vec![],
                        };
                        self.note("immediately applied closure -> let block");
                        *e = parse_quote!({ #(#pre)* #(#lets)* #body });
                    }
                } else if let Expr::Block(b) = unparen(&c.func) {
                    // { let x = ..; |l| B }(o)
                    if let Some(Stmt::Expr(last, None)) = b.block.stmts.last() {
                        if let Some(cl) = closure(last) {
                            if !has_ret(&cl.body) && cl.inputs.len() == 1 {
                                let pre = &b.block.stmts[..b.block.stmts.len() - 1];
                                let a = &c.args[0];
                                let body = &cl.body;
                                let l: Stmt = match &cl.inputs[0] {
                                    Pat::Type(t) => {
                                        let (p, ty) = (&t.pat, &t.ty);
                                        parse_quote!(let #p: #ty = #a;)
                                    }
                                    p => parse_quote!(let #p = #a;),
                                };
                                self.note("immediately applied closure -> let block");
                                *e = parse_quote!({ #(#pre)* #l #body });
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = base_name(&m.method.to_string()).to_string();
                if m.args.len() == 1 {
                    if let Some(c) = closure(&m.args[0]) {
                        if c.inputs.len() == 1 && !has_ret(&c.body) {
                            let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                            let nomish = matches!(p, Pat::Tuple(_)) && matches!(&**r, Expr::Paren(_));
                            match name.as_str() {
                                "and_then" => {
                                    self.note("Result::and_then(closure) -> match");
                                    *e = parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) });
                                }
                                "map" if iterish(r) => {
                                    let cl = match (p, unparen(b)) {
                                        (Pat::Ident(pi), Expr::MethodCall(mc)) => {
                                            base_name(&mc.method.to_string()) == "clone" && matches!(unparen(&mc.receiver), Expr::Path(q) if q.path.is_ident(&pi.ident))
                                        }
                                        _ => false,
                                    };
                                    if cl {
                                        self.note("iter().map(|x| x.clone()) -> iter_cloned(iter())");
                                        *e = parse_quote!(iter_cloned(#r));
                                    }
                                }
                                "map" if nomish => {
                                    self.note("Result::map(closure) -> match");
                                    *e = parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) });
                                }
                                "map" => {
                                    self.note("Option::map(closure) -> match");
                                    *e = parse_quote!(match #r { Some(#p) => Some(#b), None => None });
                                }
                                "map_err" => {
                                    self.note("Result::map_err(closure) -> match");
                                    *e = parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) });
                                }
                                _ => {
                                    if let Some(x) = self.closure_arg(&m.args[0]) {
                                        if let Expr::MethodCall(m) = e {
                                            m.args[0] = x;
                                        }
                                    }
                                }
                            }
                        } else if c.inputs.is_empty() && !has_ret(&c.body) && name == "unwrap_or_else" {
                            let (r, b) = (&m.receiver, &c.body);
                            self.note("Option::unwrap_or_else(closure) -> match");
                            *e = parse_quote!(match #r { Some(__v) => __v, None => #b });
                        }
                    } else if name == "map" {
                        if let Expr::Path(f) = unparen(&m.args[0]) {
                            let r = &m.receiver;
                            *e = parse_quote!(match #r { Some(__v) => Some(#f(__v)), None => None });
                        }
                    }
                } else if name == "map_or" && m.args.len() == 2 {
                    if let Some(c) = closure(&m.args[1]) {
                        if c.inputs.len() == 1 && !has_ret(&c.body) {
                            let (r, p, b, d) = (&m.receiver, &c.inputs[0], &c.body, &m.args[0]);
                            self.note("Option::map_or(d, closure) -> match");
                            *e = parse_quote!(match #r { Some(#p) => #b, None => #d });
                        }
                    }
                }
            }
            _ => {}
        }
        if let Expr::MethodCall(m) = e {
            if m.args.len() > 1 {
                for i in 0..m.args.len() {
                    if let Some(x) = self.closure_arg(&m.args[i]) {
                        m.args[i] = x;
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            // closure passed to a function
            for i in 0..c.args.len() {
                if let Some(x) = self.closure_arg(&c.args[i]) {
                    c.args[i] = x;
                }
            }
            let fs = c.func.to_token_stream().to_string();
            if fs.ends_with("panicking :: panic_fmt") {
                let a = c.args.to_token_stream().to_string();
                *e = if a.contains("not implemented") { parse_quote!(vdiverge()) } else { parse_quote!(vpanic()) };
            } else if fs.ends_with("panicking :: panic") {
                let a = c.args.to_token_stream().to_string();
                *e = if a.contains("not implemented") { parse_quote!(vdiverge()) } else { parse_quote!(vpanic()) };
            } else if fs.ends_with("panic_display") {
                *e = parse_quote!(vpanic());
            } else if fs.ends_with("box_assume_init_into_vec_unsafe") {
                // vec![...]
                struct A(Option<ExprArray>);
                impl VisitMut for A {
                    fn visit_expr_array_mut(&mut self, a: &mut ExprArray) {
                        if self.0.is_none() {
                            self.0 = Some(a.clone());
                        }
                    }
                }
                let mut a = A(None);
                a.visit_expr_call_mut(&mut c.clone());
                if let Some(a) = a.0 {
                    let items: Vec<&Expr> = a.elems.iter().collect();
                    let v = self.fresh("v");
                    *e = parse_quote!({ let mut #v = Vec::new(); #( #v.push(#items); )* #v });
                    self.note("vec![..] -> pushes");
                }
            } else if fs.replace(' ', "").ends_with("Arc::make_mut") {
                let a = &c.args;
                *e = parse_quote!(arc_make_mut(#a));
            } else if fs.replace(' ', "").ends_with("ptr::eq") {
                let a = &c.args;
                *e = parse_quote!(ptr_eq(#a));
            }
        }
        // loop { .. break v .. }  ->  { let mut x = None; loop { .. { x = Some(v); break; } .. } x.unwrap() }
        if let Expr::Loop(l) = e {
            struct B(Option<Ident>, bool);
            impl VisitMut for B {
                fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) {}
                fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {}
                fn visit_expr_for_loop_mut(&mut self, _: &mut ExprForLoop) {}
                fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    visit_mut::visit_expr_mut(self, e);
                    if let Expr::Break(b) = e {
                        if let (None, Some(v)) = (&b.label, &b.expr) {
                            self.1 = true;
                            if let Some(x) = &self.0 {
                                *e = parse_quote!({ #x = Some(#v); break; });
                            }
                        }
                    }
                }
            }
            let mut b = B(None, false);
            b.visit_block_mut(&mut l.body.clone());
            if b.1 && l.label.is_none() {
                let x = self.fresh("brk");
                B(Some(x.clone()), false).visit_block_mut(&mut l.body);
                let l = l.clone();
                *e = parse_quote!({ let mut #x = None; #l #x.unwrap() });
                self.note("loop with a break value -> variable");
            }
        }
        // ---- descend
        match e {
            Expr::While(_) | Expr::Loop(_) => {
                // mark before descending so that ordinals follow the text
                match e {
                    Expr::While(w) => {
                        let h = w.cond.to_token_stream().to_string();
                        let mut b = w.body.clone();
                        self.mark_loop(&mut b, format!("while {}", h));
                        w.body = b;
                    }
                    Expr::Loop(w) => {
                        let mut b = w.body.clone();
                        self.mark_loop(&mut b, "loop".into());
                        w.body = b;
                    }
                    _ => {}
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Lit(l) => {
                if let Lit::Str(s) = &l.lit {
                    *e = parse_quote!(lit(#s));
                }
            }
            Expr::Macro(m) => {
                if m.mac.path.is_ident("__vx_pred") {
                    // rewrite the body of the closure too
                    let ts = m.mac.tokens.clone();
                    let mut it = ts.into_iter();
                    let p = it.next().unwrap();
                    let _ = it.next();
                    let rest: TokenStream = it.collect();
                    if let Ok(mut b) = syn::parse2::<Expr>(rest) {
                        self.visit_expr_mut(&mut b);
                        while let Expr::Block(ref x) = b {
                            if x.block.stmts.len() == 1 {
                                if let Stmt::Expr(ref y, None) = x.block.stmts[0] {
                                    b = y.clone();
                                    continue;
                                }
                            }
                            break;
                        }
                        m.mac.tokens = quote!(#p, #b);
                    }
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
        // ---- rewrites after descending
        // match &mut *X { P(v) => .. }: the same match on the place, binding by ref mut
        {
            let place = |x: &Expr| -> Option<Expr> {
                if let Expr::Reference(r) = unparen(x) {
                    if r.mutability.is_some() {
                        if let Expr::Unary(u) = unparen(&r.expr) {
                            if matches!(u.op, UnOp::Deref(_)) {
                                return Some((*r.expr).clone());
                            }
                        }
                    }
                }
                None
            };
            if let Expr::Match(m) = e {
                if let Some(p) = place(&m.expr) {
                    *m.expr = p;
                    for a in &mut m.arms {
                        RefMut.visit_pat_mut(&mut a.pat);
                    }
                }
            } else if let Expr::Let(l) = e {
                if let Some(p) = place(&l.expr) {
                    *l.expr = p;
                    RefMut.visit_pat_mut(&mut l.pat);
                }
            }
        }
        if let Expr::Binary(b) = e {
            if b.right.to_token_stream().to_string() == "None" {
                let l = &b.left;
                match b.op {
                    BinOp::Eq(_) => *e = parse_quote!(#l.is_none()),
                    BinOp::Ne(_) => *e = parse_quote!(#l.is_some()),
                    _ => {}
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let r = &m.receiver;
            match (name.as_str(), m.args.len()) {
                ("borrow_mut", 0) | ("deref_mut", 0) => {
                    self.notes.insert("borrow_mut()/deref_mut() -> &mut *".into());
                    *e = parse_quote!((&mut *#r));
                }
                ("borrow", 0) => {
                    self.notes.insert("borrow() -> &*".into());
                    *e = parse_quote!((&*#r));
                }
                ("slice", 1) => {
                    if let Expr::Range(rg) = unparen(&m.args[0]) {
                        let r = &m.receiver;
                        match (&rg.start, &rg.end) {
                            (Some(a), Some(b)) => *e = parse_quote!(#r.slice_range(#a, #b)),
                            (Some(a), None) => *e = parse_quote!(#r.slice_from(#a)),
                            (None, Some(b)) => *e = parse_quote!(#r.slice_to(#b)),
                            _ => {}
                        }
                        self.notes.insert("slice(a..b) -> slice_range(a, b) (selects the Slice impl)".into());
                    }
                }
                ("len_utf8", 0) => *e = parse_quote!(char_len(#r)),
                ("is_whitespace", 0) => *e = parse_quote!(char_is_ws(#r)),
                ("is_alphabetic", 0) => *e = parse_quote!(char_is_alpha(#r)),
                ("as_char", 0) => *e = (**r).clone(),
                ("len", 0) if matches!(unparen(r), Expr::Lit(l) if matches!(l.lit, Lit::Char(_))) => *e = parse_quote!(char_len(#r)),
                ("to_vec", 0) => *e = parse_quote!(slice_to_vec(&#r)),
                _ => {}
            }
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
    }
}

/// arms with alternatives and a guard -> one arm per alternative
struct SplitOr;
impl VisitMut for SplitOr {
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        visit_mut::visit_expr_match_mut(self, m);
        struct L(bool);
        impl VisitMut for L {
            fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) { self.0 = true; }
            fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) { self.0 = true; }
            fn visit_expr_for_loop_mut(&mut self, _: &mut ExprForLoop) { self.0 = true; }
        }
        let mut out = vec![];
        for a in std::mem::take(&mut m.arms) {
            let mut l = L(false);
            l.visit_expr_mut(&mut a.body.clone());
            match &a.pat {
                Pat::Or(o) if a.guard.is_some() && !l.0 => {
                    for c in &o.cases {
                        out.push(Arm { pat: c.clone(), comma: Some(Default::default()), ..a.clone() });
                    }
                }
                _ => out.push(a),
            }
        }
        m.arms = out;
    }
}

struct RefMut;
impl VisitMut for RefMut {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        let up = p.ident.to_string().chars().next().map_or(false, |c| c.is_uppercase());
        if p.by_ref.is_none() && !up {
            p.by_ref = Some(Default::default());
            p.mutability = Some(Default::default());
        }
    }
}

// the nom fix_error! conversion: match e { Error(..convert..), Failure(..), Incomplete }
struct FixErr {
    hits: usize,
}
impl VisitMut for FixErr {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Match(m) = e {
            let arms: Vec<String> = m.arms.iter().map(|a| a.pat.to_token_stream().to_string()).collect();
            if arms.len() == 3
                && arms[0].starts_with("Err :: Error")
                && arms[1].starts_with("Err :: Failure")
                && arms[2].starts_with("Err :: Incomplete")
                && m.arms[0].body.to_token_stream().to_string().contains("ErrorKind :: convert")
                && m.arms[1].body.to_token_stream().to_string().contains("ErrorKind :: convert")
            {
                let x = &m.expr;
                self.hits += 1;
                *e = parse_quote!(nom_convert_err(#x));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- printing
fn print(ts: TokenStream) -> String {
    let mut s = String::new();
    let mut ind = 0usize;
    pr(ts, &mut s, &mut ind, false);
    s
}
fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    s.push('\n');
    for _ in 0..ind {
        s.push_str("    ");
    }
}
fn pr(ts: TokenStream, s: &mut String, ind: &mut usize, inline: bool) {
    let mut joint = false;
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    for (k, t) in toks.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                s.push_str(o);
                if g.delimiter() == Delimiter::Brace {
                    *ind += 1;
                    nl(s, *ind);
                    pr(g.stream(), s, ind, false);
                    *ind -= 1;
                    nl(s, *ind);
                    s.push_str(c);
                    let follow = toks.get(k + 1).map(|t| t.to_string());
                    match follow.as_deref() {
                        Some("else") | Some(",") | Some(";") | Some(".") | Some("?") | Some(")") | None => s.push(' '),
                        _ => {
                            if inline {
                                s.push(' ')
                            } else {
                                nl(s, *ind)
                            }
                        }
                    }
                } else {
                    pr(g.stream(), s, ind, true);
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    s.push_str(c);
                    s.push(' ');
                }
                joint = false;
            }
            TokenTree::Punct(p) => {
                if matches!(p.as_char(), '.' | ',' | ';' | '?' | ':') && !joint && p.as_char() != ':' {
                    while s.ends_with(' ') {
                        s.pop();
                    }
                }
                s.push(p.as_char());
                joint = p.spacing() == Spacing::Joint;
                let c = p.as_char();
                if c == ';' && !inline {
                    nl(s, *ind);
                } else if c == ',' && !inline {
                    nl(s, *ind);
                } else if !joint && !matches!(c, '&' | '.' | '!' | '*' | '\'' | '#' | '$') {
                    s.push(' ');
                }
            }
            t => {
                let x = t.to_string();
                let next_paren = matches!(toks.get(k + 1), Some(TokenTree::Group(g)) if g.delimiter() != Delimiter::Brace);
                s.push_str(&x);
                let kw = matches!(x.as_str(), "match" | "if" | "while" | "in" | "return" | "let" | "mut" | "else");
                if !(next_paren && !kw) {
                    s.push(' ');
                }
                joint = false;
            }
        }
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn derived(a: &[Attribute]) -> bool {
    a.iter().any(|a| a.path().get_ident().map_or(false, |i| base_name(&i.to_string()) == "automatically_derived"))
}

struct Out {
    items: Vec<String>,
}

fn use_aliases(cfg: &Cfg, module: &[String], u: &UseTree, prefix: &mut Vec<String>, out: &mut BTreeMap<String, String>) {
    match u {
        UseTree::Path(p) => {
            let mut s = base_name(&p.ident.to_string()).to_string();
            if s == "super" {
                s = if module.len() >= 2 { module[module.len() - 2].clone() } else { "crate".into() };
            }
            if s == "self" {
                s = module.last().cloned().unwrap_or("crate".into());
            }
            prefix.push(s);
            use_aliases(cfg, module, &p.tree, prefix, out);
            prefix.pop();
        }
        UseTree::Group(g) => {
            for t in &g.items {
                use_aliases(cfg, module, t, prefix, out);
            }
        }
        UseTree::Name(n) => {
            let s = base_name(&n.ident.to_string()).to_string();
            if let Some(m) = prefix.last() {
                if let Some(x) = cfg.rename.get(&(m.clone(), s.clone())) {
                    out.insert(s, x.clone());
                }
            }
        }
        UseTree::Rename(r) => {
            let s = base_name(&r.ident.to_string()).to_string();
            let a = base_name(&r.rename.to_string()).to_string();
            let x = prefix.last().and_then(|m| cfg.rename.get(&(m.clone(), s.clone())).cloned()).unwrap_or(s);
            out.insert(a, x);
        }
        _ => {}
    }
}

fn rewriter<'c>(cfg: &'c Cfg, module: &[String], aliases: &BTreeMap<String, String>, assoc: &BTreeMap<String, Type>) -> Rewrite<'c> {
    Rewrite {
        cfg,
        module: module.to_vec(),
        aliases: aliases.clone(),
        assoc: assoc.clone(),
        nloop: 0,
        heads: vec![],
        uniq: 0,
        notes: BTreeSet::new(),
        nested: vec![],
        nested_items: vec![],
    }
}

struct Ctx<'c> {
    cfg: &'c Cfg,
    module: Vec<String>,
    aliases: BTreeMap<String, String>,
}

fn emit_fn(out: &mut Out, cx: &Ctx, key: &str, impl_head: &str, tr: &str, sig: &Signature, block: Option<&Block>, assoc: &BTreeMap<String, Type>) {
    let mut f = ItemFn {
        attrs: vec![],
        vis: Visibility::Inherited,
        sig: sig.clone(),
        block: Box::new(block.cloned().unwrap_or(Block { brace_token: Default::default(), stmts: vec![] })),
    };
    let mut b = Bound(BTreeSet::new());
    b.visit_item_fn_mut(&mut f);
    let mut st = Strip { bound: b.0 };
    st.visit_item_fn_mut(&mut f);
    let orig = f.to_token_stream().to_string();
    let mut rw = rewriter(cx.cfg, &cx.module, &cx.aliases, assoc);
    // names of items nested in the function
    struct N(Vec<String>);
    impl VisitMut for N {
        fn visit_item_mut(&mut self, i: &mut Item) {
            match i {
                Item::Enum(e) => self.0.push(e.ident.to_string()),
                Item::Struct(e) => self.0.push(e.ident.to_string()),
                _ => {}
            }
        }
    }
    SplitOr.visit_item_fn_mut(&mut f);
    let mut fe = FixErr { hits: 0 };
    fe.visit_item_fn_mut(&mut f);
    if fe.hits > 0 {
        rw.note("nom fix_error! conversion -> nom_convert_err");
    }
    rw.visit_item_fn_mut(&mut f);
    let mut rn = Renum { seen: BTreeMap::new(), count: BTreeMap::new() };
    rn.visit_item_fn_mut(&mut f);
    f.vis = Visibility::Inherited;
    // emitted name
    let name = f.sig.ident.to_string();
    let full = cx.module.join("::");
    let newname = if impl_head.is_empty() { cx.cfg.rename.get(&(full, name.clone())).cloned().unwrap_or(name.clone()) } else { name.clone() };
    f.sig.ident = mk_ident(&newname);
    let ret = match &f.sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => print(t.to_token_stream()).trim().to_string(),
    };
    let wh = f.sig.generics.where_clause.clone();
    let mut s2 = f.sig.clone();
    s2.output = ReturnType::Default;
    s2.generics.where_clause = None;
    let params: Vec<String> = f.sig.inputs.iter().map(|a| print(a.to_token_stream()).trim().to_string()).collect();
    out.items.push(format!(
        "{{\"kind\":\"fn\",\"key\":{},\"impl\":{},\"trait\":{},\"name\":{},\"sig\":{},\"params\":[{}],\"ret\":{},\"where\":{},\"body\":{},\"loops\":[{}],\"notes\":[{}],\"orig\":{}}}",
        json(key),
        json(impl_head),
        json(tr),
        json(&newname),
        json(print(s2.to_token_stream()).trim()),
        params.iter().map(|h| json(h)).collect::<Vec<_>>().join(","),
        json(&ret),
        json(&wh.map_or(String::new(), |w| print(w.to_token_stream()))),
        json(&if block.is_some() { print(f.block.to_token_stream()) } else { String::new() }),
        rw.heads.iter().map(|h| json(h)).collect::<Vec<_>>().join(","),
        rw.notes.iter().map(|h| json(h)).collect::<Vec<_>>().join(","),
        json(&orig)
    ));
    let nested = std::mem::take(&mut rw.nested);
    let nitems = std::mem::take(&mut rw.nested_items);
    for nf in nested {
        let k = format!("{}/{}", key, nf.sig.ident);
        emit_fn(out, cx, &k, "", "", &nf.sig, Some(&nf.block), &BTreeMap::new());
    }
    for ni in nitems {
        emit_item(out, cx, &ni, &format!("{}/", key));
    }
    let _ = N(vec![]);
}

fn clean_ty(cx: &Ctx, t: &mut Type) {
    let mut st = Strip { bound: BTreeSet::new() };
    st.visit_type_mut(t);
    let mut rw = rewriter(cx.cfg, &cx.module, &cx.aliases, &BTreeMap::new());
    rw.visit_type_mut(t);
}

fn emit_item(out: &mut Out, cx: &Ctx, item: &Item, prefix: &str) {
    let modp = cx.module.join("::");
    let key = |n: &str| if prefix.is_empty() { format!("{}::{}", modp, n) } else { format!("{}{}", prefix, n) };
    match item {
        Item::Fn(f) => emit_fn(out, cx, &key(base_name(&f.sig.ident.to_string())), "", "", &f.sig, Some(&f.block), &BTreeMap::new()),
        Item::Struct(_) | Item::Enum(_) => {
            let mut it = item.clone();
            let mut st = Strip { bound: BTreeSet::new() };
            st.visit_item_mut(&mut it);
            let mut rw = rewriter(cx.cfg, &cx.module, &cx.aliases, &BTreeMap::new());
            let id = match &it {
                Item::Struct(s) => s.ident.to_string(),
                Item::Enum(s) => s.ident.to_string(),
                _ => unreachable!(),
            };
            rw.visit_item_mut(&mut it);
            let newid = cx.cfg.rename.get(&(modp.clone(), id.clone())).cloned().unwrap_or(id.clone());
            match &mut it {
                Item::Struct(s) => {
                    s.ident = mk_ident(&newid);
                    for f in s.fields.iter_mut() {
                        f.vis = parse_quote!(pub);
                    }
                }
                Item::Enum(s) => {
                    s.ident = mk_ident(&newid);
                    for v in s.variants.iter_mut() {
                        for f in v.fields.iter_mut() {
                            f.vis = Visibility::Inherited;
                        }
                    }
                }
                _ => {}
            }
            out.items.push(format!(
                "{{\"kind\":\"type\",\"key\":{},\"name\":{},\"body\":{},\"orig\":{}}}",
                json(&key(&id)),
                json(&newid),
                json(&print(it.to_token_stream())),
                json(&item.to_token_stream().to_string())
            ));
        }
        Item::Impl(im) => {
            if derived(&im.attrs) {
                return;
            }
            let mut ty = (*im.self_ty).clone();
            clean_ty(cx, &mut ty);
            let orig_ty = {
                let mut t = (*im.self_ty).clone();
                let mut st = Strip { bound: BTreeSet::new() };
                st.visit_type_mut(&mut t);
                match &t {
                    Type::Path(p) => {
                        let s = p.path.segments.last().unwrap();
                        let args = match &s.arguments {
                            PathArguments::AngleBracketed(a) if a.args.iter().any(|x| matches!(x, GenericArgument::Type(t) if t.to_token_stream().to_string() != "T")) => a.to_token_stream().to_string().replace(' ', ""),
                            _ => String::new(),
                        };
                        format!("{}{}", s.ident, args)
                    }
                    t => t.to_token_stream().to_string(),
                }
            };
            let mut gen = im.generics.clone();
            {
                let mut st = Strip { bound: BTreeSet::new() };
                st.visit_generics_mut(&mut gen);
                let mut rw = rewriter(cx.cfg, &cx.module, &cx.aliases, &BTreeMap::new());
                rw.visit_generics_mut(&mut gen);
            }
            let tr = match &im.trait_ {
                Some((_, p, _)) => {
                    let mut p = p.clone();
                    let mut st = Strip { bound: BTreeSet::new() };
                    st.visit_path_mut(&mut p);
                    p.segments.last().unwrap().to_token_stream().to_string().replace(' ', "")
                }
                None => String::new(),
            };
            let head = print(quote!(impl #gen #ty)).trim().to_string();
            let mut assoc = BTreeMap::new();
            for i in &im.items {
                if let ImplItem::Type(t) = i {
                    let mut ty = t.ty.clone();
                    clean_ty(cx, &mut ty);
                    assoc.insert(base_name(&t.ident.to_string()).to_string(), ty);
                }
            }
            for i in &im.items {
                if let ImplItem::Fn(f) = i {
                    let n = base_name(&f.sig.ident.to_string()).to_string();
                    let k = if tr.is_empty() { format!("{}::{}", orig_ty, n) } else { format!("{} for {}::{}", tr, orig_ty, n) };
                    emit_fn(out, cx, &key(&k), &head, &tr, &f.sig, Some(&f.block), &assoc);
                }
            }
        }
        Item::Trait(t) => {
            let tn = base_name(&t.ident.to_string()).to_string();
            for i in &t.items {
                if let TraitItem::Fn(f) = i {
                    let n = base_name(&f.sig.ident.to_string()).to_string();
                    emit_fn(out, cx, &key(&format!("{}::{}", tn, n)), "", &tn, &f.sig, f.default.as_ref(), &BTreeMap::new());
                }
            }
        }
        Item::Mod(m) => {
            if let Some((_, items)) = &m.content {
                let mut module = cx.module.clone();
                module.push(base_name(&m.ident.to_string()).to_string());
                walk(out, cx.cfg, module, items);
            }
        }
        _ => {}
    }
}

fn walk(out: &mut Out, cfg: &Cfg, module: Vec<String>, items: &[Item]) {
    let mut aliases = BTreeMap::new();
    for i in items {
        if let Item::Use(u) = i {
            use_aliases(cfg, &module, &u.tree, &mut vec![], &mut aliases);
        }
    }
    let cx = Ctx { cfg, module, aliases };
    for i in items {
        emit_item(out, &cx, i, "");
    }
}

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut cfg = Cfg::default();
    if let Some(p) = std::env::args().nth(1) {
        for l in std::fs::read_to_string(p).unwrap().lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() == 3 && !w[0].starts_with('#') {
                // MODULE NAME NEW: both for the full module path and for `lastseg::NAME`
                cfg.rename.insert((w[0].to_string(), w[1].to_string()), w[2].to_string());
            }
        }
    }
    let marked = mark_hygiene(&s);
    let file = match syn::parse_file(&marked) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("vx: parse error {} at {:?}", e, e.span().start());
            let l = e.span().start().line;
            for (i, t) in marked.lines().enumerate().skip(l.saturating_sub(3)).take(5) {
                eprintln!("{}: {}", i + 1, t);
            }
            std::process::exit(3);
        }
    };
    let mut out = Out { items: vec![] };
    walk(&mut out, &cfg, vec![], &file.items);
    println!("[{}]", out.items.join(",\n"));
}
