//! rw SRC DST: rewrites a Rust source tree so that every `f64` becomes `::symx::F`
//! (types, literals, constants, casts). Everything else is left as it is.
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::path::Path;
use syn::parse::Parser;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const INTS: &[&str] = &["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128", "f32", "char"];

struct Rw {
    in_const: usize,
    /// names of all `const X: f64` of the tree
    consts: std::collections::BTreeSet<String>,
    fresh: usize,
}

fn is_f64(t: &Type) -> bool {
    match t {
        Type::Path(p) => {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            s == ["f64"] || s == ["std", "f64"] || s == ["std", "primitive", "f64"]
        }
        Type::Paren(p) => is_f64(&p.elem),
        Type::Group(p) => is_f64(&p.elem),
        _ => false,
    }
}

/// is this path a floating-point constant of std (f64::MAX, std::f64::consts::PI, f64::consts::E, ...)
fn std_const(p: &syn::Path) -> bool {
    let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let upper = |x: &String| x.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_');
    s.len() >= 2 && !s.iter().any(|x| x == "f32") && s.iter().any(|x| x == "f64" || x == "consts") && upper(s.last().unwrap())
}

struct Names(std::collections::BTreeSet<String>);
const STD: &[&str] = &[
    "PI", "TAU", "E", "LN_2", "LN_10", "SQRT_2", "FRAC_1_SQRT_2", "FRAC_PI_2", "FRAC_PI_3", "FRAC_PI_4", "FRAC_PI_6", "FRAC_PI_8", "FRAC_1_PI",
    "FRAC_2_PI", "FRAC_2_SQRT_PI", "LOG2_E", "LOG10_E", "LOG2_10", "LOG10_2", "INFINITY", "NEG_INFINITY", "NAN", "MAX", "MIN", "EPSILON", "MIN_POSITIVE",
];
impl<'a> syn::visit::Visit<'a> for Names {
    fn visit_item_use(&mut self, u: &'a ItemUse) {
        let mut fl = vec![];
        use_tree(&u.tree, &mut vec![], &mut fl);
        for (v, ren) in fl {
            if v.len() >= 3 && (v[0] == "std" || v[0] == "core") && v[1] == "f64" {
                let l = v.last().unwrap();
                if l == "*" {
                    self.0.extend(STD.iter().map(|s| s.to_string()));
                } else if STD.contains(&l.as_str()) {
                    self.0.insert(ren.unwrap_or(l.clone()));
                }
            }
        }
    }
    fn visit_item_const(&mut self, c: &'a ItemConst) {
        if is_f64(&c.ty) {
            self.0.insert(c.ident.to_string());
        }
        syn::visit::visit_item_const(self, c);
    }
    fn visit_impl_item_const(&mut self, c: &'a ImplItemConst) {
        if is_f64(&c.ty) {
            self.0.insert(c.ident.to_string());
        }
        syn::visit::visit_impl_item_const(self, c);
    }
    fn visit_trait_item_const(&mut self, c: &'a TraitItemConst) {
        if is_f64(&c.ty) {
            self.0.insert(c.ident.to_string());
        }
        syn::visit::visit_trait_item_const(self, c);
    }
}

fn float_lit(l: &LitFloat) -> bool {
    matches!(l.suffix(), "" | "f64")
}
fn mk_lit(l: &LitFloat, neg: bool) -> Expr {
    let d = l.base10_digits();
    let mut s = d.to_string();
    if !s.contains('.') && !s.contains('e') && !s.contains('E') {
        s.push_str(".0");
    }
    let lit = LitFloat::new(&s, l.span());
    if neg {
        parse_quote!(::symx::F::lit(-#lit))
    } else {
        parse_quote!(::symx::F::lit(#lit))
    }
}

/// rewrites a path that mentions f64; returns true if changed
fn fix_path(p: &mut syn::Path) -> bool {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let mut i = 0;
    if (segs[0] == "std" || segs[0] == "core") && segs.len() > 1 && segs[1] == "f64" {
        i = 1;
    }
    if segs[i] != "f64" {
        return false;
    }
    if i == 0 && segs.len() == 1 {
        *p = parse_quote!(::symx::F);
        return true;
    }
    let rest: Vec<PathSegment> = p.segments.iter().skip(i + 1).cloned().collect();
    if rest.is_empty() {
        *p = parse_quote!(::symx);
        return true;
    }
    if rest[0].ident == "consts" {
        let mut q: syn::Path = parse_quote!(::symx);
        for r in rest {
            q.segments.push(r);
        }
        *p = q;
    } else {
        let mut q: syn::Path = parse_quote!(::symx::F);
        for r in rest {
            q.segments.push(r);
        }
        *p = q;
    }
    true
}

fn is_test_cfg(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("cfg") {
            let s = a.meta.to_token_stream().to_string().replace(' ', "");
            s == "cfg(test)"
        } else {
            a.path().is_ident("test") || a.path().is_ident("bench")
        }
    })
}

fn has_f64_tokens(ts: &TokenStream) -> bool {
    ts.clone().into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == "f64",
        TokenTree::Group(g) => has_f64_tokens(&g.stream()),
        TokenTree::Literal(l) => matches!(syn::Lit::new(l), Lit::Float(_)),
        _ => false,
    })
}

/// plain token rewriting for macro definitions and unparsable macro arguments
fn tok(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(id) if id == "f64" => {
                // strip a leading std :: / core ::
                let q: TokenStream = quote!(::symx::F);
                let n = out.len();
                if n >= 3 {
                    if let (TokenTree::Ident(a), TokenTree::Punct(_), TokenTree::Punct(_)) = (&out[n - 3], &out[n - 2], &out[n - 1]) {
                        if a == "std" || a == "core" {
                            out.truncate(n - 3);
                            let m = out.len();
                            if m >= 2 {
                                if let (TokenTree::Punct(x), TokenTree::Punct(y)) = (&out[m - 2], &out[m - 1]) {
                                    if x.as_char() == ':' && y.as_char() == ':' {
                                        out.truncate(m - 2);
                                    }
                                }
                            }
                        }
                    }
                }
                // f64::consts::X
                if let (Some(TokenTree::Punct(_)), Some(TokenTree::Punct(_)), Some(TokenTree::Ident(c))) = (v.get(i + 1), v.get(i + 2), v.get(i + 3)) {
                    if c == "consts" {
                        out.extend(quote!(::symx));
                        i += 1;
                        continue;
                    }
                }
                out.extend(q);
            }
            TokenTree::Literal(l) => match syn::Lit::new(l.clone()) {
                Lit::Float(f) if float_lit(&f) => {
                    let e = mk_lit(&f, false);
                    out.extend(e.to_token_stream());
                }
                _ => out.push(v[i].clone()),
            },
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), tok(g.stream()));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    let _ = (Delimiter::None, Ident::new("a", Span::call_site()), Literal::u8_suffixed(0), Punct::new(',', Spacing::Alone));
    out.into_iter().collect()
}

/// splits at top-level , and ;
fn split(ts: TokenStream) -> Vec<(TokenStream, Option<Punct>)> {
    let mut r = vec![];
    let mut cur = TokenStream::new();
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == ',' || p.as_char() == ';' {
                r.push((std::mem::take(&mut cur), Some(p.clone())));
                continue;
            }
        }
        cur.extend(std::iter::once(t));
    }
    if !cur.is_empty() {
        r.push((cur, None));
    }
    r
}

impl Rw {
    /// a constant expression of type f64, on plain f64 (names of rewritten constants are unwrapped)
    fn const_f64(&self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Float(f) if float_lit(f) => Some(e.clone()),
                Lit::Int(i) if i.suffix() == "f64" => Some(e.clone()),
                _ => None,
            },
            Expr::Path(p) => {
                if std_const(&p.path) {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if s[0] == "f64" && s[1] == "consts" || s[0] == "consts" {
                        let n = &p.path.segments.last().unwrap().ident;
                        return Some(parse_quote!(::std::f64::consts::#n));
                    }
                    if s[0] == "f64" {
                        let n = &p.path.segments.last().unwrap().ident;
                        return Some(parse_quote!(::std::f64::#n));
                    }
                    Some(e.clone())
                } else if p.path.segments.last().map(|s| self.consts.contains(&s.ident.to_string())).unwrap_or(false) {
                    Some(parse_quote!((#e).raw()))
                } else {
                    None
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => {
                let x = self.const_f64(&u.expr)?;
                Some(parse_quote!((-#x)))
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_)) => {
                let (x, y, op) = (self.const_f64(&b.left)?, self.const_f64(&b.right)?, &b.op);
                Some(parse_quote!((#x #op #y)))
            }
            Expr::Paren(p) => self.const_f64(&p.expr),
            Expr::Group(p) => self.const_f64(&p.expr),
            Expr::Cast(c) if is_f64(&c.ty) => Some(e.clone()),
            _ => None,
        }
    }
    /// the value tested by a floating-point pattern, if this is one
    fn float_pat(&self, p: &Pat) -> Option<(Option<Expr>, Option<Expr>, bool)> {
        let num = |e: &Expr| self.const_f64(e);
        match p {
            Pat::Lit(l) => {
                let e = Expr::Lit(l.clone());
                num(&e).map(|x| (Some(x.clone()), Some(x), true))
            }
            Pat::Path(q) => {
                let e = Expr::Path(q.clone());
                num(&e).map(|x| (Some(x.clone()), Some(x), true))
            }
            Pat::Verbatim(ts) => {
                let e = syn::parse2::<Expr>(ts.clone()).ok()?;
                num(&e).map(|x| (Some(x.clone()), Some(x), true))
            }
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() && self.consts.contains(&i.ident.to_string()) => {
                let id = &i.ident;
                let x: Expr = parse_quote!((#id).raw());
                Some((Some(x.clone()), Some(x), true))
            }
            Pat::Range(r) => {
                let lo = r.start.as_ref().map(|e| num(e));
                let hi = r.end.as_ref().map(|e| num(e));
                if matches!(lo, Some(None)) || matches!(hi, Some(None)) || (lo.is_none() && hi.is_none()) {
                    return None;
                }
                Some((lo.flatten(), hi.flatten(), matches!(r.limits, RangeLimits::Closed(_))))
            }
            Pat::Paren(q) => self.float_pat(&q.pat),
            _ => None,
        }
    }
    fn fix_pat(&mut self, p: &mut Pat, conds: &mut Vec<Expr>) {
        if let Some((lo, hi, closed)) = self.float_pat(p) {
            let id = Ident::new(&format!("__fp{}", self.fresh), Span::call_site());
            self.fresh += 1;
            *p = parse_quote!(#id);
            match (lo, hi) {
                (Some(a), Some(b)) if a.to_token_stream().to_string() == b.to_token_stream().to_string() => conds.push(parse_quote!(::symx::pat_eq(&#id, #a))),
                (lo, hi) => {
                    if let Some(a) = lo {
                        conds.push(parse_quote!(::symx::pat_ge(&#id, #a)));
                    }
                    if let Some(b) = hi {
                        conds.push(if closed { parse_quote!(::symx::pat_le(&#id, #b)) } else { parse_quote!(::symx::pat_lt(&#id, #b)) });
                    }
                }
            }
            return;
        }
        match p {
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|q| self.fix_pat(q, conds)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|q| self.fix_pat(q, conds)),
            Pat::Struct(t) => t.fields.iter_mut().for_each(|q| self.fix_pat(&mut q.pat, conds)),
            Pat::Slice(t) => t.elems.iter_mut().for_each(|q| self.fix_pat(q, conds)),
            Pat::Reference(t) => self.fix_pat(&mut t.pat, conds),
            Pat::Paren(t) => self.fix_pat(&mut t.pat, conds),
            _ => {}
        }
    }
    fn fix_arms(&mut self, arms: &mut Vec<Arm>) {
        let mut out = vec![];
        for a in arms.drain(..) {
            let alts: Vec<Pat> = match &a.pat {
                Pat::Or(o) => {
                    let mut c = vec![];
                    let mut any = false;
                    for q in o.cases.iter() {
                        let mut q2 = q.clone();
                        let n = c.len();
                        self.fix_pat(&mut q2, &mut c);
                        any |= c.len() > n;
                    }
                    if any {
                        o.cases.iter().cloned().collect()
                    } else {
                        vec![a.pat.clone()]
                    }
                }
                _ => vec![a.pat.clone()],
            };
            for mut q in alts {
                let mut arm = a.clone();
                let mut c = vec![];
                self.fix_pat(&mut q, &mut c);
                arm.pat = q;
                if !c.is_empty() {
                    let mut g: Expr = parse_quote!(true #(&& #c)*);
                    if let Some((_, old)) = &arm.guard {
                        g = parse_quote!(#g && (#old));
                    }
                    arm.guard = Some((Default::default(), Box::new(g)));
                    arm.comma = Some(Default::default());
                }
                out.push(arm);
            }
        }
        *arms = out;
    }
    fn fix_const(&mut self, ty: &mut Type, e: &mut Expr) {
        if is_f64(ty) {
            let n: Expr = match self.const_f64(e) {
                Some(x) => x,
                None => e.clone(),
            };
            *e = parse_quote!(::symx::F::lit(#n));
            *ty = parse_quote!(::symx::F);
            return;
        }
        self.in_const += 1;
        self.visit_type_mut(ty);
        self.visit_expr_mut(e);
        self.in_const -= 1;
    }
    fn mac(&mut self, m: &mut Macro) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let ts = m.tokens.clone();
        if name == "quote" {
            return;
        }
        if name == "matches" {
            let parse = |inp: syn::parse::ParseStream| -> syn::Result<(Expr, Pat, Option<Expr>)> {
                let e: Expr = inp.parse()?;
                inp.parse::<Token![,]>()?;
                let p = Pat::parse_multi_with_leading_vert(inp)?;
                let g = if inp.peek(Token![if]) {
                    inp.parse::<Token![if]>()?;
                    Some(inp.parse::<Expr>()?)
                } else {
                    None
                };
                inp.parse::<Option<Token![,]>>()?;
                Ok((e, p, g))
            };
            if let Ok((e, p, g)) = parse.parse2(ts.clone()) {
                // matches!(e, p if g)  =>  matches!(match e { p if g => true, _ => false }, true)
                let mut x: Expr = match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                };
                self.visit_expr_mut(&mut x);
                m.tokens = quote!(#x, true);
            } else if has_f64_tokens(&ts) {
                m.tokens = tok(ts);
            }
            return;
        }
        // whole-argument list first (generic commas inside turbofish etc.)
        let whole = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(ts.clone());
        if let Ok(mut p) = whole {
            for e in p.iter_mut() {
                self.visit_expr_mut(e);
            }
            m.tokens = p.to_token_stream();
            return;
        }
        let mut out = TokenStream::new();
        for (part, sep) in split(ts) {
            if !part.is_empty() {
                match syn::parse2::<Expr>(part.clone()) {
                    Ok(mut e) => {
                        self.visit_expr_mut(&mut e);
                        e.to_tokens(&mut out);
                    }
                    Err(_) => out.extend(tok(part)),
                }
            }
            if let Some(p) = sep {
                out.extend(std::iter::once(TokenTree::Punct(p)));
            }
        }
        m.tokens = out;
    }
}

fn use_tree(t: &UseTree, prefix: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            prefix.push(p.ident.to_string());
            use_tree(&p.tree, prefix, out);
            prefix.pop();
        }
        UseTree::Name(n) => {
            let mut v = prefix.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, None));
        }
        UseTree::Rename(n) => {
            let mut v = prefix.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, Some(n.rename.to_string())));
        }
        UseTree::Glob(_) => {
            let mut v = prefix.clone();
            v.push("*".into());
            out.push((v, None));
        }
        UseTree::Group(g) => {
            for i in &g.items {
                use_tree(i, prefix, out);
            }
        }
    }
}

fn hash_name(s: &str) -> bool {
    s == "HashMap" || s == "HashSet"
}

fn fix_items(items: &mut Vec<Item>) {
    let mut out = vec![];
    for it in items.drain(..) {
        let skip = match &it {
            Item::Mod(m) => is_test_cfg(&m.attrs),
            Item::Fn(f) => is_test_cfg(&f.attrs),
            Item::Use(u) => is_test_cfg(&u.attrs),
            Item::Impl(u) => is_test_cfg(&u.attrs),
            Item::Struct(u) => is_test_cfg(&u.attrs),
            Item::Const(u) => is_test_cfg(&u.attrs),
            Item::Static(u) => is_test_cfg(&u.attrs),
            Item::Macro(u) => is_test_cfg(&u.attrs),
            _ => false,
        };
        if skip {
            continue;
        }
        if let Item::Use(u) = &it {
            let mut fl = vec![];
            use_tree(&u.tree, &mut vec![], &mut fl);
            let touches = |v: &Vec<String>| {
                v.len() >= 2
                    && (v[0] == "std" || v[0] == "core")
                    && (v[1] == "f64" || (v[1] == "collections" && v.len() >= 3 && hash_name(v.last().unwrap()) && (v.len() == 3 || v[2] == "hash_map" || v[2] == "hash_set")))
            };
            if fl.iter().any(|x| touches(&x.0)) {
                let vis = &u.vis;
                let attrs = &u.attrs;
                for (v, ren) in fl {
                    if touches(&v) && v[1] == "f64" {
                        if v.len() == 2 {
                            if let Some(r) = ren {
                                let r = Ident::new(&r, Span::call_site());
                                out.push(parse_quote!(#(#attrs)* #vis use ::symx as #r;));
                            }
                            continue; // `use std::f64;` : paths through it are rewritten
                        }
                        let mut p: syn::Path = parse_quote!(::symx);
                        for s in &v[2..] {
                            if s != "*" {
                                p.segments.push(PathSegment::from(Ident::new(s, Span::call_site())));
                            }
                        }
                        if v.last().unwrap() == "*" {
                            out.push(parse_quote!(#(#attrs)* #vis use #p::*;));
                        } else if let Some(r) = ren {
                            let r = Ident::new(&r, Span::call_site());
                            out.push(parse_quote!(#(#attrs)* #vis use #p as #r;));
                        } else {
                            out.push(parse_quote!(#(#attrs)* #vis use #p;));
                        }
                    } else {
                        let mut v2 = v.clone();
                        let mut root: syn::Path = parse_quote!(::std);
                        if touches(&v) {
                            root = parse_quote!(::symx::det);
                            let n = v2.len() - 1;
                            v2.drain(..n);
                        } else if v[0] == "std" || v[0] == "core" {
                            v2.remove(0);
                        } else {
                            root = syn::parse_str(&v[0]).unwrap();
                            v2.remove(0);
                        }
                        let glob = v2.last().map(|s| s == "*").unwrap_or(false);
                        for s in &v2 {
                            if s != "*" {
                                root.segments.push(PathSegment::from(Ident::new(s, Span::call_site())));
                            }
                        }
                        if glob {
                            out.push(parse_quote!(#(#attrs)* #vis use #root::*;));
                        } else if let Some(r) = ren {
                            let r = Ident::new(&r, Span::call_site());
                            out.push(parse_quote!(#(#attrs)* #vis use #root as #r;));
                        } else {
                            out.push(parse_quote!(#(#attrs)* #vis use #root;));
                        }
                    }
                }
                continue;
            }
        }
        // C-like enums can be cast to integers
        if let Item::Enum(en) = &it {
            if en.generics.params.is_empty() && !en.variants.is_empty() && en.variants.iter().all(|v| matches!(v.fields, Fields::Unit)) {
                let id = &en.ident;
                let mut extra: Vec<Item> = vec![];
                for t in INTS.iter().filter(|t| **t != "f32" && **t != "char") {
                    let t = Ident::new(t, Span::call_site());
                    extra.push(parse_quote!(impl ::symx::Cast<#t> for #id { fn cast(self) -> #t { ::symx::raw_cast!(self, #t) } }));
                }
                out.push(it);
                out.extend(extra);
                continue;
            }
        }
        if let Item::Use(u) = &it {
            let mut fl = vec![];
            use_tree(&u.tree, &mut vec![], &mut fl);
            let vis = &u.vis;
            for (v, _) in &fl {
                if v.len() == 3 && (v[0] == "std" || v[0] == "core") && v[1] == "collections" && v[2] == "*" {
                    out.push(parse_quote!(#vis use ::symx::det::{HashMap, HashSet};));
                }
            }
        }
        out.push(it);
    }
    *items = out;
}

impl VisitMut for Rw {
    fn visit_file_mut(&mut self, f: &mut File) {
        fix_items(&mut f.items);
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if let Some((_, items)) = &mut m.content {
            fix_items(items);
        }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // `use std::f64...;` inside function bodies
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            if let Stmt::Item(it) = s {
                let mut v = vec![it];
                fix_items(&mut v);
                out.extend(v.into_iter().map(Stmt::Item));
            } else {
                out.push(s);
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_const_mut(&mut self, c: &mut ItemConst) {
        self.fix_const(&mut c.ty, &mut c.expr);
    }
    fn visit_item_static_mut(&mut self, c: &mut ItemStatic) {
        self.fix_const(&mut c.ty, &mut c.expr);
    }
    fn visit_impl_item_const_mut(&mut self, c: &mut ImplItemConst) {
        self.fix_const(&mut c.ty, &mut c.expr);
    }
    fn visit_trait_item_const_mut(&mut self, c: &mut TraitItemConst) {
        match &mut c.default {
            Some((_, e)) => self.fix_const(&mut c.ty, e),
            None => self.visit_type_mut(&mut c.ty),
        }
    }
    fn visit_signature_mut(&mut self, s: &mut Signature) {
        if s.constness.is_some() && has_f64_tokens(&s.to_token_stream()) {
            s.constness = None;
        }
        visit_mut::visit_signature_mut(self, s);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        self.fix_arms(&mut m.arms);
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if !fix_path(p) {
            let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            let at = (1..s.len()).find(|&i| {
                (s[i] == "HashMap" || s[i] == "HashSet") && (s[i - 1] == "collections" || s[i - 1] == "hash_map" || s[i - 1] == "hash_set")
            });
            if let Some(at) = at {
                let rest: Vec<PathSegment> = p.segments.iter().skip(at).cloned().collect();
                let mut q: syn::Path = parse_quote!(::symx::det);
                for r in rest {
                    q.segments.push(r);
                }
                *p = q;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.in_const > 0 {
            if let Some(x) = self.const_f64(e) {
                *e = parse_quote!(::symx::F::lit(#x));
                return;
            }
            if let Expr::Cast(c) = e {
                if let Some(x) = self.const_f64(&c.expr) {
                    *c.expr = x;
                    return;
                }
            }
        }
        match e {
            Expr::Lit(l) => {
                if let Lit::Float(f) = &l.lit {
                    if float_lit(f) {
                        *e = mk_lit(f, false);
                    }
                } else if let Lit::Int(i) = &l.lit {
                    if i.suffix() == "f64" {
                        let f = LitFloat::new(&format!("{}.0", i.base10_digits()), i.span());
                        *e = mk_lit(&f, false);
                    }
                }
                return;
            }
            Expr::Unary(u) => {
                if let (UnOp::Neg(_), Expr::Lit(l)) = (&u.op, &*u.expr) {
                    if let Lit::Float(f) = &l.lit {
                        if float_lit(f) {
                            *e = mk_lit(f, true);
                            return;
                        }
                    }
                }
            }
            Expr::Cast(c) => {
                if let Type::Path(p) = &*c.ty {
                    if is_f64(&c.ty) {
                        let mut inner = (*c.expr).clone();
                        self.visit_expr_mut(&mut inner);
                        *e = parse_quote!(::symx::to_f(#inner));
                        return;
                    }
                    if self.in_const == 0 {
                        if let Some(id) = p.path.get_ident() {
                            if INTS.contains(&id.to_string().as_str()) && !matches!(*c.expr, Expr::Lit(_)) {
                                let mut inner = (*c.expr).clone();
                                self.visit_expr_mut(&mut inner);
                                let id = id.clone();
                                *e = parse_quote!(<_ as ::symx::Cast<#id>>::cast(#inner));
                                return;
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        self.mac(m);
    }
    fn visit_item_macro_mut(&mut self, m: &mut ItemMacro) {
        if m.mac.path.is_ident("macro_rules") {
            m.mac.tokens = tok(m.mac.tokens.clone());
        } else {
            m.mac.tokens = tok(m.mac.tokens.clone());
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}

fn is_mod_attr(a: &Attribute) -> bool {
    // attributes that could make the generated code fail to compile
    let s = a.path().to_token_stream().to_string();
    s == "deny" || s == "forbid" || s == "doc"
}

struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, v: &mut Vec<Attribute>) {
        v.retain(|a| !is_mod_attr(a));
    }
}

fn names(src: &Path, n: &mut Names) -> std::result::Result<(), String> {
    for e in std::fs::read_dir(src).map_err(|e| e.to_string())?.filter_map(|e| e.ok()) {
        let p = e.path();
        if p.is_dir() {
            names(&p, n)?;
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
            let f = syn::parse_file(&text).map_err(|e| format!("{}: {}", p.display(), e))?;
            syn::visit::Visit::visit_file(n, &f);
        }
    }
    Ok(())
}

fn process(src: &Path, dst: &Path, root: bool, consts: &std::collections::BTreeSet<String>) -> std::result::Result<(), String> {
    let text = std::fs::read_to_string(src).map_err(|e| format!("{}: {}", src.display(), e))?;
    let mut f = syn::parse_file(&text).map_err(|e| format!("{}: {}", src.display(), e))?;
    Strip.visit_file_mut(&mut f);
    let mut rw = Rw { in_const: 0, consts: consts.clone(), fresh: 0 };
    rw.visit_file_mut(&mut f);
    let mut s = String::new();
    if root {
        s.push_str("#![allow(warnings)]\n");
    }
    for a in &f.attrs {
        s.push_str(&a.to_token_stream().to_string());
        s.push('\n');
    }
    if root {
        s.push_str("#[allow(unused_extern_crates)] extern crate symx;\n");
    }
    for i in &f.items {
        s.push_str(&i.to_token_stream().to_string());
        s.push('\n');
    }
    if let Some(d) = dst.parent() {
        std::fs::create_dir_all(d).map_err(|e| e.to_string())?;
    }
    if std::fs::read_to_string(dst).map(|o| o == s).unwrap_or(false) {
        return Ok(());
    }
    std::fs::write(dst, s).map_err(|e| e.to_string())
}

fn walk(src: &Path, dst: &Path, top: bool, consts: &std::collections::BTreeSet<String>) -> std::result::Result<usize, String> {
    let mut n = 0;
    let mut es: Vec<_> = std::fs::read_dir(src).map_err(|e| e.to_string())?.filter_map(|e| e.ok()).collect();
    es.sort_by_key(|e| e.file_name());
    for e in es {
        let p = e.path();
        let q = dst.join(e.file_name());
        if p.is_dir() {
            n += walk(&p, &q, false, consts)?;
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            let root = top && (e.file_name() == "lib.rs" || e.file_name() == "main.rs");
            process(&p, &q, root, consts)?;
            n += 1;
        }
    }
    Ok(n)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    for p in a[1..].chunks(2) {
        let mut n = Names(Default::default());
        if let Err(e) = names(Path::new(&p[0]), &mut n) {
            eprintln!("rw: {}", e);
            std::process::exit(2);
        }
        match walk(Path::new(&p[0]), Path::new(&p[1]), true, &n.0) {
            Ok(n) => println!("rewrote {} files of {}", n, p[0]),
            Err(e) => {
                eprintln!("rw: {}", e);
                std::process::exit(2);
            }
        }
    }
}
