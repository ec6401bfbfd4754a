//! Rewriting of types, signatures and bodies into the verifier's dialect.
use crate::inline::Inliner;
use crate::print;
use crate::{Crate, FnInfo};
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub fn is_crate_generic(name: &str, cr: &Crate) -> bool {
    cr.generic_types.contains(name) || name == "NotNan"
}

fn drop_coord_args(seg: &mut PathSegment, cr: &Crate) {
    if !is_crate_generic(&seg.ident.to_string(), cr) {
        return;
    }
    if let PathArguments::AngleBracketed(a) = &mut seg.arguments {
        let keep: Vec<GenericArgument> = a
            .args
            .iter()
            .filter(|g| match g {
                GenericArgument::Type(Type::Path(p)) => !(p.path.is_ident("C") || p.path.is_ident("f64")),
                _ => true,
            })
            .cloned()
            .collect();
        if keep.is_empty() {
            seg.arguments = PathArguments::None;
        } else {
            a.args = keep.into_iter().collect();
        }
    }
}

fn iter_item(bounds: &syn::punctuated::Punctuated<TypeParamBound, Token![+]>) -> Option<Type> {
    for b in bounds {
        if let TypeParamBound::Trait(t) = b {
            let s = t.path.segments.last().unwrap();
            if ["Iterator", "DoubleEndedIterator", "ExactSizeIterator", "IntoIterator"].contains(&s.ident.to_string().as_str()) {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    for g in &a.args {
                        if let GenericArgument::AssocType(at) = g {
                            if at.ident == "Item" {
                                return Some(at.ty.clone());
                            }
                        }
                    }
                }
            }
        }
    }
    None
}

struct TyTx<'a> {
    cr: &'a Crate,
    subst: Vec<(String, Type)>,
}
fn short_path(p: &mut syn::Path) {
    // wkt::types::Point -> wkt_types_Point; crate::a::T, std::x::T -> T
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    if segs.len() < 2 {
        return;
    }
    if segs[0] == "wkt" {
        // wkt::Geometry::Point(..) names a variant of wkt::Geometry
        let lower = segs.iter().position(|s| s.chars().next().unwrap().is_uppercase()).unwrap_or(segs.len() - 1);
        let joined = segs[..=lower].join("_");
        let mut out: syn::punctuated::Punctuated<PathSegment, Token![::]> = Default::default();
        let mut first = p.segments[lower].clone();
        first.ident = Ident::new(&joined, Span::call_site());
        out.push(first);
        for s in p.segments.iter().skip(lower + 1) {
            out.push(s.clone());
        }
        p.segments = out;
        p.leading_colon = None;
        return;
    }
    let first = segs[0].as_str();
    if ["crate", "std", "core", "super", "self", "alloc", "num_traits", "ordered_float"].contains(&first) {
        // drop leading module (lower-case) segments
        let k = segs.iter().position(|s| s.chars().next().unwrap().is_uppercase()).unwrap_or(segs.len() - 1);
        p.segments = p.segments.iter().skip(k).cloned().collect();
        p.leading_colon = None;
    }
}
impl<'a> VisitMut for TyTx<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        short_path(p);
        for s in p.segments.iter_mut() {
            drop_coord_args(s, self.cr);
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(i) = t {
            if let Some(item) = iter_item(&i.bounds) {
                *t = parse_quote!(Vec<#item>);
            }
        }
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() {
                for (n, ty) in &self.subst {
                    if p.path.is_ident(n) {
                        *t = ty.clone();
                        break;
                    }
                }
            }
        }
        if let Type::Path(p) = t {
            if p.path.is_ident("f64") {
                *t = parse_quote!(C);
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
}

pub fn tx_type(t: &mut Type, cr: &Crate) {
    TyTx { cr, subst: vec![] }.visit_type_mut(t);
}

/// Generics without `C: Coordinate`, and the iterator-bounded parameters to substitute.
fn tx_generics(g: &Generics, cr: &Crate) -> (Generics, Vec<(String, Type)>) {
    let mut g = g.clone();
    let mut subst = vec![];
    let mut ps: Vec<GenericParam> = vec![];
    let mut wh: Vec<WherePredicate> = vec![];
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(pt) = p {
                if let Type::Path(tp) = &pt.bounded_ty {
                    if tp.path.is_ident("C") {
                        continue;
                    }
                    if let Some(item) = iter_item(&pt.bounds) {
                        subst.push((tp.path.segments[0].ident.to_string(), parse_quote!(Vec<#item>)));
                        continue;
                    }
                }
            }
            wh.push(p.clone());
        }
    }
    for p in &g.params {
        match p {
            GenericParam::Type(t) => {
                if t.ident == "C" {
                    continue;
                }
                if let Some(item) = iter_item(&t.bounds) {
                    subst.push((t.ident.to_string(), parse_quote!(Vec<#item>)));
                    continue;
                }
                if subst.iter().any(|(n, _)| t.ident == n) {
                    continue;
                }
                ps.push(p.clone());
            }
            _ => ps.push(p.clone()),
        }
    }
    g.params = ps.into_iter().collect();
    g.where_clause = if wh.is_empty() {
        None
    } else {
        Some(WhereClause { where_token: Default::default(), predicates: wh.into_iter().collect() })
    };
    if g.params.is_empty() {
        g.lt_token = None;
        g.gt_token = None;
    }
    TyTx { cr, subst: subst.clone() }.visit_generics_mut(&mut g);
    (g, subst)
}

struct Body<'a> {
    cr: &'a Crate,
    subst: Vec<(String, Type)>,
    ret: Option<Type>,
    loops: usize,
    loop_kinds: Vec<String>,
    rets: usize,
    panics: usize,
    blocks: usize,
    block_sigs: Vec<String>,
    ret_sigs: Vec<String>,
    tmp: usize,
    lets: BTreeMap<String, usize>,
    let_order: Vec<String>,
    callm: BTreeMap<String, usize>,
    iter_vars: BTreeSet<String>,
    closure_depth: usize,
    unsupported: Vec<String>,
    pathcalls: BTreeSet<String>,
    methods: BTreeSet<String>,
    idents: BTreeSet<String>,
}

fn marker(name: &str) -> Stmt {
    let id = format_ident!("{}", name);
    parse_quote!(__vm!(#id);)
}

const ITER_SRC: &[&str] = &["iter", "into_iter", "chunks", "windows", "keys", "values", "drain", "chars", "into_values", "iter_mut"];
const ITER_ADAPT: &[&str] = &[
    "map", "filter", "filter_map", "flat_map", "enumerate", "zip", "skip", "take", "copied", "cloned", "rev", "chain", "by_ref", "peekable", "flatten", "inspect", "step_by", "take_while", "skip_while",
];

impl<'a> Body<'a> {
    fn is_iter(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                ITER_SRC.contains(&n.as_str()) || self.cr.iter_fns.contains(&n) || (ITER_ADAPT.contains(&n.as_str()) && self.is_iter(&m.receiver))
            }
            Expr::Paren(p) => self.is_iter(&p.expr),
            Expr::Range(r) => r.start.is_some() && r.end.is_some(),
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.iter_vars.contains(&i.to_string())),
            Expr::Macro(m) => m.mac.path.is_ident("iproduct"),
            Expr::Reference(r) => self.is_iter(&r.expr),
            _ => false,
        }
    }

    fn bad<S: Into<String>>(&mut self, s: S) {
        self.unsupported.push(s.into());
    }

    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        format_ident!("__{}{}", p, self.tmp)
    }

    /// A pattern with its `&p` parts replaced by names, plus the lets that dereference them.
    fn pat(&mut self, p: &Pat) -> (Pat, Vec<Stmt>) {
        let mut p = match p {
            Pat::Type(t) => (*t.pat).clone(),
            Pat::Paren(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        struct R<'b, 'c> {
            b: &'b mut Body<'c>,
            out: Vec<Stmt>,
        }
        impl<'b, 'c> VisitMut for R<'b, 'c> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    let id = self.b.fresh("d");
                    let inner = (*r.pat).clone();
                    if let Pat::Wild(_) = inner {
                        *p = inner;
                        return;
                    }
                    self.out.push(parse_quote!(let #inner = *#id;));
                    *p = parse_quote!(#id);
                    return;
                }
                syn::visit_mut::visit_pat_mut(self, p);
            }
        }
        let mut r = R { b: self, out: vec![] };
        r.visit_pat_mut(&mut p);
        let out = r.out;
        (p, out)
    }

    fn new_loop(&mut self, kind: &str) -> usize {
        self.loops += 1;
        self.loop_kinds.push(kind.to_string());
        self.loops
    }

    /// (pattern list, body expression) of a closure or function path used as an adapter.
    fn closure(&mut self, e: &Expr, n: usize) -> Option<(Vec<Pat>, Expr)> {
        match e {
            Expr::Closure(c) if c.inputs.len() == n => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())),
            Expr::Path(_) => {
                let ids: Vec<Ident> = (0..n).map(|_| self.fresh("a")).collect();
                let pats = ids.iter().map(|i| parse_quote!(#i)).collect();
                Some((pats, parse_quote!(#e(#(#ids),*))))
            }
            _ => None,
        }
    }

    fn tx_closure_body(&mut self, mut b: Expr) -> Expr {
        self.closure_depth += 1;
        self.expr(&mut b);
        self.closure_depth -= 1;
        b
    }

    fn source(&mut self, e: &Expr) -> Expr {
        // any expression a `for` can iterate over, as a Vec
        if self.is_iter(e) {
            let mut x = e.clone();
            self.expr(&mut x);
            x
        } else {
            let mut x = e.clone();
            self.expr(&mut x);
            if matches!(x, Expr::Path(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Field(_)) {
                parse_quote!(#x.vinto_iter())
            } else {
                parse_quote!((#x).vinto_iter())
            }
        }
    }

    /// Keeps a temporary that an iterator borrows from alive for the loop.
    fn hold(&self, e: &mut Expr, k: usize, out: &mut Vec<Stmt>) {
        match e {
            Expr::MethodCall(m) if m.method == "viter" => {
                if matches!(&*m.receiver, Expr::MethodCall(_) | Expr::Call(_)) {
                    let t = format_ident!("__t{}", k);
                    let r = m.receiver.clone();
                    out.push(parse_quote!(let #t = #r;));
                    *m.receiver = parse_quote!(#t);
                }
            }
            Expr::Call(c) => {
                if let Some(a) = c.args.first_mut() {
                    self.hold(a, k, out);
                }
            }
            _ => {}
        }
    }

    fn for_like(&mut self, k: usize, src: Expr, pat: &Pat, body: Vec<Stmt>) -> Expr {
        let (p, derefs) = self.pat(pat);
        let (s, i) = (format_ident!("__s{}", k), format_ident!("__i{}", k));
        let (before, inv, top, after) = (marker(&format!("before_{}", k)), marker(&format!("inv_{}", k)), marker(&format!("top_{}", k)), marker(&format!("after_{}", k)));
        let bot = marker(&format!("bot_{}", k));
        let mut src = src;
        let mut held = vec![];
        self.hold(&mut src, k, &mut held);
        parse_quote!({
            #(#held)*
            let #s = #src;
            let mut #i: usize = 0;
            #before
            while #i < #s.len() {
                #inv
                let #p = vtake(&#s, #i);
                #i += 1;
                #(#derefs)*
                #top
                #(#body)*
                #bot
            }
            #after
        })
    }

    /// Rewrites one iterator adapter or consumer; the receiver is already rewritten.
    fn adapter(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv0 = (*m.receiver).clone();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let recv_iter = self.is_iter(&recv0);
        // sources
        match (name.as_str(), args.len()) {
            ("iter", 0) => {
                let mut r = recv0;
                self.expr(&mut r);
                return Some(parse_quote!(#r.viter()));
            }
            ("into_iter", 0) => {
                let mut r = recv0;
                if recv_iter {
                    self.expr(&mut r);
                    return Some(r);
                }
                self.expr(&mut r);
                return Some(parse_quote!(#r.vinto_iter()));
            }
            ("keys", 0) => {
                let mut r = recv0;
                self.expr(&mut r);
                return Some(parse_quote!(#r.vkeys()));
            }
            ("chunks", 1) | ("windows", 1) => {
                let mut r = recv0;
                self.expr(&mut r);
                let mut a = args[0].clone();
                self.expr(&mut a);
                let f = format_ident!("v{}", name);
                return Some(parse_quote!(#f(#r, #a)));
            }
            _ => {}
        }
        if !recv_iter {
            return None;
        }
        let mut recv = recv0;
        if let Expr::Paren(p) = recv {
            recv = *p.expr;
        }
        self.expr(&mut recv);
        let simple = |f: &str, a: &[Expr]| -> Expr {
            let f = format_ident!("{}", f);
            parse_quote!(#f(#recv #(, #a)*))
        };
        match (name.as_str(), args.len()) {
            ("enumerate", 0) => return Some(simple("venumerate", &[])),
            ("copied", 0) | ("cloned", 0) => return Some(simple("vcopied", &[])),
            ("rev", 0) => return Some(simple("vrev", &[])),
            ("by_ref", 0) | ("peekable", 0) => return Some(recv),
            ("collect", 0) => {
                if m.turbofish.as_ref().map_or(false, |t| t.args.first().map_or(false, |a| matches!(a, GenericArgument::Type(t) if is_result(t)))) {
                    return Some(simple("vcollect_ok", &[]));
                }
                return Some(recv);
            }
            ("count", 0) => return Some(parse_quote!(#recv.len())),
            ("sum", 0) => return Some(simple("vsum", &[])),
            ("next", 0) => return Some(parse_quote!(#recv.vnext())),
            ("skip", 1) | ("take", 1) | ("step_by", 1) => {
                let mut a = args[0].clone();
                self.expr(&mut a);
                return Some(simple(&format!("v{}", name), &[a]));
            }
            ("zip", 1) | ("chain", 1) => {
                let a = self.source(&args[0]);
                return Some(simple(&format!("v{}", name), &[a]));
            }
            ("for_each", 1) => {
                let (ps, b) = self.closure(&args[0], 1)?;
                let k = self.new_loop("for_each");
                let b = self.tx_closure_body(b);
                let stmts: Vec<Stmt> = match b {
                    Expr::Block(b) => b.block.stmts,
                    b => vec![Stmt::Expr(b, Some(Default::default()))],
                };
                // a block used for its unit value
                let blk: Stmt = parse_quote!({ #(#stmts)* };);
                let blk = if stmts.iter().any(|s| matches!(s, Stmt::Expr(_, None))) { vec![blk] } else { stmts };
                return Some(self.for_like(k, recv, &ps[0], blk));
            }
            _ => {}
        }
        let nargs = if name == "fold" { 2 } else { 1 };
        if args.len() != nargs {
            return None;
        }
        let clo_arity = if name == "fold" { 2 } else { 1 };
        if !["map", "filter", "filter_map", "flat_map", "fold", "all", "any"].contains(&name.as_str()) {
            self.bad(format!("iterator method {}", name));
            return None;
        }
        let (ps, b) = match self.closure(args.last().unwrap(), clo_arity) {
            Some(x) => x,
            None => {
                self.bad(format!("argument of {}", name));
                return None;
            }
        };
        let init = if name == "fold" {
            let mut a = args[0].clone();
            self.expr(&mut a);
            Some(a)
        } else {
            None
        };
        let k = self.new_loop(&name);
        let mut b = self.tx_closure_body(b);
        // `|x| { e }` is `|x| e`
        while let Expr::Block(bl) = &b {
            if bl.block.stmts.len() == 1 {
                if let Stmt::Expr(e, None) = &bl.block.stmts[0] {
                    b = e.clone();
                    continue;
                }
            }
            break;
        }
        let (s, i, o, x, y) = (format_ident!("__s{}", k), format_ident!("__i{}", k), format_ident!("__out{}", k), format_ident!("__x{}", k), format_ident!("__y{}", k));
        let mk = |n: &str| marker(&format!("{}_{}", n, k));
        let (before, inv, top, bot, after) = (mk("before"), mk("inv"), mk("top"), mk("bot"), mk("after"));
        let mut held: Vec<Stmt> = vec![];
        self.hold(&mut recv, k, &mut held);
        Some(match name.as_str() {
            "map" => {
                let (p, d) = self.pat(&ps[0]);
                parse_quote!({
                    #(#held)*
                    let #s = #recv;
                    let mut #o = Vec::new();
                    let mut #i: usize = 0;
                    #before
                    while #i < #s.len() {
                        #inv
                        let #p = vtake(&#s, #i);
                        #(#d)*
                        #top
                        let #x = #b;
                        #o.push(#x);
                        #i += 1;
                        #bot
                    }
                    #after
                    #o
                })
            }
            "filter" => {
                let (p, d) = self.pat(&ps[0]);
                parse_quote!({
                    #(#held)*
                    let #s = #recv;
                    let mut #o = Vec::new();
                    let mut #i: usize = 0;
                    #before
                    while #i < #s.len() {
                        #inv
                        let #x = vtake(&#s, #i);
                        let #y = { let #p = &#x; #(#d)* #top #b };
                        if #y { #o.push(#x); }
                        #i += 1;
                        #bot
                    }
                    #after
                    #o
                })
            }
            "filter_map" => {
                let (p, d) = self.pat(&ps[0]);
                parse_quote!({
                    #(#held)*
                    let #s = #recv;
                    let mut #o = Vec::new();
                    let mut #i: usize = 0;
                    #before
                    while #i < #s.len() {
                        #inv
                        let #p = vtake(&#s, #i);
                        #(#d)*
                        #top
                        let #x = #b;
                        match #x { Some(#y) => { #o.push(#y); } None => {} }
                        #i += 1;
                        #bot
                    }
                    #after
                    #o
                })
            }
            "flat_map" => {
                let (p, d) = self.pat(&ps[0]);
                let b: Expr = if self.is_iter(&b) { b } else { parse_quote!((#b).vinto_iter()) };
                parse_quote!({
                    #(#held)*
                    let #s = #recv;
                    let mut #o = Vec::new();
                    let mut #i: usize = 0;
                    #before
                    while #i < #s.len() {
                        #inv
                        let #p = vtake(&#s, #i);
                        #(#d)*
                        #top
                        let mut #x = #b;
                        #o.append(&mut #x);
                        #i += 1;
                        #bot
                    }
                    #after
                    #o
                })
            }
            "fold" => {
                let (pa, da) = self.pat(&ps[0]);
                let (p, d) = self.pat(&ps[1]);
                let init = init.unwrap();
                let acc = format_ident!("__acc{}", k);
                parse_quote!({
                    #(#held)*
                    let #s = #recv;
                    let mut #acc = #init;
                    let mut #i: usize = 0;
                    #before
                    while #i < #s.len() {
                        #inv
                        let #pa = #acc;
                        let #p = vtake(&#s, #i);
                        #(#da)*
                        #(#d)*
                        #top
                        let #x = #b;
                        #acc = #x;
                        #i += 1;
                        #bot
                    }
                    #after
                    #acc
                })
            }
            "all" | "any" => {
                let (p, d) = self.pat(&ps[0]);
                let r = format_ident!("__r{}", k);
                let (start, cont): (Expr, Expr) = if name == "all" { (parse_quote!(true), parse_quote!(#r)) } else { (parse_quote!(false), parse_quote!(!#r)) };
                parse_quote!({
                    #(#held)*
                    let #s = #recv;
                    let mut #r = #start;
                    let mut #i: usize = 0;
                    #before
                    while #i < #s.len() && #cont {
                        #inv
                        let #p = vtake(&#s, #i);
                        #(#d)*
                        #top
                        #r = #b;
                        #i += 1;
                        #bot
                    }
                    #after
                    #r
                })
            }
            _ => unreachable!(),
        })
    }

    fn block(&mut self, b: &mut Block) {
        self.block_as(b, None)
    }

    /// An inlined helper's outermost block is not a block of the function.
    fn expr_block(&mut self, b: &mut ExprBlock) {
        let inl: Option<usize> = b.label.as_ref().and_then(|l| l.name.ident.to_string().strip_prefix("inl").and_then(|n| n.parse().ok()));
        if inl.is_some() {
            b.label = None;
        }
        self.block_as(&mut b.block, inl)
    }

    /// `inl`: an inlined helper; its first statements bind its parameters.
    fn block_as(&mut self, b: &mut Block, inl: Option<usize>) {
        let mut out: Vec<Stmt> = vec![];
        if inl.is_none() {
            self.blocks += 1;
            out.push(marker(&format!("b_{}", self.blocks)));
            self.block_sigs.push(b.stmts.iter().map(|s| print::flat(s.to_token_stream())).collect::<Vec<_>>().join(" ").chars().take(300).collect());
        }
        let old = std::mem::take(&mut b.stmts);
        for (idx, mut s) in old.into_iter().enumerate() {
            let param = inl.map_or(false, |n| idx < n);
            match &mut s {
                Stmt::Local(l) => {
                    let mut extra = vec![];
                    if let Some(init) = &mut l.init {
                        if self.is_iter(&init.expr) {
                            if let Expr::MethodCall(m) = &*init.expr {
                                let _ = m;
                            }
                            let id = match &l.pat {
                                Pat::Ident(i) => Some(i.ident.to_string()),
                                Pat::Type(t) => match &*t.pat {
                                    Pat::Ident(i) => Some(i.ident.to_string()),
                                    _ => None,
                                },
                                _ => None,
                            };
                            if let Some(id) = id {
                                self.iter_vars.insert(id);
                            }
                        }
                        self.expr(&mut init.expr);
                        if init.diverge.is_some() {
                            self.bad("let-else");
                        }
                    }
                    let mut p = l.pat.clone();
                    let ty = if let Pat::Type(t) = &mut p {
                        TyTx { cr: self.cr, subst: self.subst.clone() }.visit_type_mut(&mut t.ty);
                        Some(t.ty.clone())
                    } else {
                        None
                    };
                    if ty.is_none() {
                        let (np, d) = self.pat(&p);
                        p = np;
                        extra = d;
                        self.fix_pat(&mut p);
                    }
                    l.pat = p;
                    let names = pat_names(&l.pat);
                    out.push(s);
                    out.extend(extra);
                    for n in names.into_iter().filter(|_| !param) {
                        let c = self.lets.entry(n.clone()).or_insert(0);
                        *c += 1;
                        self.let_order.push(n.clone());
                        out.push(marker(&format!("let_{}_{}", n, c)));
                    }
                }
                Stmt::Expr(e, semi) => {
                    let call = match &*e {
                        Expr::MethodCall(m) if semi.is_some() => Some(m.method.to_string()),
                        _ => None,
                    };
                    self.expr(e);
                    let was = call.clone();
                    out.push(s);
                    if let Some(n) = was {
                        let c = self.callm.entry(n.clone()).or_insert(0);
                        *c += 1;
                        out.push(marker(&format!("call_{}_{}", n, c)));
                    }
                }
                Stmt::Macro(m) => {
                    let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if name == "__vm" {
                        out.push(s);
                        continue;
                    }
                    let mut e = e;
                    let semi = m.semi_token;
                    self.expr(&mut e);
                    out.push(Stmt::Expr(e, semi.or(Some(Default::default()))));
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(_) => {
                    self.bad("nested item");
                }
            }
        }
        b.stmts = out;
    }

    fn fix_pat(&mut self, p: &mut Pat) {
        TyTx { cr: self.cr, subst: self.subst.clone() }.visit_pat_mut(p);
    }

    fn wrap_arm(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.block(&mut b.block),
            other => {
                let inner = other.clone();
                let mut blk: Block = parse_quote!({ #inner });
                self.block(&mut blk);
                *other = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk });
            }
        }
    }

    fn vec_macro(&mut self, toks: TokenStream) -> Option<Expr> {
        use syn::parse::Parser;
        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        let es = p.parse2(toks).ok()?;
        let v = self.fresh("v");
        let mut pushes: Vec<Stmt> = vec![];
        for mut e in es {
            self.expr(&mut e);
            pushes.push(parse_quote!(#v.push(#e);));
        }
        if pushes.is_empty() {
            return Some(parse_quote!(Vec::new()));
        }
        Some(parse_quote!({ let mut #v = Vec::new(); #(#pushes)* #v }))
    }

    fn panic_expr(&mut self) -> Expr {
        self.panics += 1;
        let m = marker(&format!("panic_{}", self.panics));
        let f = format_ident!("__vpanic_{}", self.panics);
        parse_quote!({ #m #f() })
    }

    fn is_result(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(r) => {
                let n = r.method.to_string();
                match n.as_str() {
                    "map" | "and_then" | "or_else" => self.is_result(&r.receiver),
                    "ok_or" | "ok_or_else" | "map_err" => true,
                    _ => self.cr.result_fns.contains(&n),
                }
            }
            Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| self.cr.result_fns.contains(&s.ident.to_string()))),
            Expr::Paren(p) => self.is_result(&p.expr),
            _ => false,
        }
    }

    /// `Option`, `Result` and `bool` combinators that take a closure, as the `match` they stand for.
    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let (arity, nargs) = match name.as_str() {
            "map" | "and_then" | "is_some_and" | "is_none_or" | "is_ok_and" | "filter" | "map_err" | "unwrap_or_else" | "ok_or_else" | "then" | "or_else" => (1, 1),
            "map_or" | "map_or_else" => (1, 2),
            _ => return None,
        };
        let _ = arity;
        if m.args.len() != nargs || !matches!(m.args.last(), Some(Expr::Closure(_))) {
            return None;
        }
        let clo = match m.args.last() {
            Some(Expr::Closure(c)) => c.clone(),
            _ => return None,
        };
        let is_res = name == "map_err" || name == "is_ok_and" || self.is_result(&m.receiver);
        if clo.inputs.len() > 1 || name == "filter" && is_res || name == "then" && clo.inputs.len() != 0 {
            return None;
        }
        let mut recv = (*m.receiver).clone();
        self.expr(&mut recv);
        let (p, d) = match clo.inputs.first() {
            Some(p) => self.pat(p),
            None => (parse_quote!(_), vec![]),
        };
        let mut default: Option<Expr> = None;
        if nargs == 2 {
            let mut a = m.args[0].clone();
            if name == "map_or_else" {
                match &a {
                    Expr::Closure(c) if c.inputs.is_empty() || is_res => {
                        if is_res && !matches!(c.inputs.first(), Some(Pat::Wild(_))) {
                            return None;
                        }
                        a = self.tx_closure_body((*c.body).clone());
                    }
                    _ => return None,
                }
            } else {
                self.expr(&mut a);
            }
            default = Some(a);
        }
        let body = self.tx_closure_body((*clo.body).clone());
        let b: Expr = if d.is_empty() { body } else { parse_quote!({ #(#d)* #body }) };
        let o = self.fresh("o");
        let v = self.fresh("o");
        let err = self.fresh("o");
        Some(match (name.as_str(), is_res) {
            ("map", false) => parse_quote!(match #recv { Some(#p) => Some(#b), None => None }),
            ("map", true) => parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(#err) => Err(#err) }),
            ("and_then", false) => parse_quote!(match #recv { Some(#p) => #b, None => None }),
            ("and_then", true) => parse_quote!(match #recv { Ok(#p) => #b, Err(#err) => Err(#err) }),
            ("or_else", false) => parse_quote!(match #recv { Some(#o) => Some(#o), None => #b }),
            ("or_else", true) => parse_quote!(match #recv { Ok(#o) => Ok(#o), Err(#p) => #b }),
            ("map_err", _) => parse_quote!(match #recv { Ok(#o) => Ok(#o), Err(#p) => Err(#b) }),
            ("is_some_and", _) => parse_quote!(match #recv { Some(#p) => #b, None => false }),
            ("is_none_or", _) => parse_quote!(match #recv { Some(#p) => #b, None => true }),
            ("is_ok_and", _) => parse_quote!(match #recv { Ok(#p) => #b, Err(_) => false }),
            ("filter", _) => parse_quote!(match #recv { Some(#o) => { let __keep: bool = { let #p = &#o; #b }; if __keep { Some(#o) } else { None } }, None => None }),
            ("unwrap_or_else", false) => parse_quote!(match #recv { Some(#o) => #o, None => #b }),
            ("unwrap_or_else", true) => parse_quote!(match #recv { Ok(#o) => #o, Err(#p) => #b }),
            ("ok_or_else", _) => parse_quote!(match #recv { Some(#o) => Ok(#o), None => Err(#b) }),
            ("then", _) => parse_quote!(if #recv { Some(#b) } else { None }),
            ("map_or", false) => parse_quote!({ let #o = #recv; let #v = #default; match #o { Some(#p) => #b, None => #v } }),
            ("map_or", true) => parse_quote!({ let #o = #recv; let #v = #default; match #o { Ok(#p) => #b, Err(_) => #v } }),
            ("map_or_else", false) => parse_quote!(match #recv { Some(#p) => #b, None => #default }),
            ("map_or_else", true) => parse_quote!(match #recv { Ok(#p) => #b, Err(_) => #default }),
            _ => return None,
        })
    }

    pub fn expr(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                self.methods.insert(name.clone());
                if let Some(n) = self.adapter(m) {
                    *e = n;
                    return;
                }
                // extend
                if name == "extend" && m.args.len() == 1 {
                    let mut r = (*m.receiver).clone();
                    self.expr(&mut r);
                    let a = self.source(&m.args[0]);
                    *e = parse_quote!(#r.vextend(#a));
                    return;
                }
                if (name == "sort_unstable_by_key" || name == "sort_by_key") && m.args.len() == 1 {
                    let mut r = (*m.receiver).clone();
                    self.expr(&mut r);
                    let arg = m.args[0].clone();
                    if let Some((ps, b)) = self.closure(&arg, 1) {
                        let k = self.new_loop("keys");
                        let b = self.tx_closure_body(b);
                        let (p, d) = self.pat(&ps[0]);
                        let (i, o, x) = (format_ident!("__i{}", k), format_ident!("__out{}", k), format_ident!("__x{}", k));
                        let mk = |n: &str| marker(&format!("{}_{}", n, k));
                        let (before, inv, top, bot, after) = (mk("before"), mk("inv"), mk("top"), mk("bot"), mk("after"));
                        let f = format_ident!("v{}", name);
                        let perm = format_ident!("__perm{}", k);
                        let sorted = marker(&format!("sorted_{}", k));
                        *e = parse_quote!({
                            let mut #o = Vec::new();
                            let mut #i: usize = 0;
                            #before
                            while #i < #r.len() {
                                #inv
                                let #p = &#r[#i];
                                #(#d)*
                                #top
                                let #x = #b;
                                #o.push(#x);
                                #i += 1;
                                #bot
                            }
                            #after
                            let #perm = #f(&mut #r, #o);
                            #sorted
                        });
                        return;
                    }
                }
                if name == "contains" && m.args.len() == 1 {
                    if let Expr::Array(a) = &*m.receiver {
                        let mut a = a.clone();
                        for x in a.elems.iter_mut() {
                            self.expr(x);
                        }
                        let els: Vec<Expr> = a.elems.iter().cloned().collect();
                        let mut arg = m.args[0].clone();
                        self.expr(&mut arg);
                        let x = self.fresh("c");
                        let mut acc: Expr = parse_quote!(false);
                        for (n, el) in els.iter().enumerate() {
                            acc = if n == 0 { parse_quote!(#el == *#x) } else { parse_quote!(#acc || #el == *#x) };
                        }
                        *e = parse_quote!({ let #x = #arg; #acc });
                        return;
                    }
                }
                if let Some(n) = self.combinator(m) {
                    *e = n;
                    return;
                }
                self.expr(&mut m.receiver);
                for a in m.args.iter_mut() {
                    self.expr(a);
                }
                if let Some(t) = &mut m.turbofish {
                    for g in t.args.iter_mut() {
                        TyTx { cr: self.cr, subst: self.subst.clone() }.visit_generic_argument_mut(g);
                    }
                }
                let n = m.args.len();
                if (name == "first" || name == "last") && n == 0 || name == "get" && n == 1 {
                    m.method = format_ident!("v{}", name);
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &mut *r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        let mut base = (*ix.expr).clone();
                        self.expr(&mut base);
                        let mut lo: Expr = rg.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                        self.expr(&mut lo);
                        let closed = matches!(rg.limits, RangeLimits::Closed(_));
                        let mut hi: Expr = rg.end.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(#base.len()));
                        self.expr(&mut hi);
                        if closed {
                            hi = parse_quote!(#hi + 1);
                        }
                        *e = parse_quote!(#base.vsub(#lo, #hi));
                        return;
                    }
                }
                self.expr(&mut r.expr);
            }
            Expr::Range(r) => {
                let (mut a, mut b) = match (&r.start, &r.end) {
                    (Some(a), Some(b)) => ((**a).clone(), (**b).clone()),
                    _ => {
                        self.bad("open range");
                        return;
                    }
                };
                self.expr(&mut a);
                self.expr(&mut b);
                *e = if matches!(r.limits, RangeLimits::Closed(_)) { parse_quote!(vrange_incl(#a, #b)) } else { parse_quote!(vrange(#a, #b)) };
            }
            Expr::ForLoop(f) => {
                if f.label.is_some() {
                    self.bad("labelled loop");
                }
                let src = self.source(&f.expr);
                let k = self.new_loop("for");
                let mut body = f.body.clone();
                self.block(&mut body);
                let pat = (*f.pat).clone();
                let mut pat = pat;
                self.fix_pat(&mut pat);
                *e = self.for_like(k, src, &pat, body.stmts);
            }
            Expr::While(w) => {
                if w.label.is_some() {
                    self.bad("labelled loop");
                }
                let k = self.new_loop("while");
                let mk = |n: &str| marker(&format!("{}_{}", n, k));
                let (before, inv, top, bot, after) = (mk("before"), mk("inv"), mk("top"), mk("bot"), mk("after"));
                if let Expr::Let(l) = &*w.cond {
                    let mut src = (*l.expr).clone();
                    let mut pat = (*l.pat).clone();
                    self.fix_pat(&mut pat);
                    // while let Some(P) = X.pop()
                    if let (Expr::MethodCall(m), Pat::TupleStruct(ts)) = (&src, &pat) {
                        if (m.method == "pop" || m.method == "pop_front" || m.method == "pop_back") && ts.path.is_ident("Some") && ts.elems.len() == 1 {
                            let mut recv = (*m.receiver).clone();
                            self.expr(&mut recv);
                            let (p, d) = self.pat(&ts.elems[0]);
                            let mut body = w.body.clone();
                            self.block(&mut body);
                            let st = body.stmts;
                            let meth = m.method.clone();
                            *e = parse_quote!({
                                #before
                                while #recv.len() > 0 {
                                    #inv
                                    let #p = #recv.#meth().unwrap();
                                    #(#d)*
                                    #top
                                    #(#st)*
                                    #bot
                                }
                                #after
                            });
                            return;
                        }
                    }
                    self.expr(&mut src);
                    let mut body = w.body.clone();
                    self.block(&mut body);
                    let st = body.stmts;
                    *e = parse_quote!({
                        #before
                        loop {
                            #inv
                            match #src { #pat => { #top #(#st)* #bot } _ => { break; } }
                        }
                        #after
                    });
                    return;
                }
                let mut cond = (*w.cond).clone();
                self.expr(&mut cond);
                let mut body = w.body.clone();
                self.block(&mut body);
                let st = body.stmts;
                *e = parse_quote!({
                    #before
                    while #cond {
                        #inv
                        #top
                        #(#st)*
                        #bot
                    }
                    #after
                });
            }
            Expr::Loop(l) => {
                if l.label.is_some() {
                    self.bad("labelled loop");
                }
                let k = self.new_loop("loop");
                let mk = |n: &str| marker(&format!("{}_{}", n, k));
                let (before, inv, top, bot, after) = (mk("before"), mk("inv"), mk("top"), mk("bot"), mk("after"));
                let mut body = l.body.clone();
                self.block(&mut body);
                let st = body.stmts;
                *e = parse_quote!({ #before loop { #inv #top #(#st)* #bot } #after });
            }
            Expr::If(i) => {
                self.expr(&mut i.cond);
                self.block(&mut i.then_branch);
                if let Some((_, els)) = &mut i.else_branch {
                    match &mut **els {
                        Expr::If(_) => self.expr(els),
                        Expr::Block(b) => self.block(&mut b.block),
                        _ => {}
                    }
                }
            }
            Expr::Let(l) => {
                self.expr(&mut l.expr);
                let mut p = (*l.pat).clone();
                self.fix_pat(&mut p);
                *l.pat = p;
            }
            Expr::Match(m) => {
                self.expr(&mut m.expr);
                for a in &mut m.arms {
                    self.fix_pat(&mut a.pat);
                    if let Some((_, g)) = &mut a.guard {
                        self.expr(g);
                    }
                    self.wrap_arm(&mut a.body);
                    a.attrs.clear();
                }
            }
            Expr::Block(b) => self.expr_block(b),
            Expr::Return(r) => {
                if self.closure_depth > 0 {
                    self.bad("return inside a closure");
                }
                let x = match &mut r.expr {
                    Some(x) => {
                        self.ret_sigs.push(print::flat(x.to_token_stream()));
                        self.expr(x);
                        (**x).clone()
                    }
                    None => {
                        self.rets += 1;
                        self.ret_sigs.push(String::new());
                        let m = marker(&format!("ret_{}", self.rets));
                        *e = parse_quote!({ #m return; });
                        return;
                    }
                };
                self.rets += 1;
                let m = marker(&format!("ret_{}", self.rets));
                *e = match &self.ret {
                    Some(t) => parse_quote!({ let __ret: #t = #x; #m return __ret; }),
                    None => parse_quote!({ #m return #x; }),
                };
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                match name.as_str() {
                    "__vm" => {}
                    "vec" => match self.vec_macro(m.mac.tokens.clone()) {
                        Some(n) => *e = n,
                        None => self.bad("vec! form"),
                    },
                    "panic" | "unreachable" | "unimplemented" | "todo" => *e = self.panic_expr(),
                    "assert" | "debug_assert" => {
                        use syn::parse::Parser;
                        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                        if let Ok(es) = p.parse2(m.mac.tokens.clone()) {
                            let mut c = es[0].clone();
                            self.expr(&mut c);
                            let pe = self.panic_expr();
                            *e = parse_quote!(if !(#c) { #pe });
                        } else {
                            self.bad("assert form");
                        }
                    }
                    "debug_assert_eq" | "assert_eq" => {
                        use syn::parse::Parser;
                        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                        if let Ok(es) = p.parse2(m.mac.tokens.clone()) {
                            let (mut a, mut b) = (es[0].clone(), es[1].clone());
                            self.expr(&mut a);
                            self.expr(&mut b);
                            let pe = self.panic_expr();
                            *e = parse_quote!(if !(#a == #b) { #pe });
                        } else {
                            self.bad("assert_eq form");
                        }
                    }
                    "iproduct" => {
                        use syn::parse::Parser;
                        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                        match p.parse2(m.mac.tokens.clone()) {
                            Ok(es) if es.len() == 2 => {
                                let a = self.source(&es[0]);
                                let b = self.source(&es[1]);
                                *e = parse_quote!(viproduct(#a, #b));
                            }
                            _ => self.bad("iproduct form"),
                        }
                    }
                    "matches" => {
                        let p = |i: syn::parse::ParseStream| -> syn::Result<(Expr, Pat)> {
                            let e: Expr = i.parse()?;
                            let _: Token![,] = i.parse()?;
                            let p = Pat::parse_multi_with_leading_vert(i)?;
                            if !i.is_empty() {
                                return Err(i.error("guard"));
                            }
                            Ok((e, p))
                        };
                        use syn::parse::Parser;
                        match p.parse2(m.mac.tokens.clone()) {
                            Ok((mut x, mut pt)) => {
                                self.expr(&mut x);
                                self.fix_pat(&mut pt);
                                *e = parse_quote!(match #x { #pt => true, _ => false });
                            }
                            Err(_) => self.bad("matches! form"),
                        }
                    }
                    n => {
                        let n = n.to_string();
                        self.bad(format!("macro {}!", n));
                    }
                }
            }
            Expr::Closure(c) => {
                // an ordinary closure argument (Option::map and the like)
                self.closure_depth += 1;
                self.expr(&mut c.body);
                self.closure_depth -= 1;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let n = segs.len();
                    let k = if n >= 2 { format!("{}::{}", segs[n - 2], segs[n - 1]) } else { segs[n - 1].clone() };
                    self.pathcalls.insert(k.clone());
                    if (k == "u32::max_value" || k == "usize::max_value") && c.args.is_empty() {
                        let t = format_ident!("{}", segs[n - 2]);
                        *e = parse_quote!(#t::MAX);
                        return;
                    }
                }
                self.expr(&mut c.func);
                for a in c.args.iter_mut() {
                    // an iterator handed to a function
                    self.expr(a);
                }
            }
            Expr::Path(p) => {
                short_path(&mut p.path);
                for s in p.path.segments.iter_mut() {
                    drop_coord_args(s, self.cr);
                }
                if let Some(i) = p.path.get_ident() {
                    self.idents.insert(i.to_string());
                }
                if p.path.segments.len() >= 2 {
                    for (n, t) in &self.subst {
                        if p.path.segments[0].ident == n {
                            let _ = t;
                            self.unsupported.push("path on iterator parameter".into());
                        }
                    }
                    if p.path.segments[0].ident == "f64" {
                        p.path.segments[0].ident = format_ident!("C");
                    }
                }
            }
            Expr::Struct(s) => {
                short_path(&mut s.path);
                for seg in s.path.segments.iter_mut() {
                    drop_coord_args(seg, self.cr);
                }
                for f in s.fields.iter_mut() {
                    self.expr(&mut f.expr);
                }
                if let Some(r) = &mut s.rest {
                    self.expr(r);
                }
            }
            Expr::Binary(b) => {
                self.expr(&mut b.left);
                self.expr(&mut b.right);
            }
            Expr::Unary(u) => self.expr(&mut u.expr),
            Expr::Paren(p) => self.expr(&mut p.expr),
            Expr::Group(p) => self.expr(&mut p.expr),
            Expr::Tuple(t) => {
                for x in t.elems.iter_mut() {
                    self.expr(x);
                }
            }
            Expr::Array(t) => {
                for x in t.elems.iter_mut() {
                    self.expr(x);
                }
            }
            Expr::Index(ix) => {
                if matches!(&*ix.index, Expr::Range(_)) {
                    // a slice used in place: the same slice by reference
                    let mut slice: Expr = parse_quote!(&#ix);
                    self.expr(&mut slice);
                    *e = slice;
                    return;
                }
                self.expr(&mut ix.expr);
                self.expr(&mut ix.index);
            }
            Expr::Field(f) => self.expr(&mut f.base),
            Expr::Assign(a) => {
                self.expr(&mut a.left);
                self.expr(&mut a.right);
            }
            Expr::Cast(c) => {
                self.expr(&mut c.expr);
                TyTx { cr: self.cr, subst: self.subst.clone() }.visit_type_mut(&mut c.ty);
            }
            Expr::Try(t) => {
                if self.closure_depth > 0 {
                    self.bad("? inside a closure");
                }
                self.expr(&mut t.expr)
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                // a byte string by its bytes
                let bytes = b.value();
                let first = bytes.iter().take(1).map(|x| LitInt::new(&format!("{}u8", x), Span::call_site()));
                let rest = bytes.iter().skip(1).map(|x| LitInt::new(&x.to_string(), Span::call_site()));
                let all: Vec<LitInt> = first.chain(rest).collect();
                *e = parse_quote!(&[#(#all),*]);
            }
            Expr::Lit(_) | Expr::Break(_) | Expr::Continue(_) => {}
            other => {
                let s = print::flat(other.to_token_stream());
                self.bad(format!("expression {}", s));
            }
        }
    }
}

fn pat_names(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.push(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

pub fn fn_json(f: &FnInfo, cr: &Crate, helpers: &BTreeMap<String, Vec<FnInfo>>) -> Value {
    let mut block = f.block.clone();
    StripAttrs.visit_block_mut(&mut block);
    let original = print::flat(block.to_token_stream());
    let binds = {
        struct V(Vec<String>);
        impl<'a> Visit<'a> for V {
            fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                self.0.push(p.ident.to_string());
                syn::visit::visit_pat_ident(self, p);
            }
        }
        let mut v = V(vec![]);
        v.visit_block(&block);
        v.0.retain(|n| n.chars().next().map_or(false, |c| !c.is_uppercase()));
        v.0
    };
    let mut inl = Inliner { helpers, caller_key: f.key.clone(), ns: f.ns.clone(), self_ty: f.self_ty.clone(), depth: 0, used: vec![], failed: vec![] };
    inl.visit_block_mut(&mut block);

    let (g, mut subst) = tx_generics(&f.sig.generics, cr);
    let (ig, isub) = tx_generics(&f.impl_generics, cr);
    subst.extend(isub);
    let mut tt = TyTx { cr, subst: subst.clone() };
    let mut params = vec![];
    let mut iter_vars = BTreeSet::new();
    let mut recv = None;
    for a in &f.sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                recv = Some(match (&r.reference, &r.mutability) {
                    (Some(_), Some(_)) => "&mut self",
                    (Some(_), None) => "&self",
                    (None, Some(_)) => "mut self",
                    (None, None) => "self",
                });
            }
            FnArg::Typed(t) => {
                let is_it = match &*t.ty {
                    Type::ImplTrait(i) => iter_item(&i.bounds).is_some(),
                    Type::Path(p) => p.path.get_ident().map_or(false, |i| subst.iter().any(|(n, _)| i == n)),
                    _ => false,
                };
                let mut ty = (*t.ty).clone();
                tt.visit_type_mut(&mut ty);
                if is_it {
                    iter_vars.extend(pat_names(&t.pat));
                }
                params.push(json!({"pat": print::flat(t.pat.to_token_stream()), "ty": print::flat(ty.to_token_stream())}));
            }
        }
    }
    let ret = match &f.sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => {
            let mut t = (**t).clone();
            tt.visit_type_mut(&mut t);
            Some(t)
        }
    };
    if let Some(t) = &ret {
        CollectTypes { ret: t.clone() }.visit_block_mut(&mut block);
        collect_as_block(&mut block, t);
    }
    let mut b = Body {
        cr,
        subst,
        ret: ret.clone(),
        loops: 0,
        loop_kinds: vec![],
        rets: 0,
        panics: 0,
        blocks: 0,
        block_sigs: vec![],
        ret_sigs: vec![],
        tmp: 0,
        lets: Default::default(),
        let_order: vec![],
        callm: Default::default(),
        iter_vars,
        closure_depth: 0,
        unsupported: vec![],
        pathcalls: Default::default(),
        methods: Default::default(),
        idents: Default::default(),
    };
    b.block(&mut block);
    // name the value of the tail expression
    let n = block.stmts.len();
    if let (Some(t), true) = (&ret, n > 0) {
        if let Stmt::Expr(e, None) = &block.stmts[n - 1] {
            let e = e.clone();
            let diverges = matches!(&e, Expr::Return(_));
            if !diverges {
                block.stmts.pop();
                block.stmts.push(parse_quote!(let __ret: #t = #e;));
                block.stmts.push(marker("end"));
                block.stmts.push(parse_quote!(return __ret;));
                // keep it an expression
                block.stmts.pop();
                block.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
            }
        }
    } else if ret.is_none() {
        block.stmts.push(marker("end"));
    }
    let inner: TokenStream = block.stmts.iter().map(|s| s.to_token_stream()).collect();
    let trait_ = f.trait_.as_ref().map(|p| {
        let mut p = p.clone();
        TyTx { cr, subst: vec![] }.visit_path_mut(&mut p);
        if let Some(s) = p.segments.last_mut() {
            // Mul<C> keeps its argument
            let _ = s;
        }
        print::flat(p.to_token_stream())
    });
    let assoc: Vec<Value> = f
        .assoc
        .iter()
        .map(|(n, t)| {
            let mut t = t.clone();
            TyTx { cr, subst: vec![] }.visit_type_mut(&mut t);
            json!({"name": n, "ty": print::flat(t.to_token_stream())})
        })
        .collect();
    let self_full = f.self_ty_full.as_ref().map(|t| {
        let mut t = t.clone();
        TyTx { cr, subst: vec![] }.visit_type_mut(&mut t);
        print::flat(t.to_token_stream())
    });
    let _ = quote! {};
    json!({
        "key": f.key, "ns": f.ns, "file": f.file, "line": f.line, "name": f.sig.ident.to_string(),
        "self_ty": f.self_ty, "self_full": self_full, "trait": trait_, "in_trait": f.in_trait,
        "assoc": assoc,
        "impl_generics": print::flat(ig.params.to_token_stream()),
        "impl_where": ig.where_clause.as_ref().map(|w| print::flat(w.to_token_stream())),
        "generics": print::flat(g.params.to_token_stream()),
        "where": g.where_clause.as_ref().map(|w| print::flat(w.to_token_stream())),
        "receiver": recv, "params": params, "ret": ret.map(|t| print::flat(t.to_token_stream())),
        "body": print::pretty(inner),
        "loops": b.loop_kinds, "returns": b.rets, "panics": b.panics, "blocks": b.blocks, "block_sigs": b.block_sigs, "ret_sigs": b.ret_sigs, "binds": binds,
        "lets": b.let_order, "unsupported": b.unsupported,
        "pathcalls": b.pathcalls, "methods": b.methods, "idents": b.idents,
        "inlined": inl.used, "not_inlined": inl.failed,
        "original": original,
    })
}

/// The type of a `collect` whose target is written as a Result elsewhere (return type, annotated let) is written at the call.
fn is_result(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Result"))
}
fn collect_as_block(b: &mut Block, t: &Type) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        collect_as(e, t);
    }
}
fn collect_as(e: &mut Expr, t: &Type) {
    if !is_result(t) {
        return;
    }
    match e {
        Expr::MethodCall(m) if m.method == "collect" && m.turbofish.is_none() => m.turbofish = Some(parse_quote!(::<Result>)),
        Expr::Paren(p) => collect_as(&mut p.expr, t),
        Expr::Block(b) => collect_as_block(&mut b.block, t),
        Expr::If(i) => {
            collect_as_block(&mut i.then_branch, t);
            if let Some((_, e)) = &mut i.else_branch {
                collect_as(e, t);
            }
        }
        Expr::Match(m) => {
            for a in &mut m.arms {
                collect_as(&mut a.body, t);
            }
        }
        _ => {}
    }
}
struct CollectTypes {
    ret: Type,
}
impl VisitMut for CollectTypes {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Pat::Type(p), Some(i)) = (&l.pat, &mut l.init) {
            collect_as(&mut i.expr, &p.ty);
        }
        syn::visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        if let Some(e) = &mut r.expr {
            collect_as(e, &self.ret);
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}
