//! Calls to functions that have no contract (typically a helper extracted from a
//! function that has one) are replaced by the helper's body.
use crate::FnInfo;
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

struct HasExit {
    ret: bool,
    q: bool,
}
impl<'a> Visit<'a> for HasExit {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, e: &'a ExprTry) {
        self.q = true;
        syn::visit::visit_expr_try(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn exits_stmt(s: &Stmt) -> bool {
    let mut h = HasExit { ret: false, q: false };
    h.visit_stmt(s);
    h.ret
}
fn has_q(b: &Block) -> bool {
    let mut h = HasExit { ret: false, q: false };
    h.visit_block(b);
    h.q
}

fn block_of(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}

/// Rewrite a body so that it has no `return`, or give up.
pub fn elim(stmts: Vec<Stmt>) -> Option<Vec<Stmt>> {
    for i in 0..stmts.len() {
        if !exits_stmt(&stmts[i]) {
            continue;
        }
        let head: Vec<Stmt> = stmts[..i].to_vec();
        let rest: Vec<Stmt> = stmts[i + 1..].to_vec();
        let e = match &stmts[i] {
            Stmt::Expr(e, _) => e.clone(),
            _ => return None,
        };
        let tail = match e {
            Expr::Return(r) => match r.expr {
                Some(e) => *e,
                None => parse_quote!(()),
            },
            Expr::If(mut f) => {
                let mut then = f.then_branch.stmts.clone();
                then.extend(rest.clone());
                f.then_branch = block_of(elim(then)?);
                let els: Vec<Stmt> = match &f.else_branch {
                    None => vec![],
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => b.block.stmts.clone(),
                        other => vec![Stmt::Expr(other.clone(), None)],
                    },
                };
                let mut els = els;
                els.extend(rest.clone());
                let eb = block_of(elim(els)?);
                f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: eb }))));
                Expr::If(f)
            }
            Expr::Match(mut m) => {
                for a in &mut m.arms {
                    let mut st = match &*a.body {
                        Expr::Block(b) => b.block.stmts.clone(),
                        other => vec![Stmt::Expr(other.clone(), if rest.is_empty() { None } else { Some(Default::default()) })],
                    };
                    st.extend(rest.clone());
                    a.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: block_of(elim(st)?) }));
                }
                Expr::Match(m)
            }
            Expr::Block(b) => {
                let mut st = b.block.stmts.clone();
                st.extend(rest.clone());
                Expr::Block(ExprBlock { attrs: vec![], label: None, block: block_of(elim(st)?) })
            }
            _ => return None,
        };
        let mut out = head;
        out.push(Stmt::Expr(tail, None));
        return Some(out);
    }
    Some(stmts)
}

struct RenameSelf {
    to: Option<Ident>,
    ty: Option<Ident>,
}
impl VisitMut for RenameSelf {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.is_ident("self") {
            if let Some(t) = &self.to {
                *p = t.clone().into();
            }
        } else if p.segments[0].ident == "Self" {
            if let Some(t) = &self.ty {
                p.segments[0].ident = t.clone();
            }
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
}

pub struct Inliner<'a> {
    pub helpers: &'a BTreeMap<String, Vec<FnInfo>>,
    pub caller_key: String,
    pub ns: String,
    pub self_ty: Option<String>,
    pub depth: usize,
    pub used: Vec<String>,
    pub failed: Vec<String>,
}

impl<'a> Inliner<'a> {
    fn pick(&self, name: &str, path_ty: Option<&str>, method: bool) -> Option<FnInfo> {
        let c: Vec<&FnInfo> = self
            .helpers
            .get(name)?
            .iter()
            .filter(|f| f.ns == self.ns && f.key != self.caller_key)
            .filter(|f| f.sig.receiver().is_some() == method)
            .filter(|f| match (path_ty, &f.self_ty) {
                (Some(t), Some(s)) => t == s,
                (None, None) => true,
                (None, Some(_)) => method,
                (Some(_), None) => false,
            })
            .collect();
        if c.len() == 1 {
            Some(c[0].clone())
        } else {
            None
        }
    }

    fn expand(&mut self, f: FnInfo, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 4 || has_q(&f.block) {
            self.failed.push(f.key.clone());
            return None;
        }
        let mut stmts = match elim(f.block.stmts.clone()) {
            Some(s) => s,
            None => {
                self.failed.push(f.key.clone());
                return None;
            }
        };
        self.used.push(f.key.clone());
        let mut pre: Vec<Stmt> = vec![];
        let mut rename = RenameSelf { to: None, ty: f.self_ty.as_ref().map(|s| Ident::new(s, proc_macro2::Span::call_site())) };
        if let Some(r) = recv {
            let is_self = matches!(&r, Expr::Path(p) if p.path.is_ident("self"));
            if !is_self {
                let rc = f.sig.receiver().unwrap();
                let id: Ident = Ident::new(&format!("__self_{}", f.sig.ident), proc_macro2::Span::call_site());
                pre.push(if rc.reference.is_none() {
                    parse_quote!(let #id = #r;)
                } else if rc.mutability.is_some() {
                    parse_quote!(let #id = &mut #r;)
                } else {
                    parse_quote!(let #id = &#r;)
                });
                rename.to = Some(id);
            }
        }
        let mut pats: Vec<Pat> = vec![];
        let mut tys: Vec<Type> = vec![];
        let mut vals: Vec<Expr> = vec![];
        let mut typed = true;
        let generic = f.sig.generics.params.iter().any(|p| matches!(p, GenericParam::Type(t) if t.ident != "C"));
        for (a, inp) in args.into_iter().zip(f.sig.inputs.iter().filter_map(|i| if let FnArg::Typed(t) = i { Some(t) } else { None })) {
            pats.push((*inp.pat).clone());
            let mut ty = (*inp.ty).clone();
            rename.visit_type_mut(&mut ty);
            struct Imp(bool);
            impl<'b> Visit<'b> for Imp {
                fn visit_type_impl_trait(&mut self, _: &'b TypeImplTrait) {
                    self.0 = true;
                }
                fn visit_lifetime(&mut self, _: &'b Lifetime) {
                    self.0 = true;
                }
            }
            let mut im = Imp(false);
            im.visit_type(&ty);
            if im.0 || generic {
                typed = false;
            }
            let a = match (&ty, &a) {
                (Type::Reference(r), Expr::Path(_)) if r.mutability.is_some() => parse_quote!(&mut *#a),
                _ => a,
            };
            tys.push(ty);
            vals.push(a);
        }
        if pats.len() == 1 {
            let (p, t, v) = (&pats[0], &tys[0], &vals[0]);
            pre.push(if typed { parse_quote!(let #p: #t = #v;) } else { parse_quote!(let #p = #v;) });
        } else if pats.len() > 1 {
            pre.push(if typed {
                parse_quote!(let (#(#pats),*): (#(#tys),*) = (#(#vals),*);)
            } else {
                parse_quote!(let (#(#pats),*) = (#(#vals),*);)
            });
        }
        for s in &mut stmts {
            rename.visit_stmt_mut(s);
        }
        self.depth += 1;
        for s in &mut stmts {
            self.visit_stmt_mut(s);
        }
        self.depth -= 1;
        let inl = syn::Lifetime::new(&format!("'inl{}", pre.len()), proc_macro2::Span::call_site());
        pre.extend(stmts);
        // the label says that this block is not one of the caller's own
        Some(Expr::Block(ExprBlock { attrs: vec![], label: Some(Label { name: inl, colon_token: Default::default() }), block: block_of(pre) }))
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let n = p.path.segments.len();
                    let name = p.path.segments[n - 1].ident.to_string();
                    let ty = if n >= 2 {
                        let t = p.path.segments[n - 2].ident.to_string();
                        if t == "Self" {
                            self.self_ty.clone()
                        } else if t.chars().next().unwrap().is_uppercase() {
                            Some(t)
                        } else {
                            None
                        }
                    } else {
                        None
                    };
                    match self.pick(&name, ty.as_deref(), false) {
                        Some(f) => {
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            self.expand(f, None, args)
                        }
                        None => None,
                    }
                }
                _ => None,
            },
            Expr::MethodCall(m) => match self.pick(&m.method.to_string(), None, true) {
                Some(f) => {
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    let r = (*m.receiver).clone();
                    self.expand(f, Some(r), args)
                }
                None => None,
            },
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}
