//! vextract SRC_DIR [KNOWN_KEYS_FILE]
//!
//! Reads the crate's sources (following `mod` declarations from lib.rs, without
//! `#[cfg(test)]` items) and prints, as JSON, every type and function in the
//! dialect the verifier accepts.  The transformation is syntactic; it is
//! documented in DESIGN.md ("What the extraction changes").
mod inline;
mod print;
mod tx;

use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use syn::*;

#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub ns: String,
    pub file: String,
    pub line: usize,
    pub self_ty: Option<String>,
    pub self_ty_full: Option<Type>,
    pub trait_: Option<Path_>,
    pub impl_generics: Generics,
    pub assoc: Vec<(String, Type)>,
    pub sig: Signature,
    pub block: Block,
    pub in_trait: bool,
}
pub type Path_ = syn::Path;

pub struct TypeInfo {
    pub key: String,
    pub ns: String,
    pub item: Item,
    pub file: String,
}

#[derive(Default)]
pub struct Crate {
    pub fns: Vec<FnInfo>,
    pub types: Vec<TypeInfo>,
    pub generic_types: BTreeSet<String>,
    pub iter_fns: BTreeSet<String>,
    pub result_fns: BTreeSet<String>,
    pub macros: HashMap<String, ItemMacro>,
    pub notes: Vec<String>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg") && {
                let s = a.meta.to_token_stream().to_string().replace(' ', "");
                s.contains("cfg(test)") || s.contains("(test,") || s.contains("magog_verif")
            })
    })
}

fn load(dir: &Path, file: &Path, modpath: &str, cr: &mut Crate) {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            cr.notes.push(format!("cannot read {}: {}", file.display(), e));
            return;
        }
    };
    let ast = match syn::parse_file(&text) {
        Ok(a) => a,
        Err(e) => {
            cr.notes.push(format!("cannot parse {}: {}", file.display(), e));
            return;
        }
    };
    items(dir, file, modpath, &ast.items, cr);
}

fn items(dir: &Path, file: &Path, modpath: &str, its: &[Item], cr: &mut Crate) {
    let ns = if modpath.starts_with("linear") { "linear" } else { "planar" }.to_string();
    let fname = file.display().to_string();
    for it in its {
        match it {
            Item::Mod(m) => {
                if is_test(&m.attrs) {
                    continue;
                }
                let name = m.ident.to_string();
                let mp = if modpath.is_empty() { name.clone() } else { format!("{}::{}", modpath, name) };
                if let Some((_, its)) = &m.content {
                    items(&dir.join(&name), file, &mp, its, cr);
                } else {
                    let f1 = dir.join(format!("{}.rs", name));
                    let f2 = dir.join(&name).join("mod.rs");
                    let f = if f1.exists() { f1 } else { f2 };
                    load(&dir.join(&name), &f, &mp, cr);
                }
            }
            Item::Struct(s) if !is_test(&s.attrs) => {
                if !s.generics.params.is_empty() {
                    cr.generic_types.insert(s.ident.to_string());
                }
                cr.types.push(TypeInfo { key: format!("{} {}", ns, s.ident), ns: ns.clone(), item: it.clone(), file: fname.clone() });
            }
            Item::Enum(s) if !is_test(&s.attrs) => {
                if !s.generics.params.is_empty() {
                    cr.generic_types.insert(s.ident.to_string());
                }
                cr.types.push(TypeInfo { key: format!("{} {}", ns, s.ident), ns: ns.clone(), item: it.clone(), file: fname.clone() });
            }
            Item::Type(s) if !is_test(&s.attrs) => {
                if !s.generics.params.is_empty() {
                    cr.generic_types.insert(s.ident.to_string());
                }
                cr.types.push(TypeInfo { key: format!("{} {}", ns, s.ident), ns: ns.clone(), item: it.clone(), file: fname.clone() });
            }
            Item::Const(s) if !is_test(&s.attrs) => {
                cr.types.push(TypeInfo { key: format!("{} {}", ns, s.ident), ns: ns.clone(), item: it.clone(), file: fname.clone() });
            }
            Item::Trait(t) if !is_test(&t.attrs) => {
                if t.generics.params.iter().any(|p| matches!(p, GenericParam::Type(_))) {
                    cr.generic_types.insert(t.ident.to_string());
                }
                cr.types.push(TypeInfo { key: format!("{} {}", ns, t.ident), ns: ns.clone(), item: it.clone(), file: fname.clone() });
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if let Some(b) = &f.default {
                            cr.fns.push(FnInfo {
                                key: format!("{} {}::{}", ns, t.ident, f.sig.ident),
                                ns: ns.clone(),
                                file: fname.clone(),
                                line: f.sig.ident.span().start().line,
                                self_ty: Some(t.ident.to_string()),
                                self_ty_full: None,
                                trait_: None,
                                impl_generics: Generics::default(),
                                assoc: vec![],
                                sig: f.sig.clone(),
                                block: b.clone(),
                                in_trait: true,
                            });
                        }
                    }
                }
            }
            Item::Fn(f) if !is_test(&f.attrs) => {
                cr.fns.push(FnInfo {
                    key: format!("{} fn {}", ns, f.sig.ident),
                    ns: ns.clone(),
                    file: fname.clone(),
                    line: f.sig.ident.span().start().line,
                    self_ty: None,
                    self_ty_full: None,
                    trait_: None,
                    impl_generics: Generics::default(),
                    assoc: vec![],
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    in_trait: false,
                });
            }
            Item::Impl(im) if !is_test(&im.attrs) => impl_item(&ns, &fname, im, cr),
            Item::Macro(m) => {
                if let Some(id) = &m.ident {
                    cr.macros.insert(id.to_string(), m.clone());
                }
            }
            _ => {}
        }
    }
}

fn ty_last(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => t.to_token_stream().to_string().replace(' ', ""),
    }
}

fn impl_item(ns: &str, fname: &str, im: &ItemImpl, cr: &mut Crate) {
    let self_ty = ty_last(&im.self_ty);
    let mut assoc = vec![];
    for ii in &im.items {
        if let ImplItem::Type(t) = ii {
            assoc.push((t.ident.to_string(), t.ty.clone()));
        }
    }
    let mut its: Vec<ImplItemFn> = vec![];
    for ii in &im.items {
        match ii {
            ImplItem::Fn(f) if !is_test(&f.attrs) => its.push(f.clone()),
            ImplItem::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                match cr.macros.get(&name).cloned().and_then(|d| expand(&d, m.mac.tokens.clone())) {
                    Some(fs) => its.extend(fs),
                    None => cr.notes.push(format!("macro {} in {} not expanded", name, fname)),
                }
            }
            _ => {}
        }
    }
    for f in its {
        let tr = im.trait_.as_ref().map(|t| t.1.clone());
        let key = match &tr {
            None => format!("{} {}::{}", ns, self_ty, f.sig.ident),
            Some(t) => {
                let tl = t.segments.last().unwrap();
                let tn = tl.ident.to_string();
                // Several From impls exist for one type: the source type tells them apart.
                let args = match &tl.arguments {
                    PathArguments::AngleBracketed(a) if tn == "From" => a.args.to_token_stream().to_string().replace(' ', ""),
                    _ => String::new(),
                };
                if args.is_empty() {
                    format!("{} {} as {}::{}", ns, self_ty, tn, f.sig.ident)
                } else {
                    format!("{} {} as {}<{}>::{}", ns, self_ty, tn, args, f.sig.ident)
                }
            }
        };
        if let ReturnType::Type(_, t) = &f.sig.output {
            let s = t.to_token_stream().to_string();
            if s.starts_with("impl Iterator") || s.starts_with("impl DoubleEndedIterator") {
                cr.iter_fns.insert(f.sig.ident.to_string());
            }
        }
        cr.fns.push(FnInfo {
            key,
            ns: ns.to_string(),
            file: fname.to_string(),
            line: f.sig.ident.span().start().line,
            self_ty: Some(self_ty.clone()),
            self_ty_full: Some((*im.self_ty).clone()),
            trait_: tr,
            impl_generics: im.generics.clone(),
            assoc: assoc.clone(),
            sig: f.sig.clone(),
            block: f.block.clone(),
            in_trait: false,
        });
    }
}

/// A small macro_rules expander: one rule, plain `$x:frag` parameters separated by commas.
fn expand(def: &ItemMacro, args: TokenStream) -> Option<Vec<ImplItemFn>> {
    use proc_macro2::{Delimiter, TokenTree};
    let toks: Vec<TokenTree> = def.mac.tokens.clone().into_iter().collect();
    let (mut pat, mut body) = (None, None);
    for t in &toks {
        if let TokenTree::Group(g) = t {
            if pat.is_none() {
                pat = Some(g.stream());
            } else if body.is_none() {
                body = Some(g.stream());
            } else {
                return None;
            }
        }
    }
    let pat: Vec<TokenTree> = pat?.into_iter().collect();
    let mut names = vec![];
    let mut i = 0;
    while i < pat.len() {
        if let TokenTree::Punct(p) = &pat[i] {
            if p.as_char() == '$' {
                if let TokenTree::Ident(n) = &pat[i + 1] {
                    names.push(n.to_string());
                    i += 4;
                    continue;
                }
                return None;
            }
        }
        i += 1;
    }
    let mut vals: Vec<TokenStream> = vec![TokenStream::new()];
    let mut angle = 0;
    for t in args {
        if let TokenTree::Punct(p) = &t {
            match p.as_char() {
                '<' => angle += 1,
                '>' => angle -= 1,
                ',' if angle == 0 => {
                    vals.push(TokenStream::new());
                    continue;
                }
                _ => {}
            }
        }
        vals.last_mut().unwrap().extend(std::iter::once(t));
    }
    while vals.len() > names.len() && vals.last().unwrap().is_empty() {
        vals.pop();
    }
    if vals.len() != names.len() {
        return None;
    }
    let map: HashMap<String, TokenStream> = names.into_iter().zip(vals).collect();
    fn subst(ts: TokenStream, map: &HashMap<String, TokenStream>) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => {
                    if let TokenTree::Ident(n) = &v[i + 1] {
                        if let Some(t) = map.get(&n.to_string()) {
                            out.extend(t.clone());
                            i += 2;
                            continue;
                        }
                    }
                    out.extend(std::iter::once(v[i].clone()));
                }
                TokenTree::Group(g) => {
                    let mut ng = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), map));
                    ng.set_span(g.span());
                    out.extend(std::iter::once(TokenTree::Group(ng)));
                }
                t => out.extend(std::iter::once(t.clone())),
            }
            i += 1;
        }
        out
    }
    let _ = Delimiter::Brace;
    let expanded = subst(body?, &map);
    let im: ItemImpl = syn::parse2(quote! { impl X { #expanded } }).ok()?;
    let mut out = vec![];
    for ii in im.items {
        match ii {
            ImplItem::Fn(f) => out.push(f),
            _ => return None,
        }
    }
    Some(out)
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn type_json(t: &TypeInfo, cr: &Crate) -> Value {
    let name = t.key.split(' ').nth(1).unwrap().to_string();
    match &t.item {
        Item::Struct(s) => {
            let mut fields = vec![];
            let tuple = matches!(s.fields, Fields::Unnamed(_));
            for (i, f) in s.fields.iter().enumerate() {
                let mut ty = f.ty.clone();
                tx::tx_type(&mut ty, cr);
                let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
                fields.push(json!({"name": n, "ty": print::flat(ty.to_token_stream())}));
            }
            json!({"key": t.key, "ns": t.ns, "name": name, "kind": "struct", "tuple": tuple, "fields": fields, "derives": derives(&s.attrs), "file": t.file})
        }
        Item::Enum(e) => {
            let mut vars = vec![];
            for v in &e.variants {
                let mut fields = vec![];
                for (i, f) in v.fields.iter().enumerate() {
                    let mut ty = f.ty.clone();
                    tx::tx_type(&mut ty, cr);
                    let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
                    fields.push(json!({"name": n, "ty": print::flat(ty.to_token_stream())}));
                }
                let k = match v.fields {
                    Fields::Named(_) => "named",
                    Fields::Unnamed(_) => "tuple",
                    Fields::Unit => "unit",
                };
                vars.push(json!({"name": v.ident.to_string(), "kind": k, "fields": fields}));
            }
            json!({"key": t.key, "ns": t.ns, "name": name, "kind": "enum", "variants": vars, "derives": derives(&e.attrs), "file": t.file})
        }
        Item::Type(a) => {
            let mut ty = (*a.ty).clone();
            tx::tx_type(&mut ty, cr);
            json!({"key": t.key, "ns": t.ns, "name": name, "kind": "type", "ty": print::flat(ty.to_token_stream()), "file": t.file})
        }
        Item::Const(c) => json!({"key": t.key, "ns": t.ns, "name": name, "kind": "const",
            "text": format!("pub const {}: {} = {};", c.ident, print::flat(c.ty.to_token_stream()), print::flat(c.expr.to_token_stream())), "file": t.file}),
        Item::Trait(tr) => json!({"key": t.key, "ns": t.ns, "name": name, "kind": "trait", "file": t.file,
            "methods": tr.items.iter().filter_map(|i| if let TraitItem::Fn(f) = i { Some(f.sig.ident.to_string()) } else { None }).collect::<Vec<_>>()}),
        _ => Value::Null,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = PathBuf::from(&args[1]);
    let known: Option<BTreeSet<String>> = args.get(2).map(|f| {
        std::fs::read_to_string(f).expect("known keys").lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
    });
    let mut cr = Crate::default();
    load(&src, &src.join("lib.rs"), "", &mut cr);
    for f in &cr.fns {
        if let ReturnType::Type(_, t) = &f.sig.output {
            let s = t.to_token_stream().to_string();
            if s.starts_with("impl") && s.contains("Iterator") {
                cr.iter_fns.insert(f.sig.ident.to_string());
            }
        }
    }
    for f in &cr.fns {
        if let ReturnType::Type(_, t) = &f.sig.output {
            let s = t.to_token_stream().to_string().replace(' ', "");
            if s.starts_with("Result<") || s.contains("::Result<") {
                cr.result_fns.insert(f.sig.ident.to_string());
            }
        }
    }
    // Names by which an unknown helper may be called.
    let helpers: BTreeMap<String, Vec<FnInfo>> = {
        let mut m: BTreeMap<String, Vec<FnInfo>> = BTreeMap::new();
        if let Some(k) = &known {
            for f in &cr.fns {
                if !k.contains(&f.key) && f.trait_.is_none() {
                    m.entry(f.sig.ident.to_string()).or_default().push(f.clone());
                }
            }
        }
        m
    };
    let mut fns = vec![];
    for f in &cr.fns {
        fns.push(tx::fn_json(f, &cr, &helpers));
    }
    let types: Vec<Value> = cr.types.iter().map(|t| type_json(t, &cr)).collect();
    println!("{}", serde_json::to_string_pretty(&json!({"types": types, "fns": fns, "notes": cr.notes})).unwrap());
}
