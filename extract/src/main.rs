//! Mechanical extraction of the macro-expanded crates in /repo into one Verus source file.
//!
//! extract --crate NAME=EXPANDED.rs ... --spec FILE ... --out OUT.rs --meta META.json
//!         [--external KEY ...] [--drop KEY ...]
//!
//! Every executable statement in OUT.rs comes from the expanded source. What is dropped, renamed
//! or rewritten is listed in META.json ("dropped", "rewrites") and described in DESIGN.md.
mod inline;
mod print;
mod rewrite;
mod spec;

use proc_macro2::TokenStream;
use quote::ToTokens;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

pub struct Ctx {
    pub spec: spec::Spec,
    pub krate: String,
    pub out: print::Out,
    pub dropped: Vec<String>,
    pub rewrites: BTreeMap<String, usize>,
    pub fns: Vec<serde_json::Value>,
    pub lost: Vec<String>,
    pub notes: Vec<String>,
    pub external: BTreeSet<String>,
    pub drop: BTreeSet<String>,
    pub helpers: inline::Helpers,
    pub used_specs: BTreeSet<String>,
    pub inlined: Vec<String>,
    pub external_stub: bool,
    pub params: BTreeMap<String, Vec<String>>,
    /// conversion specs, printed before all modules (Verus emits definitions in order)
    pub early: Vec<(String, String)>,
    pub items: Vec<serde_json::Value>,
}

pub fn ty_str(t: &Type) -> String {
    norm(&t.to_token_stream().to_string())
}
pub fn norm(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        if !c.is_whitespace() {
            r.push(c)
        } else if r.chars().last().map_or(false, |l| l.is_alphanumeric() || l == '_') {
            r.push(' ')
        }
    }
    // remove the space unless it separates two identifier characters
    let b: Vec<char> = r.chars().collect();
    let mut o = String::new();
    for (i, c) in b.iter().enumerate() {
        if *c == ' ' {
            let n = b.get(i + 1).copied().unwrap_or(' ');
            if n.is_alphanumeric() || n == '_' {
                o.push(' ')
            }
        } else {
            o.push(*c)
        }
    }
    o.trim().to_string()
}

fn has_attr(attrs: &[Attribute], name: &str) -> bool {
    attrs.iter().any(|a| a.path().segments.last().map_or(false, |s| s.ident == name))
}

/// `Trait` part of an impl with the std path prefix removed: `::core::clone::Clone` -> `Clone`.
pub fn trait_name(p: &Path) -> String {
    let last = p.segments.last().unwrap();
    norm(&last.to_token_stream().to_string())
}

pub fn impl_key(module: &str, im: &ItemImpl) -> String {
    let t = ty_str(&im.self_ty);
    let t = strip_lifetimes(&t);
    match &im.trait_ {
        Some((_, p, _)) => format!("{}::<{} as {}>", module, t, strip_lifetimes(&trait_name(p))),
        None => format!("{}::{}", module, t),
    }
}
pub fn strip_lifetimes(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while let Some(n) = it.peek() {
                if n.is_alphanumeric() || *n == '_' {
                    it.next();
                } else {
                    break;
                }
            }
            if let Some(',') = it.peek() {
                it.next();
            }
            if let Some(' ') = it.peek() {
                it.next();
            }
        } else {
            o.push(c)
        }
    }
    o.replace("<>", "")
}

const FMT_TRAITS: &[&str] = &[
    "Debug", "Display", "Binary", "Octal", "LowerHex", "UpperHex", "Hash", "StructuralPartialEq",
    "Ord", "PartialOrd", "TrivialClone",
];

impl Ctx {
    pub fn count(&mut self, k: &str) {
        *self.rewrites.entry(k.to_string()).or_insert(0) += 1;
    }

    fn module(&mut self, path: &str, items: &[Item]) {
        // Derived traits of the types of this module.
        let mut derives: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for it in items {
            if let Item::Impl(im) = it {
                if has_attr(&im.attrs, "automatically_derived") {
                    if let Some((_, p, _)) = &im.trait_ {
                        let t = trait_name(p);
                        if ["Clone", "Copy", "PartialEq", "Eq", "Default"].contains(&t.as_str()) {
                            derives.entry(ty_str(&im.self_ty)).or_default().push(t);
                        }
                    }
                }
            }
        }
        self.out.line("use vstd::prelude::*;");
        self.out.line("use crate::vshim::*;");
        self.out.line("broadcast use {crate::vshim::group_vshim, crate::vshim::group_bits};");
        if let Some(raw) = self.spec.raw.get(&format!("mod {}", path)).cloned() {
            self.used_specs.insert(format!("mod {}", path));
            self.out.raw(&raw);
        }
        for it in items {
            self.item(path, it, &derives);
        }
    }

    /// Prints one item and records its line range, so that a verifier error in it can be traced.
    fn item(&mut self, path: &str, it: &Item, derives: &BTreeMap<String, Vec<String>>) {
        let key = match it {
            Item::Mod(_) => String::new(),
            Item::Use(u) => format!("use {} {}", path, norm(&u.tree.to_token_stream().to_string())),
            Item::Const(c) => format!("{}::{}", path, c.ident),
            Item::Type(t) => format!("{}::{}", path, t.ident),
            Item::Struct(s) => format!("{}::{}", path, s.ident),
            Item::Enum(e) => format!("{}::{}", path, e.ident),
            Item::Trait(t) => format!("{}::{}", path, t.ident),
            Item::Impl(im) => impl_key(path, im),
            Item::Fn(f) => format!("{}::{}", path, f.sig.ident),
            _ => String::new(),
        };
        if !key.is_empty() && self.drop.contains(&key) {
            self.dropped.push(format!("item {} (not in the verifier's subset)", key));
            return;
        }
        let start = self.out.lineno();
        self.item_(path, it, derives);
        let end = self.out.lineno() - 1;
        if !key.is_empty() && end >= start {
            self.items.push(json!({"key": key, "start": start, "end": end}));
        }
    }

    fn item_(&mut self, path: &str, it: &Item, derives: &BTreeMap<String, Vec<String>>) {
        match it {
            Item::Mod(m) => {
                let name = m.ident.to_string();
                let p = format!("{}::{}", path, name);
                if self.spec.skip.contains(&p) {
                    self.dropped.push(format!("mod {}", p));
                } else if let Some((_, items)) = &m.content {
                    self.out.line("#[verifier::loop_isolation(false)]");
                    self.out.line(&format!("pub mod {} {{", name));
                    self.out.indent += 1;
                    self.module(&p, items);
                    self.out.indent -= 1;
                    self.out.line("}");
                }
            }
            Item::Use(u) => {
                let mut u = u.clone();
                if let UseTree::Path(p) = &u.tree {
                    if self.spec.skip.contains(&format!("{}::{}", path, p.ident)) {
                        self.dropped.push(format!("use of a skipped module in {}: {}", path, norm(&u.tree.to_token_stream().to_string())));
                        return;
                    }
                }
                u.attrs.clear();
                u.vis = parse_quote!(pub);
                if let Some(t) = rewrite::use_tree(self, u.tree.clone(), true) {
                    u.tree = t;
                    u.leading_colon = None;
                    self.out.line("#[allow(unused_imports)]");
                    self.out.tokens(u.to_token_stream());
                } else {
                    self.dropped.push(format!("use in {}: {}", path, norm(&u.tree.to_token_stream().to_string())));
                }
            }
            Item::ExternCrate(e) => self.dropped.push(format!("extern crate {}", e.ident)),
            Item::Macro(m) => self.dropped.push(format!(
                "macro definition {} in {} (already expanded)",
                m.ident.as_ref().map_or("?".into(), |i| i.to_string()),
                path
            )),
            Item::Const(c) => {
                let key = format!("{}::{}", path, c.ident);
                if c.ident == "_" || self.drop.contains(&key) {
                    self.dropped.push(format!("const {}", key));
                    return;
                }
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                rewrite::ty(self, &mut c.ty);
                rewrite::expr(self, &mut c.expr, true);
                if let Some(f) = self.spec.fns.get(&key).cloned() {
                    self.used_specs.insert(key.clone());
                    self.exec_const(&key, &c.ident.to_string(), &c.ty, &c.expr, &f);
                } else if let Expr::Repeat(rp) = &*c.expr {
                    // [x; n] is not a spec expression: state its value as a postcondition
                    let mut f = spec::FnSpec::default();
                    f.ensures.push(spec::Clause {
                        tag: "const".into(),
                        text: format!("{}@ =~= crate::vshim::rep({}, ({}) as nat)", c.ident, print::flat(rp.expr.to_token_stream()), print::flat(rp.len.to_token_stream())),
                    });
                    self.exec_const(&key, &c.ident.to_string(), &c.ty, &c.expr, &f);
                } else if let Expr::Array(a) = &*c.expr {
                    // array literals (of byte arrays): state their elements
                    let mut f = spec::FnSpec::default();
                    let lit = |e: &Expr| matches!(e, Expr::Lit(_));
                    f.ensures.push(spec::Clause { tag: "const".into(), text: format!("{}@.len() == {}", c.ident, a.elems.len()) });
                    for (i, x) in a.elems.iter().enumerate() {
                        if let Expr::Array(b) = x {
                            if b.elems.iter().all(lit) {
                                let v: Vec<String> = b.elems.iter().map(|y| print::flat(y.to_token_stream())).map(|y| if y.ends_with("u8") { y } else { format!("{}u8", y) }).collect();
                                f.ensures.push(spec::Clause { tag: "const".into(), text: format!("{}@[{}]@ == seq![{}]", c.ident, i, v.join(", ")) });
                            }
                        }
                    }
                    f.start = self.spec.raw.get(&format!("const {}", key)).cloned().unwrap_or_default();
                    self.exec_const(&key, &c.ident.to_string(), &c.ty, &c.expr, &f);
                } else {
                    self.out.tokens(c.to_token_stream());
                }
            }
            Item::Static(s) => self.dropped.push(format!("static {} in {}", s.ident, path)),
            Item::Type(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                rewrite::ty(self, &mut t.ty);
                self.out.tokens(t.to_token_stream());
            }
            Item::Struct(s) => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                    rewrite::ty(self, &mut f.ty);
                }
                self.type_attrs(path, &s.ident.to_string(), derives);
                self.out.tokens(s.to_token_stream());
                self.clone_impl(&s.ident.to_string(), &s.generics, derives);
            }
            Item::Enum(e) => {
                let mut e = e.clone();
                e.attrs.clear();
                e.vis = parse_quote!(pub);
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                        rewrite::ty(self, &mut f.ty);
                    }
                }
                self.type_attrs(path, &e.ident.to_string(), derives);
                self.out.tokens(e.to_token_stream());
                self.clone_impl(&e.ident.to_string(), &e.generics, derives);
            }
            Item::Trait(t) => self.trait_item(path, t),
            Item::Impl(im) => self.impl_item(path, im),
            Item::Fn(f) => {
                let key = format!("{}::{}", path, f.sig.ident);
                if !self.spec.fns.contains_key(&key) && !key.contains("::tests::") {
                    // no contract: inlined where it is called; keep the name importable
                    self.out.line("#[verifier::external]");
                    self.external_stub = true;
                }
                self.function(path, &key, &f.sig, Some(&f.block), "pub ", None);
                self.external_stub = false;
            }
            o => self.dropped.push(format!("item in {}: {}", path, norm(&o.to_token_stream().to_string()).chars().take(80).collect::<String>())),
        }
    }

    fn exec_const(&mut self, key: &str, name: &str, ty: &Type, e: &Expr, f: &spec::FnSpec) {
        // A constant under contract: `exec const N: T ensures ... { e }`.
        let start = self.out.lineno();
        self.out.line(&format!("pub exec const {}: {}", name, print::flat(ty.to_token_stream())));
        let clauses = self.clauses("ensures", &f.ensures);
        self.out.line("{");
        self.out.indent += 1;
        self.out.raw(&f.start);
        self.out.tokens(e.to_token_stream());
        self.out.indent -= 1;
        self.out.line("}");
        let end = self.out.lineno();
        self.fns.push(json!({"key": key, "start": start, "end": end, "clauses": clauses, "mode": "const", "params": [], "inlined": [], "lost": [], "contract": true}));
    }

    /// A derived Clone copies the value field by field.
    fn clone_impl(&mut self, name: &str, g: &syn::Generics, derives: &BTreeMap<String, Vec<String>>) {
        if g.params.is_empty() && derives.get(name).map_or(false, |d| d.iter().any(|x| x == "Clone")) {
            self.out.line(&format!("impl crate::vshim::VClone for {} {{ #[verifier::external_body] fn v_clone(&self) -> (r: Self) {{ unimplemented!() }} }}", name));
        }
    }

    fn type_attrs(&mut self, path: &str, name: &str, derives: &BTreeMap<String, Vec<String>>) {
        let key = format!("type {}::{}", path, name);
        let mut d: Vec<String> = derives.get(name).cloned().unwrap_or_default();
        d.retain(|x| x != "Default");
        if let Some(raw) = self.spec.raw.get(&key).cloned() {
            self.used_specs.insert(key);
            for l in raw.lines() {
                let l = l.trim();
                if let Some(x) = l.strip_prefix("derive+") {
                    // only strengthens what the code derives: Structural needs a derived PartialEq
                    if d.iter().any(|y| y == "PartialEq") {
                        for y in x.split(',') {
                            let y = y.trim().to_string();
                            if !d.contains(&y) {
                                d.push(y)
                            }
                        }
                    } else {
                        self.lost.push(format!("type {}::{}: PartialEq is not derived", path, name));
                    }
                } else if let Some(x) = l.strip_prefix("derive-") {
                    for y in x.split(',') {
                        d.retain(|z| z != y.trim());
                    }
                } else if !l.is_empty() {
                    self.out.line(l);
                }
            }
        }
        if d.iter().any(|y| y == "Structural") {
            // == on a type with derived PartialEq is structural equality
            d.retain(|y| y != "Structural");
            self.out.line(&format!("#[verifier::external] unsafe impl vstd::prelude::Structural for {} {{}}", name));
        }
        if !d.is_empty() {
            self.out.line(&format!("#[derive({})]", d.join(", ")));
        }
    }

    fn trait_item(&mut self, path: &str, t: &ItemTrait) {
        let key = format!("{}::{}", path, t.ident);
        if self.spec.skip.contains(&key) || self.drop.contains(&key) {
            self.dropped.push(format!("trait {}", key));
            return;
        }
        let mut t = t.clone();
        rewrite::generics(self, &mut t.generics);
        let mut head = TokenStream::new();
        head.extend(quote::quote!(pub trait));
        t.ident.to_tokens(&mut head);
        t.generics.to_tokens(&mut head);
        for b in t.supertraits.iter_mut() {
            rewrite::bound(self, b);
        }
        if !t.supertraits.is_empty() {
            t.colon_token.to_tokens(&mut head);
            t.supertraits.to_tokens(&mut head);
        }
        t.generics.where_clause.to_tokens(&mut head);
        self.out.line(&format!("{} {{", print::flat(head)));
        self.out.indent += 1;
        let rk = format!("trait {}", key);
        if let Some(raw) = self.spec.raw.get(&rk).cloned() {
            self.used_specs.insert(rk);
            self.out.raw(&raw);
        }
        for i in &t.items {
            match i {
                TraitItem::Fn(f) => {
                    let k = format!("{}::{}", key, f.sig.ident);
                    if f.default.is_some() {
                        self.notes.push(format!("default method {}", k));
                    }
                    self.function(path, &k, &f.sig, f.default.as_ref(), "", None);
                }
                o => {
                    self.out.tokens(o.to_token_stream());
                }
            }
        }
        self.out.indent -= 1;
        self.out.line("}");
    }

    fn impl_item(&mut self, path: &str, im: &ItemImpl) {
        let key = impl_key(path, im);
        let tname = im.trait_.as_ref().map(|(_, p, _)| trait_name(p));
        let contracted = self.spec.has_impl(&key);
        if has_attr(&im.attrs, "automatically_derived") && !contracted {
            let is_thiserror = tname.as_deref().map_or(false, |t| t.starts_with("From<"));
            if !is_thiserror {
                self.dropped.push(format!("derived impl {}", key));
                return;
            }
        }
        if let Some(t) = &tname {
            if (FMT_TRAITS.contains(&t.as_str()) && !(t == "Display" && contracted)) || t == "Error" || t.starts_with("Extend<") || t.starts_with("FromIterator<") {
                self.dropped.push(format!("impl {}", key));
                return;
            }
        }
        if self.spec.skip.contains(&key) || self.drop.contains(&key) {
            self.dropped.push(format!("impl {}", key));
            return;
        }
        let is_trait_impl = im.trait_.is_some();
        // operator and conversion impls without any contract are not needed: drop them
        let thiserror = has_attr(&im.attrs, "automatically_derived") && !contracted;
        if is_trait_impl && !contracted && !thiserror && !self.spec.keep_uncontracted_impl(tname.as_deref().unwrap_or("")) {
            self.dropped.push(format!("uncontracted impl {}", key));
            return;
        }
        let mut im2 = im.clone();
        rewrite::generics(self, &mut im2.generics);
        rewrite::ty(self, &mut im2.self_ty);
        let mut head = TokenStream::new();
        im2.impl_token.to_tokens(&mut head);
        im2.generics.to_tokens(&mut head);
        if let Some((bang, p, f)) = &mut im2.trait_ {
            let _ = bang;
            rewrite::path(self, p);
            p.to_tokens(&mut head);
            f.to_tokens(&mut head);
        }
        im2.self_ty.to_tokens(&mut head);
        im2.generics.where_clause.to_tokens(&mut head);
        self.out.line(&format!("{} {{", print::flat(head)));
        self.out.indent += 1;
        let rk = format!("impl {}", key);
        if let Some(raw) = self.spec.raw.get(&rk).cloned() {
            self.used_specs.insert(rk);
            self.out.raw(&raw);
        }
        let vis = if is_trait_impl { "" } else { "pub " };
        for i in &im.items {
            match i {
                ImplItem::Fn(f) => {
                    let k = format!("{}::{}", key, f.sig.ident);
                    self.function(path, &k, &f.sig, Some(&f.block), vis, Some(im));
                }
                ImplItem::Const(c) => {
                    let k = format!("{}::{}", key, c.ident);
                    let mut c = c.clone();
                    c.attrs.clear();
                    if !is_trait_impl {
                        c.vis = parse_quote!(pub);
                    }
                    rewrite::ty(self, &mut c.ty);
                    rewrite::expr(self, &mut c.expr, true);
                    if let Some(f) = self.spec.fns.get(&k).cloned() {
                        self.used_specs.insert(k.clone());
                        self.exec_const(&k, &c.ident.to_string(), &c.ty, &c.expr, &f);
                    } else {
                        self.out.tokens(c.to_token_stream());
                    }
                }
                ImplItem::Type(t) => {
                    let mut t = t.clone();
                    rewrite::ty(self, &mut t.ty);
                    self.out.tokens(t.to_token_stream());
                }
                _ => self.dropped.push(format!("impl member in {}", key)),
            }
        }
        self.out.indent -= 1;
        self.out.line("}");
        if thiserror {
            // error conversions generated by thiserror: the value of the error is left unspecified
            if let Some((_, p, _)) = &im2.trait_ {
                if let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments {
                    let a = print::flat(a.args.to_token_stream());
                    let st = print::flat(im2.self_ty.to_token_stream());
                    self.early.push((path.to_string(), format!("impl vstd::std_specs::convert::FromSpecImpl<{0}> for {1} {{ open spec fn obeys_from_spec() -> bool {{ false }} open spec fn from_spec(v: {0}) -> {1} {{ arbitrary() }} }}", a, st)));
                }
            }
        }
        // a value converted with .into() goes through the same From impl
        if let Some((_, p, _)) = &im2.trait_ {
            if thiserror && p.segments.last().unwrap().ident == "From" {
                if let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments {
                    let a = print::flat(a.args.to_token_stream());
                    let st = print::flat(im2.self_ty.to_token_stream());
                    let g = print::flat(im2.generics.to_token_stream());
                    self.out.line(&format!("impl {2} crate::vshim::VInto<{1}> for {0} {{ open spec fn conv(self, u: {1}) -> bool {{ <{1} as vstd::std_specs::convert::FromSpec<{0}>>::obeys_from_spec() ==> u == <{1} as vstd::std_specs::convert::FromSpec<{0}>>::from_spec(self) }} fn v_into(self) -> (r: {1}) {{ proof {{ let d = self.conv(arbitrary::<{1}>()); }} <{1} as From<{0}>>::from(self) }} }}", a, st, g));
                }
            }
        }
        let ak = format!("after {}", key);
        if let Some(raw) = self.spec.raw.get(&ak).cloned() {
            self.used_specs.insert(ak);
            let (e, l): (Vec<&str>, Vec<&str>) = raw.lines().partition(|l| l.starts_with("impl") && l.contains("FromSpecImpl<"));
            for x in e {
                self.early.push((path.to_string(), x.to_string()));
            }
            self.out.raw(&l.join("\n"));
        }
    }

    fn clauses(&mut self, kw: &str, cl: &[spec::Clause]) -> Vec<serde_json::Value> {
        let mut v = vec![];
        if cl.is_empty() {
            return v;
        }
        self.out.indent += 1;
        self.out.line(kw);
        for c in cl {
            let s = self.out.lineno();
            self.out.raw(&format!("{},", c.text.trim().trim_end_matches(',')));
            v.push(json!({"kind": kw, "tag": c.tag, "start": s, "end": self.out.lineno() - 1, "text": c.text.trim()}));
        }
        self.out.indent -= 1;
        v
    }

    fn function(&mut self, path: &str, key: &str, sig: &Signature, body: Option<&Block>, vis: &str, im: Option<&ItemImpl>) {
        let in_trait_impl = im.map_or(false, |i| i.trait_.is_some());
        let fs = match self.spec.fns.get(key) {
            Some(f) => f.clone(),
            None => {
                if in_trait_impl || (im.is_none() && vis.is_empty()) {
                    spec::FnSpec::default()
                } else {
                    if self.external_stub {
                        spec::FnSpec::default()
                    } else {
                        self.dropped.push(format!("uncontracted fn {}", key));
                        return;
                    }
                }
            }
        };
        if fs.skip || self.drop.contains(key) {
            self.dropped.push(format!("fn {}", key));
            return;
        }
        self.used_specs.insert(key.to_string());
        let mut sig = sig.clone();
        // Verus: const fns only where spec'd; drop `const`/`unsafe` qualifiers
        sig.constness = None;
        sig.unsafety = None;
        rewrite::generics(self, &mut sig.generics);
        let mut mut_self = false;
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Typed(t) => {
                    rewrite::ty(self, &mut t.ty);
                    t.attrs.clear();
                }
                FnArg::Receiver(r) => {
                    r.attrs.clear();
                    if fs.recv_mut && r.reference.is_some() && r.mutability.is_none() {
                        *r = parse_quote!(&mut self);
                        self.count("&self -> &mut self (interior mutability made explicit)");
                    }
                    if r.reference.is_none() && r.mutability.is_some() && body.is_some() {
                        // `mut self` is not in the verifier's subset: bind it to a local of another name
                        r.mutability = None;
                        mut_self = true;
                    }
                }
            }
        }
        if let ReturnType::Type(_, t) = &mut sig.output {
            rewrite::ty(self, t);
        }
        // parameters renamed since the contract was written: keep the contract's names outside
        let mut rename = String::new();
        if let Some(names) = self.params.get(key) {
            if names.len() == sig.inputs.len() {
                for (a, n) in sig.inputs.iter_mut().zip(names) {
                    if let FnArg::Typed(t) = a {
                        if let Pat::Ident(pi) = &mut *t.pat {
                            let have = pi.ident.to_string();
                            if &have != n && n != "_" && n != "self" && body.is_some() {
                                let m = if pi.mutability.is_some() { "mut " } else { "" };
                                rename += &format!("let {}{} = {};\n", m, have, n);
                                pi.mutability = None;
                                pi.ident = Ident::new(n, proc_macro2::Span::call_site());
                            } else if &have != n && body.is_none() {
                                pi.ident = Ident::new(n, proc_macro2::Span::call_site());
                            }
                        }
                    }
                }
            }
        }
        let mut head = TokenStream::new();
        sig.fn_token.to_tokens(&mut head);
        sig.ident.to_tokens(&mut head);
        sig.generics.to_tokens(&mut head);
        let inputs = &sig.inputs;
        head.extend(quote::quote!((#inputs)));
        let mut h = format!("{}{}", vis, print::flat(head));
        if let ReturnType::Type(_, t) = &sig.output {
            h += &format!(" -> ({}: {})", fs.ret, print::flat(t.to_token_stream()));
        }
        if let Some(w) = &sig.generics.where_clause {
            h += &format!(" {}", print::flat(w.to_token_stream()));
        }
        let start = self.out.lineno();
        let stub = self.external_stub;
        let external = self.external.contains(key) || stub;
        let mut lost: Vec<String> = vec![];
        let mut body2 = body.cloned();
        let mut inl: Vec<String> = vec![];
        let mut uses: Vec<String> = vec![];
        let mut headers: Vec<String> = vec![];
        let mut loops = fs.loops.clone();
        if let (Some(b), false) = (&mut body2, external) {
            inline::inline_block(self, path, key, im, &sig, b, &mut inl, &mut lost);
            rewrite::block(self, b);
            let info = rewrite::mark_loops(b);
            if info.len() != fs.loops.len() {
                lost.push(format!("{} loops in the code, {} in the contract", info.len(), fs.loops.len()));
            }
            for (name, init) in &fs.binds {
                if let Some(x) = rewrite::local_with(b, init) {
                    if x != *name {
                        loops = loops.iter().map(|t| rewrite::rename_word(t, name, &x)).collect();
                    }
                }
            }
            uses = rewrite::uses(b);
            for (i, l) in info.iter().enumerate() {
                headers.push(l.header.clone());
                if i < loops.len() {
                    let mut t = loops[i].clone();
                    if !l.iter {
                        // facts about the sequence iterated over
                        let seq = format!("it{}.seq()", i);
                        t = t.lines().filter(|x| !x.contains(&seq)).map(|x| format!("{}\n", x)).collect();
                    }
                    t = t.replace(&format!("it{}.index@", i), &l.index);
                    if let Some(x) = l.extra.strip_prefix("invariant_while ") {
                        t = format!("{}\n{}", t.trim_end(), x);
                    }
                    loops[i] = t;
                }
            }
        }
        for a in &fs.attrs {
            self.out.line(a);
        }
        if external && !stub {
            self.out.line("#[verifier::external_body]");
        }
        self.out.line(&h);
        let mut cl: Vec<serde_json::Value> = self.clauses("requires", &fs.requires);
        cl.extend(self.clauses("ensures", &fs.ensures));
        if !fs.returns.is_empty() {
            self.out.raw(&format!("returns {},", fs.returns));
        }
        if body.is_none() {
            self.out.line(";");
        } else if external {
            self.out.line("{ unimplemented!() }");
        } else {
            let b = body2.unwrap();
            self.out.line("{");
            self.out.indent += 1;
            if let Some((_, p, _)) = im.and_then(|i| i.trait_.as_ref()) {
                // mention the impl's spec functions so that Verus defines them first (ordering only)
                let k = format!("dep {}::{}", p.segments.last().unwrap().ident, sig.ident);
                if let Some(raw) = self.spec.raw.get(&k).cloned() {
                    self.used_specs.insert(k);
                    self.out.raw(&raw);
                }
            }
            self.out.raw(&fs.start);
            for l in rewrite::compared_literals(&b) {
                let empty = if l.value().is_empty() { " assert(\"\"@ =~= Seq::<char>::empty());" } else { "" };
                self.out.line(&format!("proof {{ reveal_strlit({});{} }}", l.token(), empty));
            }
            self.out.raw(&rename);
            let mut b = b;
            if !fs.exit.is_empty() {
                if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
            }
            let mut bt = quote::quote!(#b);
            let this = |x: &str| if mut_self { print::rename_word(x, "self", "v_self") } else { x.to_string() };
            if mut_self {
                self.out.line("let mut v_self = self;");
                bt = print::rename_tokens(bt, "self", "v_self");
            }
            // print the inside of the block
            let inner: TokenStream = match bt.into_iter().next() {
                Some(proc_macro2::TokenTree::Group(g)) => g.stream(),
                _ => TokenStream::new(),
            };
            if !fs.exit.is_empty() {
                // by-value self: assert the exit condition after the last statement
                self.out.body(inner, &loops);
                for c in &fs.exit {
                    let s = self.out.lineno();
                    self.out.raw(&format!("proof {{ assert({}); }}", this(c.text.trim())));
                    cl.push(json!({"kind": "exit", "tag": c.tag, "start": s, "end": self.out.lineno() - 1, "text": c.text.trim()}));
                }
                if inline::has_return(&b) {
                    lost.push("early return in a function with an exit condition".into());
                }
            } else {
                self.out.body(inner, &loops);
            }
            self.out.indent -= 1;
            self.out.line("}");
        }
        let end = self.out.lineno() - 1;
        for l in &lost {
            self.lost.push(format!("{}: {}", key, l));
        }
        if stub {
            self.dropped.push(format!("body of uncontracted fn {}", key));
            return;
        }
        let mode = if body.is_none() {
            "decl"
        } else if external {
            "external"
        } else {
            "verified"
        };
        self.inlined.extend(inl.iter().map(|x| format!("{} <- {}", key, x)));
        let pn: Vec<String> = inputs.iter().map(|a| match a {
            FnArg::Receiver(_) => "self".to_string(),
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(p) => p.ident.to_string(),
                _ => "_".to_string(),
            },
        }).collect();
        self.fns.push(json!({"key": key, "params": pn, "start": start, "end": end, "clauses": cl, "mode": mode, "inlined": inl, "lost": lost, "uses": uses, "loops": headers,
            "contract": !fs.ensures.is_empty() || !fs.requires.is_empty() || !fs.exit.is_empty() || in_trait_impl}));
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut crates = vec![];
    let mut specs = vec![];
    let (mut outf, mut metaf) = (String::new(), String::new());
    let mut params: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let (mut external, mut drop) = (BTreeSet::new(), BTreeSet::new());
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        let v = it.next().expect("value");
        match a.as_str() {
            "--crate" => crates.push(v),
            "--spec" => specs.push(v),
            "--out" => outf = v,
            "--meta" => metaf = v,
            "--params" => params = serde_json::from_str(&std::fs::read_to_string(&v).unwrap()).unwrap(),
            "--external" => {
                external.insert(v);
            }
            "--drop" => {
                drop.insert(v);
            }
            _ => panic!("unknown argument {}", a),
        }
    }
    let spec = spec::Spec::load(&specs);
    let mut files = vec![];
    for c in &crates {
        let (name, f) = c.split_once('=').unwrap();
        let src = std::fs::read_to_string(f).unwrap();
        let file = syn::parse_file(&src).unwrap_or_else(|e| panic!("{}: {}", f, e));
        files.push((name.to_string(), file));
    }
    // the first pass only collects the conversion specs
    let early = run(spec.clone(), &files, external.clone(), drop.clone(), vec![], params.clone()).early;
    let cx = run(spec, &files, external, drop, early, params);
    std::fs::write(&outf, &cx.out.s).unwrap();
    let meta = json!({"fns": cx.fns, "dropped": cx.dropped, "rewrites": cx.rewrites, "lost": cx.lost,
        "notes": cx.notes, "inlined": cx.inlined, "rawblocks": cx.out.rawblocks, "items": cx.items});
    std::fs::write(&metaf, serde_json::to_string_pretty(&meta).unwrap()).unwrap();
}

fn run(spec: spec::Spec, files: &[(String, File)], external: BTreeSet<String>, drop: BTreeSet<String>, early: Vec<(String, String)>, params: BTreeMap<String, Vec<String>>) -> Ctx {
    let mut cx = Ctx {
        spec,
        krate: String::new(),
        out: print::Out::new(),
        dropped: vec![],
        rewrites: BTreeMap::new(),
        fns: vec![],
        lost: vec![],
        notes: vec![],
        external,
        drop,
        helpers: inline::Helpers::default(),
        used_specs: BTreeSet::new(),
        inlined: vec![],
        external_stub: false,
        params,
        early: vec![],
        items: vec![],
    };
    cx.out.line("// Generated by /verif/extract from the macro-expanded sources of /repo. Do not edit.");
    cx.out.line("#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_upper_case_globals, non_camel_case_types, unused_parens, unused_braces, unused_must_use, unused_assignments, noop_method_call)]");
    cx.out.line("#![feature(allocator_api)]");
    cx.out.line("use vstd::prelude::*;");
    cx.out.line("verus! {");
    let root = cx.spec.raw.get("root").cloned().unwrap_or_default();
    cx.used_specs.insert("root".into());
    cx.out.raw(&root);
    // Verus orders definitions by module depth, deepest first: nest them
    cx.out.line("pub mod conv_spec { pub mod a { pub mod b { pub mod c { pub mod d { pub mod e {");
    for (i, (m, t)) in early.iter().enumerate() {
        cx.out.line(&format!("pub mod conv_spec_{} {{ use vstd::prelude::*; use crate::vshim::*; use crate::{}::*;", i, m));
        cx.out.raw(t);
        cx.out.line("}");
    }
    cx.out.line("}}}}}}");
    for (name, file) in files {
        inline::collect(&mut cx, name, &file.items);
    }
    for (name, file) in files {
        cx.krate = name.clone();
        cx.out.line("#[verifier::loop_isolation(false)]");
        cx.out.line(&format!("pub mod {} {{", name));
        cx.out.indent += 1;
        let items: Vec<Item> = file
            .items
            .iter()
            .filter(|i| match i {
                Item::Use(u) => !has_attr(&u.attrs, "prelude_import"),
                _ => true,
            })
            .cloned()
            .collect();
        cx.module(name, &items);
        cx.out.indent -= 1;
        cx.out.line("}");
    }
    let tail = cx.spec.raw.get("tail").cloned().unwrap_or_default();
    cx.used_specs.insert("tail".into());
    cx.out.raw(&tail);
    cx.out.line("} // verus!");
    cx.out.line("fn main() {}");
    let mut unused: Vec<String> = cx.spec.fns.keys().chain(cx.spec.raw.keys()).filter(|k| !cx.used_specs.contains(*k)).cloned().collect();
    unused.sort();
    for u in &unused {
        cx.lost.push(format!("{}: no such item in the code", u));
    }
    cx
}
