//! Inlining of helper functions that have no contract of their own into the functions under
//! contract that call them, so that extracting a helper does not change what is verified.
use crate::{impl_key, norm, Ctx};
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub key: String,
    pub krate: String,
    pub sig: Signature,
    pub block: Block,
    pub self_ty: Option<Type>,
    pub local: bool,
}
#[derive(Default)]
pub struct Helpers {
    pub force: BTreeSet<String>,
    /// by simple name
    pub by_name: BTreeMap<String, Vec<Helper>>,
    /// names of functions and methods that have a contract, per simple name
    pub contracted: BTreeMap<String, usize>,
}

pub fn collect(cx: &mut Ctx, krate: &str, items: &[Item]) {
    walk(cx, krate, krate, items);
}
fn walk(cx: &mut Ctx, krate: &str, path: &str, items: &[Item]) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, i)) = &m.content {
                    walk(cx, krate, &format!("{}::{}", path, m.ident), i)
                }
            }
            Item::Fn(f) => add(cx, krate, format!("{}::{}", path, f.sig.ident), &f.sig, &f.block, None, false),
            Item::Impl(im) => {
                let k = impl_key(path, im);
                if im.attrs.iter().any(|a| a.path().is_ident("automatically_derived")) {
                    continue;
                }
                for i in &im.items {
                    if let ImplItem::Fn(f) = i {
                        let key = format!("{}::{}", k, f.sig.ident);
                        if im.trait_.is_some() {
                            if cx.spec.has_impl(&k) {
                                *cx.helpers.contracted.entry(f.sig.ident.to_string()).or_insert(0) += 1;
                            }
                        } else {
                            add(cx, krate, key, &f.sig, &f.block, Some((*im.self_ty).clone()), false);
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
fn add(cx: &mut Ctx, krate: &str, key: String, sig: &Signature, block: &Block, self_ty: Option<Type>, local: bool) {
    let name = sig.ident.to_string();
    if cx.spec.fns.contains_key(&key) {
        *cx.helpers.contracted.entry(name).or_insert(0) += 1;
        return;
    }
    if key.contains("::tests::") || key.contains("__") {
        return;
    }
    let h = Helper { key, krate: krate.into(), sig: sig.clone(), block: block.clone(), self_ty, local };
    cx.helpers.by_name.entry(name).or_default().push(h);
}

/// does the block contain `return` or `?` (outside closures and nested items)?
#[derive(Default)]
struct Exits {
    ret: usize,
    ret_ok: usize,
    q: usize,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ret += 1;
        if !r.expr.as_ref().map_or(false, |e| is_call_of(e, "Err")) {
            self.ret_ok += 1;
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.q += 1;
        visit::visit_expr_try(self, t);
    }
}
pub fn has_return(b: &Block) -> bool {
    exits(b).ret > 0
}
fn exits(b: &Block) -> Exits {
    let mut e = Exits::default();
    e.visit_block(b);
    e
}
fn is_call_of(e: &Expr, name: &str) -> bool {
    match e {
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == name)),
        Expr::Paren(p) => is_call_of(&p.expr, name),
        Expr::Group(p) => is_call_of(&p.expr, name),
        _ => false,
    }
}

/// all identifiers bound by patterns in the block
#[derive(Default)]
struct Binds(BTreeSet<String>);
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
#[derive(Default)]
struct Idents(BTreeSet<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_path(&mut self, p: &'a Path) {
        if p.segments.len() == 1 {
            self.0.insert(p.segments[0].ident.to_string());
        }
        visit::visit_path(self, p);
    }
}

struct Subst<'a> {
    map: &'a BTreeMap<String, Expr>,
    self_ty: Option<&'a Type>,
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // receiver / field base / deref of a substituted reference: use the place itself
        match e {
            Expr::MethodCall(m) => {
                if let Some(x) = self.lookup(&m.receiver) {
                    m.receiver = Box::new(place(&x));
                }
            }
            Expr::Field(f) => {
                if let Some(x) = self.lookup(&f.base) {
                    f.base = Box::new(place(&x));
                }
            }
            Expr::Index(f) => {
                if let Some(x) = self.lookup(&f.expr) {
                    f.expr = Box::new(place(&x));
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(x) = self.lookup(&u.expr) {
                    if let Expr::Reference(r) = &x {
                        let i = &r.expr;
                        *e = parse_quote!(#i);
                        return;
                    }
                }
            }
            Expr::Struct(s) => {
                for f in s.fields.iter_mut() {
                    if f.colon_token.is_none() {
                        f.colon_token = Some(Default::default());
                    }
                }
            }
            _ => {}
        }
        if let Some(x) = self.lookup(e) {
            *e = x;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if let Some(Type::Path(t)) = self.self_ty {
            if p.segments.first().map_or(false, |s| s.ident == "Self") {
                let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                let mut np = t.path.clone();
                if !rest.is_empty() {
                    // expression position: turbofish not needed for the non-generic types here
                    for s in np.segments.iter_mut() {
                        s.arguments = PathArguments::None;
                    }
                }
                np.segments.extend(rest);
                *p = np;
            }
        }
    }
}
fn place(e: &Expr) -> Expr {
    match e {
        Expr::Reference(r) => (*r.expr).clone(),
        o => o.clone(),
    }
}
impl<'a> Subst<'a> {
    fn lookup(&self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => self.map.get(&p.path.segments[0].ident.to_string()).cloned(),
            Expr::Paren(p) => self.lookup(&p.expr),
            _ => None,
        }
    }
}

pub fn simple_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.qself.is_none(),
        Expr::Field(f) => simple_place(&f.base),
        Expr::Reference(r) => simple_place(&r.expr),
        Expr::Paren(p) => simple_place(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && simple_place(&u.expr),
        Expr::Lit(_) => true,
        _ => false,
    }
}
fn mentions(ts: impl ToTokens, names: &BTreeSet<String>) -> bool {
    fn go(ts: proc_macro2::TokenStream, names: &BTreeSet<String>) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => names.contains(&i.to_string()),
            proc_macro2::TokenTree::Group(g) => go(g.stream(), names),
            _ => false,
        })
    }
    go(ts.to_token_stream(), names)
}

struct In<'a, 'b> {
    cx: &'a mut Ctx,
    path: &'b str,
    key: &'b str,
    inl: Vec<String>,
    lost: Vec<String>,
    depth: usize,
    im: Option<&'b ItemImpl>,
    locals: BTreeMap<String, Helper>,
    tail_ok: bool,
    /// declared types of the parameters, without references
    params: BTreeMap<String, String>,
}

enum Mode {
    /// in return position of the caller
    Tail,
    /// operand of `?`
    Try,
    Plain,
}

impl<'a, 'b> In<'a, 'b> {
    fn find(&self, name: &str, method: bool, qual: Option<&str>) -> Option<Helper> {
        if !method && qual.is_none() {
            if let Some(h) = self.locals.get(name) {
                return Some(h.clone());
            }
        }
        let v = self.cx.helpers.by_name.get(name)?;
        let krate = &self.cx.krate;
        let mut c: Vec<&Helper> = v
            .iter()
            .filter(|h| &h.krate == krate)
            .filter(|h| {
                let has_self = h.sig.receiver().is_some();
                if method {
                    has_self
                } else if let Some(q) = qual {
                    match &h.self_ty {
                        Some(t) => {
                            let t = crate::strip_lifetimes(&crate::ty_str(t));
                            let t = t.split('<').next().unwrap_or("").to_string();
                            let s = self.im.map(|i| crate::strip_lifetimes(&crate::ty_str(&i.self_ty))).unwrap_or_default();
                            t == q || (q == "Self" && t == s.split('<').next().unwrap_or(""))
                        }
                        None => h.key.ends_with(&format!("::{}::{}", q, name)) || q == "self" || q == "super",
                    }
                } else {
                    h.self_ty.is_none()
                }
            })
            .collect();
        if method && self.cx.helpers.contracted.get(name).copied().unwrap_or(0) > 0 {
            return None;
        }
        if c.len() > 1 {
            // same module first
            let same: Vec<&Helper> = c.iter().filter(|h| h.key.starts_with(&format!("{}::", self.path)) && !h.key[self.path.len() + 2..].contains("::mod ")).copied().collect();
            let own: Vec<&Helper> = match self.im {
                Some(i) if method || qual == Some("Self") => {
                    let t = crate::ty_str(&i.self_ty);
                    same.iter().filter(|h| h.self_ty.as_ref().map(|x| crate::ty_str(x)) == Some(t.clone())).copied().collect()
                }
                _ => vec![],
            };
            c = if !own.is_empty() { own } else { same };
        }
        if c.len() == 1 {
            Some(c[0].clone())
        } else {
            None
        }
    }

    /// Build the inlined expression for a call.
    fn build(&mut self, h: &Helper, recv: Option<Expr>, args: Vec<Expr>, mode: Mode) -> std::result::Result<Expr, String> {
        if self.depth > 8 {
            return Err("recursion".into());
        }
        let mut block = h.block.clone();
        for s in block.stmts.iter() {
            if let Stmt::Item(i) = s {
                if !matches!(i, Item::Use(_)) {
                    return Err("nested item".into());
                }
            }
        }
        let gens: BTreeSet<String> = h.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        let mut map: BTreeMap<String, Expr> = BTreeMap::new();
        let mut pats: Vec<Pat> = vec![];
        let mut vals: Vec<Expr> = vec![];
        let mut tys: Vec<Option<Type>> = vec![];
        let mut binds = Binds::default();
        binds.visit_block(&block);
        let mut used = Idents::default();
        for a in args.iter().chain(recv.iter()) {
            used.visit_expr(a);
        }
        let mut params: Vec<(Pat, Type, Expr)> = vec![];
        let mut it = args.into_iter();
        for p in h.sig.inputs.iter() {
            match p {
                FnArg::Receiver(r) => {
                    let a = match &recv {
                        Some(r) => r.clone(),
                        None => it.next().ok_or("missing argument")?,
                    };
                    let a = if r.reference.is_some() { place(&a) } else { a };
                    let is_self = matches!(&a, Expr::Path(p) if p.path.is_ident("self"));
                    if !is_self {
                        if !simple_place(&a) {
                            return Err("receiver is not a place".into());
                        }
                        map.insert("self".into(), a);
                    }
                }
                FnArg::Typed(t) => {
                    let a = it.next().ok_or("missing argument")?;
                    params.push(((*t.pat).clone(), (*t.ty).clone(), a));
                }
            }
        }
        if it.next().is_some() {
            return Err("argument count".into());
        }
        for (pat, ty, a) in params {
            let name = match &pat {
                Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some((i.ident.to_string(), i.mutability.is_some())),
                _ => None,
            };
            let is_ref = matches!(ty, Type::Reference(_));
            if let Some((n, false)) = &name {
                let lit = matches!(a, Expr::Lit(_));
                if (is_ref || lit) && simple_place(&a) {
                    map.insert(n.clone(), a);
                    continue;
                }
            }
            tys.push(if mentions(&ty, &gens) || mentions(&ty, &["impl".to_string(), "Self".to_string(), "dyn".to_string()].into_iter().collect()) { None } else { Some(ty) });
            pats.push(pat);
            vals.push(a);
        }
        // capture checks for the substituted expressions
        let mut free = Idents::default();
        for e in map.values() {
            free.visit_expr(e);
        }
        let mut patb = Binds::default();
        for p in &pats {
            patb.visit_pat(p);
        }
        for f in &free.0 {
            if binds.0.contains(f) || patb.0.contains(f) {
                return Err(format!("local name {} is captured", f));
            }
        }
        for n in map.keys() {
            if binds.0.contains(n) {
                return Err(format!("parameter {} is shadowed", n));
            }
        }
        Subst { map: &map, self_ty: h.self_ty.as_ref() }.visit_block_mut(&mut block);
        let ex = exits(&block);
        let body: Block = match mode {
            Mode::Tail => block,
            _ if ex.ret == 0 && ex.q == 0 => block,
            Mode::Try if ex.ret_ok == 0 => {
                // `?` and `return Err(..)` leave the caller, as `helper(..)?` would
                try_tail(&mut block)?;
                let mut b = block;
                self.nested(&mut b);
                return Ok(wrap(b, pats, vals, tys));
            }
            _ => {
                let r = is_result(&h.sig.output);
                cps(block.stmts, r)?
            }
        };
        let mut body = body;
        self.nested(&mut body);
        let e = wrap(body, pats, vals, tys);
        Ok(match mode {
            Mode::Try => parse_quote!((#e)?),
            _ => e,
        })
    }
    fn nested(&mut self, b: &mut Block) {
        self.depth += 1;
        self.visit_block_mut(b);
        self.depth -= 1;
    }

    fn try_call(&mut self, e: &Expr, mode: Mode) -> Option<Expr> {
        let (h, recv, args) = match e {
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) if p.qself.is_none() => p,
                    _ => return None,
                };
                let n = p.path.segments.len();
                let name = p.path.segments.last()?.ident.to_string();
                let qual = if n >= 2 { Some(p.path.segments[n - 2].ident.to_string()) } else { None };
                let h = self.find(&name, false, qual.as_deref())?;
                (h, None, c.args.iter().cloned().collect::<Vec<_>>())
            }
            Expr::MethodCall(m) => {
                let h = self.find(&m.method.to_string(), true, None)?;
                if let Expr::Path(p) = &*m.receiver {
                    // a parameter of another type has a method of that name of its own
                    let t = p.path.get_ident().and_then(|i| self.params.get(&i.to_string()));
                    if let (Some(t), Some(own)) = (t, &h.self_ty) {
                        let base = |s: &str| crate::strip_lifetimes(s).split('<').next().unwrap_or("").rsplit("::").next().unwrap_or("").trim().to_string();
                        let t = if base(t) == "Self" { self.im.map(|i| crate::ty_str(&i.self_ty)).unwrap_or_default() } else { t.clone() };
                        if base(&t) != base(&crate::ty_str(own)) {
                            return None;
                        }
                    }
                }
                (h, Some((*m.receiver).clone()), m.args.iter().cloned().collect::<Vec<_>>())
            }
            Expr::Paren(p) => return self.try_call(&p.expr, mode),
            _ => return None,
        };
        if h.key == self.key {
            return None;
        }
        let args2: Vec<Expr> = args
            .into_iter()
            .map(|mut a| {
                self.visit_expr_mut(&mut a);
                a
            })
            .collect();
        match self.build(&h, recv, args2, mode) {
            Ok(x) => {
                self.inl.push(h.key.clone());
                self.cx.count("helper without a contract inlined into its caller");
                Some(x)
            }
            Err(w) => {
                self.lost.push(format!("helper {} cannot be inlined: {}", h.key, w));
                None
            }
        }
    }
}
fn is_result(r: &ReturnType) -> bool {
    match r {
        ReturnType::Type(_, t) => norm(&t.to_token_stream().to_string()).contains("Result"),
        _ => false,
    }
}
fn wrap(b: Block, pats: Vec<Pat>, vals: Vec<Expr>, tys: Vec<Option<Type>>) -> Expr {
    let stmts = &b.stmts;
    match pats.len() {
        0 => parse_quote!({ #(#stmts)* }),
        1 => {
            let (p, v) = (&pats[0], &vals[0]);
            match &tys[0] {
                Some(t) => parse_quote!({ let #p: #t = #v; #(#stmts)* }),
                None => parse_quote!({ let #p = #v; #(#stmts)* }),
            }
        }
        _ => {
            // evaluate all arguments in the caller's scope before binding any parameter
            let tmp: Vec<Ident> = (0..pats.len()).map(|i| Ident::new(&format!("__v_p{}", i), Span::call_site())).collect();
            let mut s: Vec<Stmt> = vec![];
            for (t, (v, ty)) in tmp.iter().zip(vals.iter().zip(tys.iter())) {
                match ty {
                    Some(ty) => s.push(parse_quote!(let #t: #ty = #v;)),
                    None => s.push(parse_quote!(let #t = #v;)),
                }
            }
            for (t, p) in tmp.iter().zip(pats.iter()) {
                s.push(parse_quote!(let #p = #t;));
            }
            parse_quote!({ #(#s)* #(#stmts)* })
        }
    }
}

/// rewrite the value of the block from Result<T> to T: Ok(v) -> v, Err(e) -> return Err(e), e -> e?
fn try_tail(b: &mut Block) -> std::result::Result<(), String> {
    match b.stmts.last_mut() {
        Some(Stmt::Expr(e, None)) => try_expr(e),
        _ => Err("no tail expression".into()),
    }
}
fn try_expr(e: &mut Expr) -> std::result::Result<(), String> {
    match e {
        Expr::Call(c) if is_call_of(&Expr::Call(c.clone()), "Ok") && c.args.len() == 1 => {
            let a = c.args[0].clone();
            *e = a;
        }
        Expr::Call(c) if is_call_of(&Expr::Call(c.clone()), "Err") => {
            let x = e.clone();
            *e = parse_quote!(return #x);
        }
        Expr::If(i) => {
            try_tail(&mut i.then_branch)?;
            match &mut i.else_branch {
                Some((_, x)) => try_expr(x)?,
                None => return Err("if without else".into()),
            }
        }
        Expr::Block(b) => try_tail(&mut b.block)?,
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                try_expr(&mut a.body)?;
            }
        }
        Expr::Return(_) => {}
        _ => {
            let x = e.clone();
            *e = parse_quote!((#x)?);
        }
    }
    Ok(())
}

fn expr_exits(e: &Expr) -> bool {
    let mut x = Exits::default();
    x.visit_expr(e);
    x.ret + x.q > 0
}
fn stmt_exits(s: &Stmt) -> bool {
    let mut x = Exits::default();
    x.visit_stmt(s);
    x.ret + x.q > 0
}

/// Turn statements with early exits into one expression without them.
fn cps(stmts: Vec<Stmt>, result: bool) -> std::result::Result<Block, String> {
    let mut out: Vec<Stmt> = vec![];
    let mut i = 0;
    while i < stmts.len() {
        let s = stmts[i].clone();
        if !stmt_exits(&s) {
            out.push(s);
            i += 1;
            continue;
        }
        let rest: Vec<Stmt> = stmts[i + 1..].to_vec();
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e = r.expr.map(|e| *e).unwrap_or_else(|| parse_quote!(()));
                out.push(Stmt::Expr(tail_cps(e, result)?, None));
                return Ok(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Expr(e, None) if rest.is_empty() => {
                out.push(Stmt::Expr(tail_cps(e, result)?, None));
                return Ok(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Expr(Expr::If(f), _) if !expr_exits(&f.cond) => {
                let c = f.cond;
                // each branch continues with the rest
                let mut t = f.then_branch.stmts;
                t.extend(rest.clone());
                let t = cps(t, result)?;
                let e = match f.else_branch {
                    None => cps(rest, result)?,
                    Some((_, e)) => {
                        let mut s = match *e {
                            Expr::Block(b) => b.block.stmts,
                            o => vec![Stmt::Expr(o, Some(Default::default()))],
                        };
                        s.extend(rest);
                        cps(s, result)?
                    }
                };
                out.push(Stmt::Expr(parse_quote!(if #c #t else #e), None));
                return Ok(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Local(l) => {
                let init = l.init.clone().ok_or("let without initializer")?;
                if init.diverge.is_some() {
                    return Err("let else".into());
                }
                if let Expr::Try(t) = &*init.expr {
                    if !expr_exits(&t.expr) && result {
                        let (x, p) = (&t.expr, &l.pat);
                        let r = cps(rest, result)?;
                        out.push(Stmt::Expr(parse_quote!(match #x { Ok(__v_ok) => { let #p = __v_ok; #r }, Err(__v_e) => Err(__v_e.v_into()) }), None));
                        return Ok(Block { brace_token: Default::default(), stmts: out });
                    }
                }
                return Err("early exit inside a let".into());
            }
            Stmt::Expr(Expr::Try(t), Some(_)) if !expr_exits(&t.expr) && result => {
                let x = &t.expr;
                let r = cps(rest, result)?;
                out.push(Stmt::Expr(parse_quote!(match #x { Ok(_) => #r, Err(__v_e) => Err(__v_e.v_into()) }), None));
                return Ok(Block { brace_token: Default::default(), stmts: out });
            }
            _ => return Err("early exit in an unsupported position".into()),
        }
    }
    Ok(Block { brace_token: Default::default(), stmts: out })
}
fn tail_cps(e: Expr, result: bool) -> std::result::Result<Expr, String> {
    if !expr_exits(&e) {
        return Ok(e);
    }
    match e.clone() {
        Expr::If(f) if !expr_exits(&f.cond) => {
            let c = f.cond;
            let t = cps(f.then_branch.stmts, result)?;
            let el = f.else_branch.ok_or("if without else")?;
            let el = tail_cps(*el.1, result)?;
            let el: Expr = match el {
                Expr::Block(_) | Expr::If(_) => el,
                o => parse_quote!({ #o }),
            };
            Ok(parse_quote!(if #c #t else #el))
        }
        Expr::Block(b) => {
            let b = cps(b.block.stmts, result)?;
            Ok(parse_quote!(#b))
        }
        Expr::Match(mut m) if !expr_exits(&m.expr) => {
            for a in m.arms.iter_mut() {
                a.body = Box::new(tail_cps((*a.body).clone(), result)?);
            }
            Ok(Expr::Match(m))
        }
        Expr::Return(r) => Ok(r.expr.map(|e| *e).unwrap_or_else(|| parse_quote!(()))),
        Expr::Call(c) if result && is_call_of(&Expr::Call(c.clone()), "Ok") && c.args.len() == 1 => {
            if let Expr::Try(t) = &c.args[0] {
                if !expr_exits(&t.expr) {
                    let x = &t.expr;
                    return Ok(parse_quote!(match #x { Ok(__v_ok) => Ok(__v_ok), Err(__v_e) => Err(__v_e.v_into()) }));
                }
            }
            Err("early exit in the tail expression".into())
        }
        _ => Err("early exit in the tail expression".into()),
    }
}

impl<'a, 'b> VisitMut for In<'a, 'b> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // functions nested in the body
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Item(Item::Fn(f)) = &s {
                let h = Helper { key: format!("{}::{}", self.key, f.sig.ident), krate: self.cx.krate.clone(), sig: f.sig.clone(), block: (*f.block).clone(), self_ty: None, local: true };
                self.locals.insert(f.sig.ident.to_string(), h);
            } else {
                keep.push(s);
            }
        }
        b.stmts = keep;
        let n = b.stmts.len();
        let tail = std::mem::replace(&mut self.tail_ok, false);
        for (i, s) in b.stmts.iter_mut().enumerate() {
            self.tail_ok = tail && i + 1 == n && matches!(s, Stmt::Expr(_, None));
            self.visit_stmt_mut(s);
        }
        self.tail_ok = tail;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let tail = std::mem::replace(&mut self.tail_ok, false);
        match e {
            Expr::Try(t) => {
                if let Some(x) = self.try_call(&t.expr, Mode::Try) {
                    *e = x;
                    return;
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &r.expr {
                    if let Some(y) = self.try_call(x, Mode::Tail) {
                        r.expr = Some(Box::new(y));
                        return;
                    }
                }
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                if let Some(x) = self.try_call(e, if tail { Mode::Tail } else { Mode::Plain }) {
                    *e = x;
                    return;
                }
            }
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.tail_ok = tail;
                self.visit_block_mut(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail_ok = tail;
                    self.visit_expr_mut(x);
                }
                return;
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    self.tail_ok = tail;
                    self.visit_expr_mut(&mut a.body);
                }
                return;
            }
            Expr::Block(b) => {
                self.tail_ok = tail;
                self.visit_block_mut(&mut b.block);
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

pub fn inline_block(cx: &mut Ctx, path: &str, key: &str, im: Option<&ItemImpl>, sig: &Signature, b: &mut Block, inl: &mut Vec<String>, lost: &mut Vec<String>) {
    let mut v = In { cx, path, key, inl: vec![], lost: vec![], depth: 0, im, locals: BTreeMap::new(), tail_ok: true, params: BTreeMap::new() };
    for i in &sig.inputs {
        if let FnArg::Typed(t) = i {
            if let Pat::Ident(p) = &*t.pat {
                let mut ty = &*t.ty;
                while let Type::Reference(r) = ty {
                    ty = &r.elem;
                }
                v.params.insert(p.ident.to_string(), crate::ty_str(ty));
            }
        }
    }
    v.visit_block_mut(b);
    inl.append(&mut v.inl);
    lost.append(&mut v.lost);
}
