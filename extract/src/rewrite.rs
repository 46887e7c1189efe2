use crate::inline;
use crate::Ctx;
use proc_macro2::Span;
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::punctuated::Punctuated;
use syn::*;

pub const EXT: &[&str] = &[
    "bitcoin", "ed25519_dalek", "hacl_star", "blake2_rfc", "zeroize", "constant_time_eq", "rand", "hex",
];

/// std modules replaced by stubs with assumed contracts (spec/00_shim.vspec)
pub const STD_EXT: &[&str] = &["io", "time", "sync", "array", "fmt"];

/// `<T as a::B>::f` whose trait path got a longer or shorter prefix
fn requalify(q: &mut Option<QSelf>, before: usize, after: usize) {
    if let Some(q) = q {
        if q.position > 0 && after != before {
            q.position = (q.position + after).saturating_sub(before);
        }
    }
}

struct R<'a> {
    cx: &'a mut Ctx,
    in_const: bool,
}

pub fn path(cx: &mut Ctx, p: &mut Path) {
    R { cx, in_const: false }.visit_path_mut(p);
}
pub fn ty(cx: &mut Ctx, t: &mut Type) {
    R { cx, in_const: false }.visit_type_mut(t);
}
pub fn bound(cx: &mut Ctx, t: &mut TypeParamBound) {
    R { cx, in_const: false }.visit_type_param_bound_mut(t);
}
pub fn generics(cx: &mut Ctx, g: &mut Generics) {
    R { cx, in_const: false }.visit_generics_mut(g);
}
pub fn expr(cx: &mut Ctx, e: &mut Expr, in_const: bool) {
    R { cx, in_const }.visit_expr_mut(e);
}
pub fn block(cx: &mut Ctx, b: &mut Block) {
    R { cx, in_const: false }.visit_block_mut(b);
}

fn seg(s: &str) -> PathSegment {
    PathSegment { ident: Ident::new(s, Span::call_site()), arguments: PathArguments::None }
}

fn first(p: &Path) -> String {
    p.segments.first().map_or(String::new(), |s| s.ident.to_string())
}
pub fn last(p: &Path) -> String {
    p.segments.last().map_or(String::new(), |s| s.ident.to_string())
}
fn plain(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn prefix(p: &mut Path, pre: &[&str], drop_first: usize) {
    let old: Vec<PathSegment> = p.segments.iter().skip(drop_first).cloned().collect();
    p.segments = pre.iter().map(|s| seg(s)).chain(old).collect();
    p.leading_colon = None;
}

pub fn use_tree(cx: &mut Ctx, t: UseTree, top: bool) -> Option<UseTree> {
    match t {
        UseTree::Path(mut p) => {
            let name = p.ident.to_string();
            if top {
                if name == "thiserror" || name == "bitflags" {
                    return None;
                }
                if name == "std" || name == "core" {
                    let parts: Vec<UseTree> = match *p.tree {
                        UseTree::Group(g) => g.items.into_iter().collect(),
                        o => vec![o],
                    };
                    let mut out: Vec<UseTree> = vec![];
                    for t in parts {
                        let n = match &t {
                            UseTree::Path(q) => q.ident.to_string(),
                            UseTree::Name(q) => q.ident.to_string(),
                            UseTree::Rename(q) => q.ident.to_string(),
                            _ => String::new(),
                        };
                        let inner = match use_tree(cx, t, false) {
                            Some(i) => i,
                            None => continue,
                        };
                        if STD_EXT.contains(&n.as_str()) {
                            out.push(parse_quote!(crate::ext::#inner));
                        } else {
                            out.push(parse_quote!(std::#inner));
                        }
                    }
                    return match out.len() {
                        0 => None,
                        1 => out.pop(),
                        _ => Some(parse_quote!({ #(#out),* })),
                    };
                }
                if name == "crate" {
                    let inner = use_tree(cx, *p.tree, false)?;
                    let k = Ident::new(&cx.krate, Span::call_site());
                    return Some(parse_quote!(crate::#k::#inner));
                }
                if EXT.contains(&name.as_str()) {
                    let i = p.ident.clone();
                    let inner = use_tree(cx, *p.tree, false)?;
                    return Some(parse_quote!(crate::ext::#i::#inner));
                }
                if name == "noiseexplorer_nx" {
                    let i = p.ident.clone();
                    let inner = use_tree(cx, *p.tree, false)?;
                    return Some(parse_quote!(crate::#i::#inner));
                }
            }
            p.tree = Box::new(use_tree(cx, *p.tree, false)?);
            Some(UseTree::Path(p))
        }
        UseTree::Group(mut g) => {
            let items: Vec<UseTree> = g.items.into_iter().filter_map(|x| use_tree(cx, x, top)).collect();
            if items.is_empty() {
                return None;
            }
            g.items = items.into_iter().collect();
            Some(UseTree::Group(g))
        }
        UseTree::Name(n) => {
            let s = n.ident.to_string();
            if s.starts_with("impl_") {
                return None;
            }
            if top && EXT.contains(&s.as_str()) {
                let i = n.ident.clone();
                return Some(parse_quote!(crate::ext::#i));
            }
            Some(UseTree::Name(n))
        }
        o => Some(o),
    }
}

/// Method calls redirected to the shim traits of the same meaning (spec/shim.vspec).
const METHODS: &[(&str, &str)] = &[
    ("into", "v_into"),
    ("try_into", "v_try_into"),
    ("to_le_bytes", "v_to_le_bytes"),
    ("to_be_bytes", "v_to_be_bytes"),
    ("to_bits", "v_to_bits"),
    ("clone_from_slice", "v_copy_from_slice"),
    ("to_vec", "v_to_vec"),
    ("to_string", "v_to_string"),
    ("to_owned", "v_to_owned"),
    ("clone", "v_clone"),
    ("fill", "v_fill"),
    ("extend_from_slice", "v_extend_from_slice"),
    ("extend", "v_extend"),
    ("concat", "v_concat"),
    ("is_nan", "v_is_nan"),
];

fn int_lit(e: &Expr) -> Option<(u128, String)> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => Some((i.base10_parse::<u128>().ok()?, i.suffix().to_string())),
        Expr::Paren(p) => int_lit(&p.expr),
        Expr::Group(p) => int_lit(&p.expr),
        _ => None,
    }
}
fn mk_int(v: u128, suffix: &str) -> Expr {
    let l = LitInt::new(&format!("{}{}", v, suffix), Span::call_site());
    parse_quote!(#l)
}
fn bits_of(s: &str) -> Option<u32> {
    Some(match s {
        "u8" => 8,
        "u16" => 16,
        "u32" => 32,
        "u64" | "usize" => 64,
        _ => return None,
    })
}
fn fits(v: u128, s: &str) -> bool {
    bits_of(s).map_or(true, |b| v < (1u128 << b))
}

impl<'a> R<'a> {
    fn fold(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) if m.method == "pow" && m.args.len() == 1 => {
                let (a, s) = int_lit(&m.receiver)?;
                let (b, _) = int_lit(&m.args[0])?;
                let v = a.checked_pow(b as u32)?;
                if !fits(v, &s) {
                    return None;
                }
                self.cx.count("constant folding");
                Some(mk_int(v, &s))
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = plain(&p.path);
                    if let Some(t) = s.strip_suffix("::pow") {
                        let (a, _) = int_lit(c.args.get(0)?)?;
                        let (b, _) = int_lit(c.args.get(1)?)?;
                        let v = a.checked_pow(b as u32)?;
                        if bits_of(t).is_some() && fits(v, t) {
                            self.cx.count("constant folding");
                            return Some(mk_int(v, t));
                        }
                    }
                    if let Some(t) = s.strip_suffix("::max_value") {
                        let b = bits_of(t)?;
                        self.cx.count("constant folding");
                        return Some(mk_int((1u128 << b) - 1, t));
                    }
                }
                None
            }
            Expr::Binary(b) => {
                let (x, s) = int_lit(&b.left)?;
                let (y, s2) = int_lit(&b.right)?;
                let sfx = if s.is_empty() { s2 } else { s };
                let v = match b.op {
                    BinOp::Sub(_) => x.checked_sub(y)?,
                    BinOp::Add(_) => x.checked_add(y)?,
                    BinOp::Mul(_) => x.checked_mul(y)?,
                    BinOp::Shl(_) if y < 64 => x << y,
                    _ => return None,
                };
                if !fits(v, &sfx) {
                    return None;
                }
                self.cx.count("constant folding");
                Some(mk_int(v, &sfx))
            }
            _ => None,
        }
    }
}

/// the string literals a body compares something with (their characters are revealed to the solver)
pub fn compared_literals(b: &Block) -> Vec<LitStr> {
    struct V(Vec<LitStr>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_binary(&mut self, e: &'a syn::ExprBinary) {
            if matches!(e.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                for mut o in [&*e.left, &*e.right] {
                    loop {
                        o = match o {
                            Expr::Reference(r) => &r.expr,
                            Expr::Paren(r) => &r.expr,
                            _ => break,
                        }
                    }
                    if let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = o {
                        if !self.0.iter().any(|x| x.value() == l.value()) {
                            self.0.push(l.clone());
                        }
                    }
                }
            }
            syn::visit::visit_expr_binary(self, e);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}
fn is_str_lit_pat(p: &Pat) -> bool {
    match p {
        Pat::Lit(l) => matches!(l.lit, Lit::Str(_)),
        Pat::Or(o) => o.cases.iter().all(is_str_lit_pat),
        Pat::Paren(p) => is_str_lit_pat(&p.pat),
        _ => false,
    }
}
fn str_lits(p: &Pat, v: &mut Vec<Lit>) {
    match p {
        Pat::Lit(l) => v.push(l.lit.clone()),
        Pat::Or(o) => o.cases.iter().for_each(|c| str_lits(c, v)),
        Pat::Paren(p) => str_lits(&p.pat, v),
        _ => {}
    }
}

/// Some(true): Option, Some(false): Result, None: neither (iterator) or unknown
#[derive(PartialEq, Clone, Copy)]
enum Carrier {
    Opt,
    Res,
    Iter,
    Unknown,
}
fn carrier(e: &Expr) -> Carrier {
    match e {
        Expr::Paren(p) => carrier(&p.expr),
        Expr::Reference(r) => carrier(&r.expr),
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "iter" | "iter_mut" | "into_iter" | "zip" | "enumerate" | "chars" | "bytes" | "rev" | "skip" | "step_by" | "chunks" | "windows" | "drain" | "char_indices" | "chain" | "cycle" | "by_ref" | "skip_while"
            | "take_while" | "filter_map" | "flat_map" | "split" | "lines" => Carrier::Iter,
            "get" | "get_mut" | "first" | "last" | "ok" | "err" | "position" | "pop" | "next" | "split_first" | "split_last" | "strip_prefix" | "then" | "then_some" | "find" | "from_bits" | "get_handshake_hash"
            | "get_remote_static_public_key" | "get_remote_pubkey" => Carrier::Opt,
            "ok_or" | "ok_or_else" | "map_err" | "try_into" | "next_by" | "deserialize" | "serialize" | "parse" | "duration_since" | "write_all" | "write" | "get_value" | "lock" => Carrier::Res,
            "map" | "and_then" | "filter" | "or_else" | "as_ref" | "as_mut" | "cloned" | "copied" | "take" => carrier(&m.receiver),
            n if n.starts_with("checked_") => Carrier::Opt,
            _ => Carrier::Unknown,
        },
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => match last(&p.path).as_str() {
                "Some" | "from_bits" => Carrier::Opt,
                _ => Carrier::Res,
            },
            _ => Carrier::Unknown,
        },
        Expr::Path(p) if last(&p.path) == "None" => Carrier::Opt,
        _ => Carrier::Unknown,
    }
}
/// `a ^ x` and `a ^= x` with x a reference variable -> `a ^ *x`
struct DerefOperands {
    id: Ident,
}
impl VisitMut for DerefOperands {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Binary(b) = e {
            let logic = matches!(b.op, BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_));
            if !logic {
                for o in [&mut b.left, &mut b.right] {
                    if let Expr::Path(p) = &**o {
                        if p.path.is_ident(&self.id) {
                            let id = self.id.clone();
                            **o = parse_quote!((*#id));
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// closure or function argument applied to one value: (pattern, body)
fn applied(e: &Expr) -> Option<(Pat, Expr)> {
    match e {
        Expr::Closure(c) if c.inputs.len() == 1 && !inline::has_return(&parse_quote!({ #c })) => {
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            if closure_exits(&c.body) {
                return None;
            }
            Some((p, (*c.body).clone()))
        }
        Expr::Path(_) => Some((parse_quote!(__v_x), parse_quote!(#e(__v_x)))),
        _ => None,
    }
}
fn closure_exits(e: &Expr) -> bool {
    inline::has_return(&parse_quote!({ #e; }))
}
fn thunk(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Closure(c) if c.inputs.is_empty() && !closure_exits(&c.body) => Some((*c.body).clone()),
        Expr::Path(_) => Some(parse_quote!(#e())),
        _ => None,
    }
}
/// Option/Result combinators with a closure, replaced by the match that defines them
fn combinator(m: &ExprMethodCall) -> Option<Expr> {
    let r = &m.receiver;
    let n = m.method.to_string();
    let c = carrier(r);
    if c == Carrier::Iter {
        return None;
    }
    let opt = c == Carrier::Opt;
    match (n.as_str(), m.args.len()) {
        ("map_err", 1) => {
            let (p, b) = applied(&m.args[0])?;
            Some(parse_quote!(match #r { Ok(__v_ok) => Ok(__v_ok), Err(#p) => Err(#b) }))
        }
        ("ok_or_else", 1) => {
            let b = thunk(&m.args[0])?;
            Some(parse_quote!(match #r { Some(__v_ok) => Ok(__v_ok), None => Err(#b) }))
        }
        ("unwrap_or_else", 1) => match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let (p, b) = applied(&m.args[0])?;
                Some(parse_quote!(match #r { Ok(__v_ok) => __v_ok, Err(#p) => #b }))
            }
            a => {
                let b = thunk(a)?;
                Some(parse_quote!(match #r { Some(__v_ok) => __v_ok, None => #b }))
            }
        },
        ("map", 1) => {
            let (p, b) = applied(&m.args[0])?;
            Some(if opt { parse_quote!(match #r { Some(#p) => Some(#b), None => None }) } else { parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__v_e) => Err(__v_e) }) })
        }
        ("and_then", 1) => {
            let (p, b) = applied(&m.args[0])?;
            Some(if opt { parse_quote!(match #r { Some(#p) => #b, None => None }) } else { parse_quote!(match #r { Ok(#p) => #b, Err(__v_e) => Err(__v_e) }) })
        }
        ("map_or", 2) => {
            let (p, b) = applied(&m.args[1])?;
            let d = &m.args[0];
            Some(if opt { parse_quote!({ let __v_d = #d; match #r { Some(#p) => #b, None => __v_d } }) } else { parse_quote!({ let __v_d = #d; match #r { Ok(#p) => #b, Err(_) => __v_d } }) })
        }
        ("filter", 1) if opt => {
            let (p, b) = applied(&m.args[0])?;
            Some(parse_quote!(match #r { Some(__v_ok) => { let __v_keep = { let #p = &__v_ok; #b }; if __v_keep { Some(__v_ok) } else { None } } None => None }))
        }
        ("then", 1) => {
            let b = thunk(&m.args[0])?;
            Some(parse_quote!(if #r { Some(#b) } else { None }))
        }
        _ => None,
    }
}

impl<'a> VisitMut for R<'a> {
    fn visit_attribute_mut(&mut self, _a: &mut Attribute) {}

    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        let n = p.path.segments.len();
        visit_mut::visit_expr_path_mut(self, p);
        requalify(&mut p.qself, n, p.path.segments.len());
    }

    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        let n = p.path.segments.len();
        visit_mut::visit_type_path_mut(self, p);
        requalify(&mut p.qself, n, p.path.segments.len());
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let f = first(p);
        let k = self.cx.krate.clone();
        if (f == "std" || f == "core") && p.segments.len() > 2 && STD_EXT.contains(&p.segments[1].ident.to_string().as_str()) {
            prefix(p, &["crate", "ext"], 1);
            return;
        }
        if last(p) == "Into" && matches!(p.segments.last().unwrap().arguments, PathArguments::AngleBracketed(_)) {
            let a = p.segments.last().unwrap().arguments.clone();
            *p = parse_quote!(crate::vshim::VInto);
            p.segments.last_mut().unwrap().arguments = a;
            self.cx.count("bound Into<T> -> VInto<T>");
            return;
        }
        if p.leading_colon.is_some() {
            if f == "bitflags" && p.segments.len() > 2 {
                prefix(p, &["core"], 2);
            } else if f == "core" || f == "std" {
                p.leading_colon = None;
            } else if f == "alloc" {
                prefix(p, &["std"], 1);
            }
            return;
        }
        if f == "crate" {
            prefix(p, &["crate", &k], 1);
        } else if EXT.contains(&f.as_str()) && p.segments.len() > 1 {
            prefix(p, &["crate", "ext"], 0);
        } else if f == "noiseexplorer_nx" && p.segments.len() > 1 {
            prefix(p, &["crate"], 0);
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // nested items of the bitflags expansion
        let n = b.stmts.len();
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Trait(t)) if t.ident == "__BitFlags")
            && !matches!(s, Stmt::Item(Item::Impl(i)) if i.trait_.as_ref().map_or(false, |t| last(&t.1) == "__BitFlags")));
        if b.stmts.len() != n {
            self.cx.count("bitflags all(): local trait constant <Self as __BitFlags>::X replaced by its definition Self::X.bits");
        }
        for s in b.stmts.iter_mut() {
            match s {
                Stmt::Local(l) => l.attrs.clear(),
                Stmt::Item(Item::Use(u)) => {
                    if let Some(t) = use_tree(self.cx, u.tree.clone(), true) {
                        u.tree = t;
                    }
                }
                _ => {}
            }
        }
        // `use` statements inside functions (std::convert::TryInto in impl_sized_B0)
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Use(_)) => false,
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if let Some(n) = combinator(m) {
                self.cx.count(&format!(".{}(closure) -> the match it stands for", m.method));
                *e = n;
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(n) = write_fmt(m) {
                self.cx.count("f.write_fmt(format_args!(..)) -> the writes it stands for");
                *e = n;
            }
        }
        // for x in S.iter(): x is a reference; the operators on references are those of the values
        if let Expr::ForLoop(l) = e {
            let refs = match &*l.expr {
                Expr::MethodCall(m) => m.method == "iter" && m.args.is_empty(),
                Expr::Reference(r) => r.mutability.is_none(),
                _ => false,
            };
            if let Expr::Reference(r) = &*l.expr {
                if r.mutability.is_none() && inline::simple_place(&r.expr) {
                    let x = r.expr.clone();
                    self.cx.count("for x in &S -> for x in S.iter()");
                    *l.expr = parse_quote!(#x.iter());
                }
            }
            if let (true, Pat::Ident(p)) = (refs, &*l.pat) {
                DerefOperands { id: p.ident.clone() }.visit_block_mut(&mut l.body);
            }
        }
        // for (i, x) in S.iter().enumerate()
        if let Expr::ForLoop(l) = e {
            if let (Pat::Tuple(t), Expr::MethodCall(m)) = (&*l.pat, &*l.expr) {
                if m.method == "enumerate" && t.elems.len() == 2 {
                    if let Expr::MethodCall(i) = &*m.receiver {
                        if i.method == "iter" && inline::simple_place(&i.receiver) {
                            let s = i.receiver.clone();
                            let (a, x) = (t.elems[0].clone(), t.elems[1].clone());
                            let id: Ident = match &a {
                                Pat::Ident(p) => p.ident.clone(),
                                _ => Ident::new("__v_i", Span::call_site()),
                            };
                            if let Pat::Ident(p) = &x {
                                DerefOperands { id: p.ident.clone() }.visit_block_mut(&mut l.body);
                            }
                            l.body.stmts.insert(0, parse_quote!(let #x = &#s[#id];));
                            *l.pat = parse_quote!(#id);
                            *l.expr = parse_quote!(0..#s.len());
                            self.cx.count("for (i, x) in S.iter().enumerate() -> for i in 0..S.len() with x = &S[i]");
                        }
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // S.chars().count(), V.drain(..).collect()
            if let Expr::MethodCall(i) = &*m.receiver {
                if m.method == "count" && i.method == "chars" {
                    let mut x = (*i.receiver).clone();
                    self.visit_expr_mut(&mut x);
                    self.cx.count("S.chars().count() -> S.v_char_count()");
                    *e = parse_quote!(#x.v_char_count());
                    return;
                }
                if m.method == "collect" && i.method == "drain" && i.args.len() == 1 {
                    if let Expr::Range(r) = &i.args[0] {
                        let mut x = (*i.receiver).clone();
                        self.visit_expr_mut(&mut x);
                        self.cx.count("V.drain(..n).collect() -> V.v_drain_to(n)");
                        match (&r.start, &r.end) {
                            (None, None) => {
                                *e = parse_quote!(#x.v_drain_all());
                                return;
                            }
                            (None, Some(n)) if matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                                let mut n = n.clone();
                                self.visit_expr_mut(&mut n);
                                *e = parse_quote!(#x.v_drain_to(#n));
                                return;
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        // X.iter().sum()
        if let Expr::MethodCall(m) = e {
            if m.method == "sum" && m.args.is_empty() {
                if let Expr::MethodCall(i) = &*m.receiver {
                    if i.method == "iter" && i.args.is_empty() {
                        let mut x = (*i.receiver).clone();
                        self.visit_expr_mut(&mut x);
                        self.cx.count("X.iter().sum() -> v_sum_usize(&X)");
                        *e = parse_quote!(crate::vshim::v_sum_usize(&#x));
                        return;
                    }
                }
            }
        }
        // x.parse() is FromStr::from_str(x)
        if let Expr::MethodCall(m) = e {
            if m.method == "parse" && m.args.is_empty() {
                let mut x = (*m.receiver).clone();
                self.visit_expr_mut(&mut x);
                if !matches!(&x, Expr::MethodCall(i) if i.method == "as_str") {
                    x = parse_quote!(&#x);
                }
                self.cx.count("x.parse() -> FromStr::from_str(x)");
                *e = match m.turbofish.as_ref().and_then(|t| t.args.first().cloned()) {
                    Some(t) => parse_quote!(<#t as core::str::FromStr>::from_str(#x)),
                    None => parse_quote!(core::str::FromStr::from_str(#x)),
                };
                return;
            }
        }
        // X.iter().fold(0, |a, b| a + b)
        if let Expr::MethodCall(m) = e {
            if m.method == "fold" && m.args.len() == 2 && is_sum_fold(&m.args) {
                if let Expr::MethodCall(i) = &*m.receiver {
                    if i.method == "iter" && i.args.is_empty() {
                        let mut x = (*i.receiver).clone();
                        self.visit_expr_mut(&mut x);
                        self.cx.count("X.iter().fold(0, |a, b| a + b) -> v_sum_usize(&X)");
                        *e = parse_quote!(crate::vshim::v_sum_usize(&#x));
                        return;
                    }
                }
            }
        }
        // vec![..] and panics, format!
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let s = plain(&p.path);
                if s.starts_with("core::panicking") || s.ends_with("begin_panic") {
                    self.cx.count("panic -> v_panic (precondition false)");
                    *e = parse_quote!(crate::vshim::v_panic());
                    return;
                }
                if p.qself.is_some() && last(&p.path) == "into_vec" || s == "alloc::boxed::box_assume_init_into_vec_unsafe" {
                    // <[_]>::into_vec(box_new([..]))
                    if let Some(Expr::Call(inner)) = c.args.first() {
                        let arr = inner.args.iter().find_map(|a| match a {
                            Expr::Array(a) => Some(Expr::Array(a.clone())),
                            _ => None,
                        });
                        if let Some(mut a) = arr {
                            self.visit_expr_mut(&mut a);
                            self.cx.count("vec![..] expansion -> v_vec_of([..])");
                            *e = parse_quote!(crate::vshim::v_vec_of(#a));
                            return;
                        }
                    }
                }
                if s == "alloc::vec::from_elem" {
                    let mut a = c.args[0].clone();
                    let mut b = c.args[1].clone();
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    self.cx.count("vec![x; n] expansion -> v_from_elem(x, n)");
                    *e = parse_quote!(crate::vshim::v_from_elem(#a, #b));
                    return;
                }
                if s == "alloc::__export::must_use" || s.starts_with("alloc::fmt::format") {
                    self.cx.count("format! -> v_format() (unspecified String)");
                    *e = parse_quote!(crate::vshim::v_format());
                    return;
                }
            }
        }
        if let Expr::Path(p) = e {
            if plain(&p.path) == "f32::NAN" {
                *e = parse_quote!(crate::vshim::v_f32_nan());
                return;
            }
        }
        if let Expr::Path(p) = e {
            if p.qself.is_some() && p.path.segments.len() == 2 && p.path.segments[0].ident == "__BitFlags" {
                let n = p.path.segments[1].ident.clone();
                *e = parse_quote!(Self::#n.bits);
                return;
            }
        }
        // match on string literals -> if chain
        if let Expr::Match(m) = e {
            if m.arms.iter().any(|a| is_str_lit_pat(&a.pat)) && m.arms.iter().all(|a| is_str_lit_pat(&a.pat) || matches!(a.pat, Pat::Wild(_) | Pat::Ident(_))) {
                let scrut = m.expr.clone();
                let mut acc: Option<Expr> = None;
                for a in m.arms.iter().rev() {
                    let body = &a.body;
                    let guard = a.guard.as_ref().map(|g| g.1.clone());
                    match &a.pat {
                        Pat::Wild(_) | Pat::Ident(_) => {
                            let b: Expr = if let Pat::Ident(i) = &a.pat {
                                let i = &i.ident;
                                parse_quote!({ let #i = __v_s; #body })
                            } else {
                                parse_quote!({ #body })
                            };
                            acc = Some(match (guard, acc) {
                                (Some(g), Some(prev)) => parse_quote!(if #g #b else { #prev }),
                                _ => b,
                            });
                        }
                        p => {
                            let mut lits = vec![];
                            str_lits(p, &mut lits);
                            let mut c: Expr = {
                                let l = &lits[0];
                                parse_quote!(__v_s == #l)
                            };
                            for l in &lits[1..] {
                                c = parse_quote!(#c || __v_s == #l);
                            }
                            if let Some(g) = guard {
                                c = parse_quote!((#c) && #g);
                            }
                            let prev = acc.take().unwrap_or_else(|| parse_quote!(crate::vshim::v_panic()));
                            acc = Some(parse_quote!(if #c { #body } else { #prev }));
                        }
                    }
                }
                let acc = acc.unwrap();
                self.cx.count("match on string literals -> if/else chain");
                let mut ne: Expr = parse_quote!({ let __v_s = #scrut; #acc });
                visit_mut::visit_expr_mut(self, &mut ne);
                *e = ne;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(f) = self.fold(e) {
            *e = f;
            return;
        }
        match e {
            Expr::MethodCall(m) => {
                m.attrs.clear();
                let n = m.method.to_string();
                if n == "unwrap" || n == "expect" {
                    if let Expr::MethodCall(l) = &*m.receiver {
                        if l.method == "lock" && l.args.is_empty() {
                            let x = &l.receiver;
                            self.cx.count("x.lock().unwrap() -> x.v_lock()");
                            *e = parse_quote!(#x.v_lock());
                            return;
                        }
                    }
                }
                if let Some((_, to)) = METHODS.iter().find(|x| x.0 == n) {
                    self.cx.count(&format!(".{}() -> .{}()", n, to));
                    m.method = Ident::new(to, m.method.span());
                    m.turbofish = None;
                }
                // x.f(g(x)), f borrowing x mutably: the arguments are evaluated before x is borrowed
                let muts = ["v_copy_from_slice", "copy_from_slice", "v_extend_from_slice", "v_extend", "push", "resize", "truncate", "insert", "push_str", "v_fill", "swap", "remove", "split_off"];
                if muts.contains(&m.method.to_string().as_str()) {
                    if let Some(root) = root_ident(&m.receiver) {
                        if m.args.iter().any(|a| !matches!(a, Expr::Lit(_)) && mentions(a.to_token_stream(), &root)) {
                            let ids: Vec<Ident> = (0..m.args.len()).map(|i| Ident::new(&format!("__v_a{}", i), Span::call_site())).collect();
                            let args: Vec<Expr> = m.args.iter().cloned().collect();
                            m.args = ids.iter().map(|i| -> Expr { parse_quote!(#i) }).collect();
                            let call = Expr::MethodCall(m.clone());
                            self.cx.count("x.f(g(x)) -> { let a = g(x); x.f(a) } (two-phase borrow)");
                            *e = parse_quote!({ #(let #ids = #args;)* #call });
                            return;
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let s = plain(&p.path);
                    for t in ["u8", "u16", "u32", "u64", "f32"] {
                        for m in ["from_le_bytes", "from_be_bytes", "from_bits"] {
                            if s == format!("{}::{}", t, m) {
                                let i = Ident::new(&format!("v_{}_{}", t, m), Span::call_site());
                                self.cx.count(&format!("{} -> {}", s, i));
                                p.path = parse_quote!(crate::vshim::#i);
                            }
                        }
                    }
                    if c.args.len() == 1 && s == "String::from" {
                        self.cx.count("String::from(x) -> VInto::v_into(x)");
                        p.path = parse_quote!(crate::vshim::VInto::<String>::v_into);
                    } else if s == "mem::take" || s == "std::mem::take" || s == "core::mem::take" {
                        self.cx.count("mem::take -> v_take");
                        p.path = parse_quote!(crate::vshim::v_take);
                    }
                    if s == "Vec::from" || s == "std::vec::Vec::from" || s == "alloc::vec::Vec::from" {
                        self.cx.count("Vec::from(x) -> v_vec_from(x)");
                        p.path = parse_quote!(crate::vshim::v_vec_from);
                    }
                    if c.args.len() == 2 && ["cmp::min", "std::cmp::min", "core::cmp::min", "cmp::max", "std::cmp::max", "core::cmp::max"].contains(&s.as_str()) {
                        let (a, b) = (c.args[0].clone(), c.args[1].clone());
                        let m = Ident::new(if s.ends_with("min") { "min" } else { "max" }, Span::call_site());
                        self.cx.count("cmp::min(a, b) -> (a).min(b)");
                        *e = parse_quote!((#a).#m(#b));
                        return;
                    }
                    if s == "Clone::clone" || s == "core::clone::Clone::clone" {
                        self.cx.count("Clone::clone(x) -> v_clone");
                        let a = c.args[0].clone();
                        *e = parse_quote!(crate::vshim::v_clone_fn(#a));
                    }
                }
            }
            Expr::Closure(c) => {
                for (i, p) in c.inputs.iter_mut().enumerate() {
                    if let Pat::Wild(_) = p {
                        let id = Ident::new(&format!("_v_arg{}", i), Span::call_site());
                        *p = parse_quote!(#id);
                        self.cx.count("closure |_| -> |_v_argN|");
                    }
                }
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                let v = b.value();
                let n: Vec<LitInt> = v.iter().map(|x| LitInt::new(&format!("{}u8", x), Span::call_site())).collect();
                self.cx.count("byte string literal -> array literal");
                *e = parse_quote!((&[#(#n),*]));
            }
            _ => {}
        }
        let _ = self.in_const;
    }
}

/// what a loop contract is instantiated with
pub struct LoopInfo {
    /// the expression for the number of completed iterations
    pub index: String,
    /// extra lines of the loop contract
    pub extra: String,
    /// normalised header
    pub header: String,
    /// iterates over the elements of a collection
    pub iter: bool,
}
/// the local variable of a block whose initialiser begins with `init`
pub fn local_with(b: &Block, init: &str) -> Option<String> {
    let want: String = init.split_whitespace().collect();
    for s in &b.stmts {
        if let Stmt::Local(l) = s {
            let p = match &l.pat {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let (Pat::Ident(p), Some(i)) = (p, &l.init) {
                let t: String = i.expr.to_token_stream().to_string().split_whitespace().collect();
                if t.starts_with(&want) {
                    return Some(p.ident.to_string());
                }
            }
        }
    }
    None
}
pub fn rename_word(t: &str, a: &str, b: &str) -> String {
    let mut r = String::new();
    let mut w = String::new();
    for c in t.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
            continue;
        }
        r.push_str(if w == a { b } else { &w });
        w.clear();
        if c != '\0' {
            r.push(c);
        }
    }
    r
}
struct Marker {
    v: Vec<LoopInfo>,
}
impl VisitMut for Marker {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let n = self.v.len();
        let b = match e {
            Expr::ForLoop(l) => {
                let x = l.expr.clone();
                let k = LitInt::new(&n.to_string(), Span::call_site());
                l.expr = parse_quote!(__iter_marker!(#k, #x));
                l.label = None;
                self.v.push(LoopInfo { index: format!("it{}.index@", n), extra: String::new(), header: format!("for {}", x.to_token_stream()), iter: !matches!(*x, Expr::Range(_)) });
                Some(&mut l.body)
            }
            Expr::While(l) => {
                let mut i = LoopInfo { index: "0".into(), extra: String::new(), header: format!("while {}", l.cond.to_token_stream()), iter: false };
                if let Expr::Binary(b) = &*l.cond {
                    if let (Expr::Path(p), BinOp::Lt(_) | BinOp::Ne(_)) = (&*b.left, &b.op) {
                        let (p, e) = (p.to_token_stream().to_string(), b.right.to_token_stream().to_string());
                        i.index = format!("({} as int)", p);
                        i.extra = format!("invariant_while {} <= {},\ndecreases {} - {},", p, e, e, p);
                    }
                }
                self.v.push(i);
                Some(&mut l.body)
            }
            Expr::Loop(l) => {
                self.v.push(LoopInfo { index: "0".into(), extra: String::new(), header: "loop".into(), iter: false });
                Some(&mut l.body)
            }
            _ => None,
        };
        if let Some(b) = b {
            let n = LitInt::new(&n.to_string(), Span::call_site());
            b.stmts.insert(0, parse_quote!(__loop_marker!(#n);));
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
pub fn mark_loops(b: &mut Block) -> Vec<LoopInfo> {
    let mut m = Marker { v: vec![] };
    m.visit_block_mut(b);
    m.v
}

/// names called and operators used by a body, as verified (for judging what a failed proof means)
struct Uses {
    v: std::collections::BTreeSet<String>,
}
impl<'a> syn::visit::Visit<'a> for Uses {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::MethodCall(m) => {
                self.v.insert(format!(".{}", m.method));
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.len();
                    let s: Vec<String> = p.path.segments.iter().skip(n.saturating_sub(2)).map(|s| s.ident.to_string()).collect();
                    self.v.insert(s.join("::"));
                } else {
                    self.v.insert("call of an expression".into());
                }
            }
            Expr::Closure(_) => {
                self.v.insert("closure".into());
            }
            Expr::Binary(b) => {
                let op = match b.op {
                    BinOp::BitAnd(_) | BinOp::BitAndAssign(_) => "&",
                    BinOp::BitOr(_) | BinOp::BitOrAssign(_) => "|",
                    BinOp::BitXor(_) | BinOp::BitXorAssign(_) => "^",
                    BinOp::Shl(_) | BinOp::ShlAssign(_) => "<<",
                    BinOp::Shr(_) | BinOp::ShrAssign(_) => ">>",
                    BinOp::Mul(_) | BinOp::MulAssign(_) => "*",
                    BinOp::Div(_) | BinOp::DivAssign(_) => "/",
                    BinOp::Rem(_) | BinOp::RemAssign(_) => "%",
                    _ => "",
                };
                if !op.is_empty() {
                    let k = |e: &Expr| match int_lit(e) {
                        Some((v, _)) => v.to_string(),
                        None => match e {
                            Expr::Path(p) if last(&p.path).chars().all(|c| !c.is_lowercase()) => last(&p.path),
                            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => format!("!{}", u.expr.to_token_stream()),
                            _ => "x".into(),
                        },
                    };
                    self.v.insert(format!("{} {} {}", k(&b.left), op, k(&b.right)));
                }
            }
            Expr::Unsafe(_) => {
                self.v.insert("unsafe".into());
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        let n = last(&m.path);
        if n == "__iter_marker" {
            let ts = m.tokens.clone().into_iter().skip(2).collect::<proc_macro2::TokenStream>();
            if let Ok(e) = syn::parse2::<Expr>(ts) {
                self.visit_expr(&e);
            }
        }
    }
}
pub fn uses(b: &Block) -> Vec<String> {
    let mut u = Uses { v: Default::default() };
    syn::visit::Visit::visit_block(&mut u, b);
    u.v.into_iter().collect()
}

/// (0, |a, b| a + b), with b possibly dereferenced or bound by the pattern &b
fn is_sum_fold(args: &syn::punctuated::Punctuated<Expr, Token![,]>) -> bool {
    let zero = matches!(&args[0], Expr::Lit(l) if matches!(&l.lit, Lit::Int(i) if i.base10_digits() == "0"));
    let Expr::Closure(c) = &args[1] else { return false };
    if !zero || c.inputs.len() != 2 {
        return false;
    }
    let name = |p: &Pat| -> Option<String> {
        let p = match p {
            Pat::Type(t) => &t.pat,
            p => p,
        };
        match p {
            Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.to_string()),
            Pat::Reference(r) => match &*r.pat {
                Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        }
    };
    let (Some(a), Some(b)) = (name(&c.inputs[0]), name(&c.inputs[1])) else { return false };
    let mut body = &*c.body;
    loop {
        match body {
            Expr::Paren(p) => body = &p.expr,
            Expr::Block(k) if k.block.stmts.len() == 1 => match &k.block.stmts[0] {
                Stmt::Expr(x, None) => body = x,
                _ => return false,
            },
            _ => break,
        }
    }
    let Expr::Binary(x) = body else { return false };
    if !matches!(x.op, BinOp::Add(_)) {
        return false;
    }
    let var = |e: &Expr| -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => match &*u.expr {
                Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                _ => None,
            },
            _ => None,
        }
    };
    let (Some(l), Some(r)) = (var(&x.left), var(&x.right)) else { return false };
    a != b && ((l == a && r == b) || (l == b && r == a))
}

/// the local variable a place expression x, x.f, x.f.g starts from
fn root_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root_ident(&f.base),
        _ => None,
    }
}
fn mentions(t: proc_macro2::TokenStream, name: &str) -> bool {
    t.into_iter().any(|x| match x {
        proc_macro2::TokenTree::Ident(i) => i == name,
        proc_macro2::TokenTree::Group(g) => mentions(g.stream(), name),
        _ => false,
    })
}

/// `f.write_fmt(format_args!("a{0}b", x))` with plain `{}` only: write_str("a"), Display of x, write_str("b").
/// Any other format is left alone (and is then not in the verifier's subset).
fn write_fmt(m: &ExprMethodCall) -> Option<Expr> {
    if m.method != "write_fmt" || m.args.len() != 1 || !matches!(&*m.receiver, Expr::Path(_)) {
        return None;
    }
    let mac = match &m.args[0] {
        Expr::Macro(x) if last(&x.mac.path) == "format_args" => &x.mac,
        _ => return None,
    };
    let args: Punctuated<Expr, Token![,]> = mac.parse_body_with(Punctuated::parse_terminated).ok()?;
    let lit = match args.first()? {
        Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) => l.value(),
        _ => return None,
    };
    let args: Vec<Expr> = args.into_iter().skip(1).collect();
    if args.iter().any(|a| matches!(a, Expr::Assign(_))) {
        return None;
    }
    enum P { S(String), A(Expr) }
    let mut out: Vec<P> = vec![];
    let (mut cur, mut next) = (String::new(), 0usize);
    let mut it = lit.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                cur.push('{');
            }
            '}' => {
                if it.next() != Some('}') {
                    return None;
                }
                cur.push('}');
            }
            '{' => {
                let mut n = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => n.push(c),
                    }
                }
                if !cur.is_empty() {
                    out.push(P::S(std::mem::take(&mut cur)));
                }
                let a = if n.is_empty() {
                    next += 1;
                    args.get(next - 1)?.clone()
                } else if let Ok(i) = n.parse::<usize>() {
                    args.get(i)?.clone()
                } else {
                    let i = syn::parse_str::<Ident>(&n).ok()?;
                    parse_quote!(#i)
                };
                out.push(P::A(a));
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() || out.is_empty() {
        out.push(P::S(cur));
    }
    let f = &m.receiver;
    let mut acc: Option<Expr> = None;
    for p in out.into_iter().rev() {
        let w: Expr = match p {
            P::S(s) => parse_quote!(#f.write_str(#s)),
            P::A(a) => parse_quote!(core::fmt::Display::fmt(&(#a), #f)),
        };
        acc = Some(match acc {
            None => w,
            Some(r) => parse_quote!(match #w { Ok(()) => #r, Err(e) => Err(e) }),
        });
    }
    acc
}
