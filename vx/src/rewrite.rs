//! Mechanical rewriting of the real code into the subset Verus accepts.
//! Every rule is purely syntactic and listed in DESIGN.md (R1..R12).
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone)]
pub struct Cfg {
    /// fn name -> argument positions passed by `&mut` after interior mutability is made explicit
    pub mutargs: HashMap<String, Vec<usize>>,
    /// method name -> list of (field, mutable) it takes instead of `self`
    pub split: HashMap<String, Vec<(String, bool)>>,
    /// fields that are DashMaps (iteration yields guards with key()/value())
    pub dashfields: HashSet<String>,
    /// names under contract in this unit (not inlined)
    pub contracted: HashSet<String>,
    // methods of objects behind `dyn` whose effects are recorded in the ghost world
    pub world: HashSet<String>,
    /// helper functions found in the source files, by name
    pub helpers: HashMap<String, Helper>,
    pub subst_calls: HashMap<String, String>,
    pub collect_types: HashMap<String, String>,
    pub keep_paths: HashSet<String>,
    /// fields that are mapped files
    pub mapped: HashSet<String>,
}
#[derive(Clone)]
pub struct Helper {
    pub sig: Signature,
    pub block: Block,
}

pub struct Rw<'a> {
    pub cfg: &'a Cfg,
    pub counts: BTreeMap<&'static str, usize>,
    pub errors: Vec<String>,
    pub uid: usize,
    pub self_split: Option<Vec<(String, bool)>>,
    pub inlined: Vec<String>,
    inline_stack: Vec<String>,
    pub fname: String,
    pub readmut: HashSet<String>,
    // locals that start as true or false
    boolvars: HashSet<String>,
    // locals that are raw pointers
    rawvars: HashSet<String>,
}

fn path_last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn is_path_call(e: &Expr, names: &[&str]) -> bool {
    if let Expr::Path(p) = e {
        let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let j = s.join("::");
        return names.iter().any(|n| j == *n || j.ends_with(&format!("::{}", n)));
    }
    false
}
fn lowercase_mod(s: &str) -> bool {
    s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false)
}
const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i32", "i64", "bool", "str"];

pub fn is_log_macro(p: &Path) -> bool {
    let n = path_last(p);
    let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
    first == "log"
        || first == "tracing"
        || ["println", "eprintln", "print", "eprint", "debug", "info", "warn", "error", "trace", "dbg"].contains(&n.as_str())
}

fn strip_parens(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_parens(&p.expr),
        Expr::Group(p) => strip_parens(&p.expr),
        _ => e,
    }
}

struct HasReturn(bool);
impl<'ast> syn::visit::Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
}
pub fn has_return(b: &Block) -> bool {
    use syn::visit::Visit;
    let mut h = HasReturn(false);
    h.visit_block(b);
    h.0
}

const ITER_SRC: &[&str] = &["iter", "into_iter", "keys", "values", "iter_mut", "drain", "values_mut"];
const OPT_SRC: &[&str] = &[
    "get", "first", "last", "get_mut", "as_ref", "last_key_value", "first_key_value", "find", "next", "pop_first", "min", "max", "position", "ok", "remove",
];

fn expr_is_iter_chain(e: &Expr) -> bool {
    match strip_parens(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if ITER_SRC.contains(&n.as_str()) {
                return true;
            }
            if OPT_SRC.contains(&n.as_str()) {
                return false;
            }
            if ["map", "filter", "filter_map", "enumerate", "cloned", "copied", "rev", "take", "skip", "flatten", "flat_map", "zip", "chain", "sorted", "unique"].contains(&n.as_str()) {
                return expr_is_iter_chain(&m.receiver);
            }
            false
        }
        _ => false,
    }
}

/// The source of an iterator chain mentions one of the DashMap fields directly.
fn dash_source(e: &Expr, cfg: &Cfg) -> bool {
    match strip_parens(e) {
        Expr::Field(f) => match &f.member {
            Member::Named(n) => cfg.dashfields.contains(&n.to_string()),
            _ => false,
        },
        Expr::Path(p) => cfg.dashfields.contains(&path_last(&p.path)),
        Expr::Reference(r) => dash_source(&r.expr, cfg),
        _ => false,
    }
}

impl<'a> Rw<'a> {
    pub fn new(cfg: &'a Cfg, fname: &str) -> Self {
        Rw {
            cfg,
            counts: BTreeMap::new(),
            errors: vec![],
            uid: 0,
            self_split: None,
            inlined: vec![],
            inline_stack: vec![],
            fname: fname.to_string(),
            readmut: HashSet::new(),
            boolvars: HashSet::new(),
            rawvars: HashSet::new(),
        }
    }
    fn hit(&mut self, r: &'static str) {
        *self.counts.entry(r).or_insert(0) += 1;
    }
    fn err(&mut self, s: impl Into<String>) {
        self.errors.push(s.into());
    }
    fn fresh(&mut self) -> usize {
        self.uid += 1;
        self.uid
    }

    fn simplify_path(&mut self, p: &mut Path) {
        // R2: drop module prefixes
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() < 2 {
            return;
        }
        let full = segs.join("::");
        for (k, v) in [
            ("spl_token::id", "spl_token_id"),
            ("spl_token::ID", "SPL_TOKEN_ID"),
            ("spl_token_2022::id", "spl_token_2022_id"),
            ("spl_token_2022::ID", "SPL_TOKEN_2022_ID"),
            ("spl_token::state::Account", "SplTokenAccount"),
            ("spl_token::state::Mint", "SplTokenMint"),
            ("spl_token::state::Multisig", "SplTokenMultisig"),
            ("spl_token_2022::state::Account", "SplToken2022Account"),
            ("spl_token_2022::state::Mint", "SplToken2022Mint"),
            ("spl_token_2022::state::Multisig", "SplToken2022Multisig"),
            ("spl_token::state::AccountState", "SplAccountState"),
            ("spl_token_2022::state::AccountState", "Spl2022AccountState"),
            ("anyhow::Result", "AnyResult"),
            ("spl_token_2022::instruction::MAX_SIGNERS", "MAX_SIGNERS"),
            ("spl_token::instruction::MAX_SIGNERS", "MAX_SIGNERS"),
            ("bs58::decode", "bs58_decode"),
            ("lz4::block::compress", "lz4_compress"),
            ("lz4::block::decompress", "lz4_decompress"),
            ("zstd::bulk::compress", "zstd_compress"),
            ("zstd::bulk::decompress", "zstd_decompress"),
            ("bincode::serialize", "bincode_serialize"),
            ("bincode::deserialize", "bincode_deserialize"),
            ("io::Result", "IoResult"),
            ("std::io::Result", "IoResult"),
        ] {
            if full == k || full.starts_with(&format!("{}::", k)) {
                let n = k.split("::").count();
                let mut new: punctuated::Punctuated<PathSegment, Token![::]> = Default::default();
                let mut first: PathSegment = parse_str(v).unwrap();
                first.arguments = p.segments[n - 1].arguments.clone();
                new.push(first);
                for s in p.segments.iter().skip(n) {
                    new.push(s.clone());
                }
                p.segments = new;
                p.leading_colon = None;
                self.hit("R2 module prefix dropped");
                return;
            }
        }
        if segs.len() >= 2 && segs[segs.len() - 2] == "COption" {
            let last = p.segments.last().unwrap().clone();
            p.segments = std::iter::once(last).collect();
            p.leading_colon = None;
            self.hit("R2 module prefix dropped");
            return;
        }
        if PRIMS.contains(&segs[0].as_str()) {
            return;
        }
        let mut start = 0;
        while start + 1 < segs.len() && lowercase_mod(&segs[start]) {
            start += 1;
        }
        if start > 0 {
            let new = p.segments.iter().skip(start).cloned().collect();
            p.segments = new;
            p.leading_colon = None;
            self.hit("R2 module prefix dropped");
        }
    }

    fn lock_kind(e: &Expr) -> Option<(&'static str, Expr)> {
        // X.read().unwrap() / write / lock
        if let Expr::MethodCall(u) = strip_parens(e) {
            if (u.method == "unwrap" || u.method == "expect") && u.args.len() <= 1 {
                if let Expr::MethodCall(l) = strip_parens(&u.receiver) {
                    if l.args.is_empty() {
                        let k = match l.method.to_string().as_str() {
                            "read" => "read",
                            "write" => "write",
                            "lock" => "lock",
                            _ => return None,
                        };
                        return Some((k, (*l.receiver).clone()));
                    }
                }
            }
        }
        None
    }

    fn field_name(e: &Expr) -> Option<String> {
        if let Expr::Field(f) = strip_parens(e) {
            if let Member::Named(n) = &f.member {
                return Some(n.to_string());
            }
        }
        if let Expr::Path(p) = strip_parens(e) {
            return Some(path_last(&p.path));
        }
        None
    }

    /// R4: match on the entry API -> contains_key test plus plain operations
    fn try_entry_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        let Expr::MethodCall(mc) = strip_parens(&m.expr) else { return None };
        if mc.method != "entry" || mc.args.len() != 1 || m.arms.len() != 2 {
            return None;
        }
        let map = (*mc.receiver).clone();
        let key = mc.args[0].clone();
        let mut occ_arm = None;
        let mut vac_arm = None;
        for a in &m.arms {
            if a.guard.is_some() {
                return None;
            }
            let Pat::TupleStruct(ts) = &a.pat else { return None };
            let kind = path_last(&ts.path);
            let var = match ts.elems.first() {
                Some(Pat::Ident(i)) => Some(i.ident.to_string()),
                Some(Pat::Wild(_)) => None,
                _ => return None,
            };
            match kind.as_str() {
                "Occupied" => occ_arm = Some((var, (*a.body).clone())),
                "Vacant" => vac_arm = Some((var, (*a.body).clone())),
                _ => return None,
            }
        }
        let (ov, mut ob) = occ_arm?;
        let (vv, mut vb) = vac_arm?;
        let n = self.fresh();
        let k = format_ident!("__k{}", n);
        let mut er = EntryRw { var: ov, key: k.clone(), map: map.clone(), ok: true };
        er.visit_expr_mut(&mut ob);
        let mut er2 = EntryRw { var: vv, key: k.clone(), map: map.clone(), ok: true };
        er2.visit_expr_mut(&mut vb);
        if !er.ok || !er2.ok {
            self.err("entry variable used in an unsupported way");
        }
        self.hit("R4 entry API");
        let e: Expr = parse_quote!({ let #k = #key; if #map.contains_key(&#k) { #ob } else { #vb } });
        Some(e)
    }

    fn opt_match_some(&mut self, recv: Expr, pat: Pat, some: Expr, none: Expr) -> Expr {
        self.hit("R5 Option combinator");
        parse_quote!(match #recv { Some(#pat) => #some, None => #none })
    }

    /// X.as_ptr() as *const T, X.as_ptr().cast::<T>(): the slice X and T
    fn raw_ptr_of(e: &Expr) -> Option<(Expr, Type)> {
        fn base(e: &Expr) -> Option<Expr> {
            match strip_parens(e) {
                Expr::MethodCall(m) if m.method == "as_ptr" && m.args.is_empty() => Some((*m.receiver).clone()),
                _ => None,
            }
        }
        match strip_parens(e) {
            Expr::Cast(c) => match c.ty.as_ref() {
                Type::Ptr(p) if p.mutability.is_none() => Some((base(&c.expr)?, (*p.elem).clone())),
                _ => None,
            },
            Expr::MethodCall(m) if m.method == "cast" => match m.turbofish.as_ref()?.args.first()? {
                GenericArgument::Type(t) => Some((base(&m.receiver)?, t.clone())),
                _ => None,
            },
            _ => None,
        }
    }

    /// R13: reads of raw memory become calls whose preconditions are what makes them defined
    fn raw_memory(&mut self, e: &mut Expr) {
        if let Expr::Unsafe(u) = e {
            let b = u.block.clone();
            self.hit("R13 raw memory");
            *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
        }
        if let Expr::Call(c) = e {
            if is_path_call(&c.func, &["from_raw_parts"]) && c.args.len() == 2 {
                if let Expr::MethodCall(m) = strip_parens(&c.args[0]) {
                    if m.method == "as_ptr" {
                        let (x, n) = ((*m.receiver).clone(), c.args[1].clone());
                        self.hit("R13 raw memory");
                        *e = parse_quote!(vx_raw_slice(#x, #n));
                        return;
                    }
                }
            }
            // copying all of a reader into a mapped area
            if is_path_call(&c.func, &["io::copy"]) && c.args.len() == 2 {
                let strip = |e: &Expr| match strip_parens(e) {
                    Expr::Reference(r) => (*r.expr).clone(),
                    x => x.clone(),
                };
                if let (Expr::MethodCall(t), Expr::MethodCall(m)) = (strip(&c.args[0]), strip(&c.args[1])) {
                    if t.method == "take" && t.args.len() == 1 && m.method == "as_mut" {
                        let (r, n, d) = ((*t.receiver).clone(), t.args[0].clone(), (*m.receiver).clone());
                        self.hit("R13 raw memory");
                        *e = parse_quote!(vx_copy_into(#r, #n, &mut #d));
                        return;
                    }
                }
            }
            if let Expr::Path(p) = c.func.as_ref() {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 2 && PRIMS.contains(&segs[0].as_str()) && segs[1] == "try_from" && c.args.len() == 1 {
                    // a checked conversion, as an Option
                    let (t, a) = (format_ident!("vx_try_{}", segs[0]), c.args[0].clone());
                    self.hit("R5 Option combinator");
                    *e = parse_quote!(#t(#a));
                    return;
                }
                if segs.len() == 2 && segs[0] == "u64" && segs[1] == "from_str" && c.args.len() == 1 {
                    let a = c.args[0].clone();
                    *e = parse_quote!(vx_parse_u64(#a));
                    return;
                }
            }
        }
        if let Some((x, t)) = Self::raw_ptr_of(e) {
            self.hit("R13 raw memory");
            *e = parse_quote!(vx_ptr::<#t>(#x));
            return;
        }
        if let Expr::Reference(r) = e {
            if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = strip_parens(&r.expr) {
                let raw = match strip_parens(expr) {
                    Expr::Path(p) => self.rawvars.contains(&path_last(&p.path)),
                    x => Self::raw_ptr_of(x).is_some(),
                };
                if raw {
                    let x = (**expr).clone();
                    self.hit("R13 raw memory");
                    *e = parse_quote!(vx_deref(#x));
                    return;
                }
            }
            if let Expr::Index(ix) = strip_parens(&r.expr) {
                if let (Expr::Field(f), Expr::Range(g)) = (strip_parens(&ix.expr), strip_parens(&ix.index)) {
                    if let (Member::Named(n), Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&f.member, &g.start, &g.end, &g.limits) {
                        if self.cfg.mapped.contains(&n.to_string()) {
                            let (m, a, b) = ((*ix.expr).clone(), (**a).clone(), (**b).clone());
                            self.hit("R13 raw memory");
                            *e = parse_quote!(#m.vx_area(#a, #b));
                            return;
                        }
                    }
                }
            }
        }
    }

    /// std::iter::repeat_with(make).take_while(go_on).flatten(): all its items, in order
    fn try_repeat(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(f) = strip_parens(e) else { return None };
        if f.method != "flatten" {
            return None;
        }
        let Expr::MethodCall(t) = strip_parens(&f.receiver) else { return None };
        if t.method != "take_while" || t.args.len() != 1 {
            return None;
        }
        let Expr::Call(c) = strip_parens(&t.receiver) else { return None };
        if !is_path_call(&c.func, &["repeat_with"]) || c.args.len() != 1 {
            return None;
        }
        let Expr::Closure(mk) = strip_parens(&c.args[0]) else { return None };
        let (p, cond) = Self::closure_parts(&t.args[0])?;
        let body = (*mk.body).clone();
        let n = self.fresh();
        let acc = format_ident!("__acc_{}_", n);
        let id = self.fresh() as u64;
        let lit = LitInt::new(&id.to_string(), proc_macro2::Span::call_site());
        self.hit("R6 iterator chain");
        Some(parse_quote!({
            let mut #acc = Vec::new();
            loop {
                __vx_loop!(#lit);
                let __item = #body;
                let __c = { let #p = &__item; #cond };
                if !__c { break; }
                if let Some(__y) = __item { #acc.push(__y); }
            }
            #acc
        }))
    }

    /// the value a lock guard stands for
    fn place_of_guard(&mut self, g: Expr) -> Expr {
        match strip_parens(&g) {
            Expr::Path(_) => parse_quote!(*#g),
            _ => g,
        }
    }

    fn closure_parts(e: &Expr) -> Option<(Pat, Expr)> {
        match strip_parens(e) {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                Some((p, (*c.body).clone()))
            }
            Expr::Closure(_) => None,
            Expr::Path(p) => {
                // function path used as a closure
                let f = p.clone();
                Some((parse_quote!(__a), parse_quote!(#f(__a))))
            }
            _ => None,
        }
    }

    fn is_chain_terminal(name: &str) -> bool {
        ["collect", "collect_vec", "all", "any", "count", "for_each", "find", "position", "sum"].contains(&name)
    }

    /// R6: iterator chain with terminal -> loop
    fn try_chain(&mut self, e: &Expr, target_ty: Option<&Type>) -> Option<Expr> {
        let Expr::MethodCall(t) = strip_parens(e) else { return None };
        let tname = t.method.to_string();
        if !Self::is_chain_terminal(&tname) || !expr_is_iter_chain(&t.receiver) {
            return None;
        }
        // peel adapters
        let mut adapters: Vec<ExprMethodCall> = vec![];
        let mut cur = (*t.receiver).clone();
        loop {
            let c = strip_parens(&cur).clone();
            match c {
                Expr::MethodCall(m) => {
                    let n = m.method.to_string();
                    if ITER_SRC.contains(&n.as_str()) {
                        cur = Expr::MethodCall(m);
                        break;
                    }
                    adapters.push(m.clone());
                    cur = (*m.receiver).clone();
                }
                _ => return None,
            }
        }
        adapters.reverse();
        let n = self.fresh();
        let it = format_ident!("__it_{}_", n);
        let acc = format_ident!("__acc_{}_", n);
        // adapters that are applied on the source directly
        let Expr::MethodCall(srcm) = &cur else { return None };
        let dash = dash_source(&srcm.receiver, self.cfg) && srcm.method == "iter";
        let mut src: Expr = self.mk_source(&cur);
        let bind = Self::bind_source(&mut src, n);
        while let Some(a) = adapters.first() {
            let an = a.method.to_string();
            match an.as_str() {
                "rev" | "enumerate" => {
                    let m = a.method.clone();
                    src = parse_quote!(#src.#m());
                    adapters.remove(0);
                }
                "take" | "skip" => {
                    let m = a.method.clone();
                    let ar = &a.args;
                    src = parse_quote!(#src.#m(#ar));
                    adapters.remove(0);
                }
                _ => break,
            }
        }
        if tname == "position" {
            if !adapters.is_empty() {
                self.err("position after an iterator adapter is not supported");
                return None;
            }
            src = parse_quote!(#src.enumerate());
        }
        let mut item = format_ident!("__x_{}_", n);
        let first_item = item.clone();
        // build the innermost action
        let mut stack: Vec<Box<dyn FnOnce(Block) -> Block>> = vec![];
        let mut guards_dash = dash;
        for a in adapters {
            let an = a.method.to_string();
            let next = format_ident!("__x_{}_{}", n, stack.len() + 1);
            let prev = item.clone();
            match an.as_str() {
                "filter" => {
                    let (p, mut b) = Self::closure_parts(&a.args[0])?;
                    if guards_dash {
                        dash_rewrite(&p, &mut b);
                    }
                    stack.push(Box::new(move |inner: Block| {
                        parse_quote!({ let __c = { let #p = &#prev; #b }; if __c #inner })
                    }));
                }
                "map" => {
                    let (p, mut b) = Self::closure_parts(&a.args[0])?;
                    if guards_dash {
                        dash_rewrite(&p, &mut b);
                        guards_dash = false;
                    }
                    let nx = next.clone();
                    stack.push(Box::new(move |inner: Block| {
                        let st = &inner.stmts;
                        parse_quote!({ let #nx = { let #p = #prev; #b }; #(#st)* })
                    }));
                    item = next;
                }
                "filter_map" => {
                    let (p, mut b) = Self::closure_parts(&a.args[0])?;
                    if guards_dash {
                        dash_rewrite(&p, &mut b);
                        guards_dash = false;
                    }
                    let nx = next.clone();
                    stack.push(Box::new(move |inner: Block| {
                        parse_quote!({ let __o = { let #p = #prev; #b }; if let Some(#nx) = __o #inner })
                    }));
                    item = next;
                }
                "cloned" | "copied" => {
                    let nx = next.clone();
                    stack.push(Box::new(move |inner: Block| {
                        let st = &inner.stmts;
                        parse_quote!({ let #nx = (*#prev).clone(); #(#st)* })
                    }));
                    item = next;
                }
                "flat_map" | "flatten" => {
                    // a nested loop over the inner collection
                    let (p, b): (Pat, Expr) = if an == "flatten" { (parse_quote!(__f), parse_quote!(__f.iter())) } else { Self::closure_parts(&a.args[0])? };
                    let mut inner_e = match strip_parens(&b) {
                        Expr::Block(bl) if bl.block.stmts.len() == 1 => match &bl.block.stmts[0] {
                            Stmt::Expr(x, None) => x.clone(),
                            _ => b.clone(),
                        },
                        _ => b.clone(),
                    };
                    let mut copied = false;
                    if let Expr::MethodCall(m) = strip_parens(&inner_e) {
                        if m.method == "copied" || m.method == "cloned" {
                            copied = true;
                            inner_e = (*m.receiver).clone();
                        }
                    }
                    let is_src = matches!(strip_parens(&inner_e), Expr::MethodCall(m) if ITER_SRC.contains(&m.method.to_string().as_str()));
                    if !is_src || guards_dash {
                        self.err("flat_map over something else than a plain iterator is not supported");
                        return None;
                    }
                    let isrc = self.mk_source(&inner_e);
                    let n2 = self.fresh();
                    let it2 = format_ident!("__it_{}_", n2);
                    let lit2 = LitInt::new(&n2.to_string(), proc_macro2::Span::call_site());
                    let leave: Vec<Stmt> = match tname.as_str() {
                        "any" => vec![parse_quote!(if #acc { break; })],
                        "all" => vec![parse_quote!(if !#acc { break; })],
                        "find" | "position" => {
                            self.err("find after flat_map is not supported");
                            return None;
                        }
                        _ => vec![],
                    };
                    let nx = next.clone();
                    let raw = format_ident!("__y_{}", n2);
                    let bind: Expr = if copied { parse_quote!((*#raw).clone()) } else { parse_quote!(#raw) };
                    stack.push(Box::new(move |inner: Block| {
                        let st = &inner.stmts;
                        parse_quote!({
                            let mut #it2 = { let #p = #prev; #isrc };
                            loop {
                                __vx_loop!(#lit2);
                                match #it2.next() { None => { break; } Some(#raw) => { let #nx = #bind; #(#st)* } }
                            }
                            #(#leave)*
                        })
                    }));
                    item = next;
                }
                _ => {
                    self.err(format!("iterator adapter .{}() not supported", an));
                    return None;
                }
            }
        }
        self.hit("R6 iterator chain");
        let fin = item;
        let (init, inner, result): (Option<Stmt>, Block, Expr) = match tname.as_str() {
            "collect" | "collect_vec" | "sum" | "count" => {
                let ty = if tname == "collect_vec" {
                    "Vec".to_string()
                } else {
                    let tf = t.turbofish.as_ref().and_then(|tf| tf.args.first().cloned());
                    let tyo: Option<Type> = match tf {
                        Some(GenericArgument::Type(ty)) => Some(ty),
                        _ => target_ty.cloned(),
                    };
                    match tyo {
                        Some(Type::Path(p)) => path_last(&p.path),
                        _ => self.cfg.collect_types.get(&self.fname).cloned().unwrap_or("Vec".into()),
                    }
                };
                if tname == "count" {
                    (Some(parse_quote!(let mut #acc: usize = 0;)), parse_quote!({ #acc = #acc + 1; }), parse_quote!(#acc))
                } else {
                    let tid = format_ident!("{}", ty);
                    let add: Stmt = match ty.as_str() {
                        "Vec" => parse_quote!(#acc.push(#fin);),
                        "VecDeque" => parse_quote!(#acc.push_back(#fin);),
                        "HashSet" | "BTreeSet" => parse_quote!({ #acc.insert(#fin); }),
                        "HashMap" | "BTreeMap" => parse_quote!({ #acc.insert(#fin.0, #fin.1); }),
                        _ => {
                            self.err(format!("collect into {} not supported", ty));
                            return None;
                        }
                    };
                    (Some(parse_quote!(let mut #acc = #tid::new();)), parse_quote!({ #add }), parse_quote!(#acc))
                }
            }
            "all" | "any" => {
                let (p, mut b) = Self::closure_parts(&t.args[0])?;
                if guards_dash {
                    dash_rewrite(&p, &mut b);
                }
                if tname == "all" {
                    (
                        Some(parse_quote!(let mut #acc = true;)),
                        parse_quote!({ let __c = { let #p = #fin; #b }; if !__c { #acc = false; break; } }),
                        parse_quote!(#acc),
                    )
                } else {
                    (
                        Some(parse_quote!(let mut #acc = false;)),
                        parse_quote!({ let __c = { let #p = #fin; #b }; if __c { #acc = true; break; } }),
                        parse_quote!(#acc),
                    )
                }
            }
            "find" => {
                let (p, b) = Self::closure_parts(&t.args[0])?;
                (
                    Some(parse_quote!(let mut #acc = None;)),
                    parse_quote!({ let __c = { let #p = &#fin; #b }; if __c { #acc = Some(#fin); break; } }),
                    parse_quote!(#acc),
                )
            }
            "position" => {
                let (p, b) = Self::closure_parts(&t.args[0])?;
                (
                    Some(parse_quote!(let mut #acc: Option<usize> = None;)),
                    parse_quote!({ let __c = { let #p = #fin.1; #b }; if __c { #acc = Some(#fin.0); break; } }),
                    parse_quote!(#acc),
                )
            }
            "for_each" => {
                let (p, b) = Self::closure_parts(&t.args[0])?;
                (None, parse_quote!({ let #p = #fin; #b; }), parse_quote!(()))
            }
            _ => return None,
        };
        let mut body = inner;
        for w in stack.into_iter().rev() {
            body = w(body);
        }
        let st = &body.stmts;
        let id = self.fresh() as u64;
        let lit = LitInt::new(&id.to_string(), proc_macro2::Span::call_site());
        let e: Expr = parse_quote!({
            #init
            #bind
            let mut #it = #src;
            loop {
                __vx_loop!(#lit);
                match #it.next() { None => { break; } Some(#first_item) => { #(#st)* } }
            }
            #result
        });
        Some(e)
    }

    /// a borrowed iterator over a temporary: the temporary gets a name, so that it lives as long
    /// as the loop
    fn bind_source(src: &mut Expr, n: usize) -> Option<Stmt> {
        let Expr::MethodCall(m) = src else { return None };
        if !["vx_iter", "vx_keys", "vx_values"].contains(&m.method.to_string().as_str()) {
            return None;
        }
        if !matches!(strip_parens(&m.receiver), Expr::Try(_)) {
            return None;
        }
        let s = format_ident!("__src_{}_", n);
        let r = (*m.receiver).clone();
        *m.receiver = parse_quote!(#s);
        Some(parse_quote!(let #s = #r;))
    }

    fn mk_source(&mut self, e: &Expr) -> Expr {
        let Expr::MethodCall(m) = strip_parens(e) else { return e.clone() };
        let name = m.method.to_string();
        let mut recv = (*m.receiver).clone();
        if let Some((_, inner)) = Self::lock_kind(&recv) {
            recv = inner;
            self.hit("R3 lock/Arc erased");
        }
        let meth = match name.as_str() {
            "iter" => "vx_iter",
            "into_iter" => "vx_into_iter",
            "keys" => "vx_keys",
            "values" => "vx_values",
            "drain" => "vx_drain",
            _ => {
                self.err(format!("iterator source .{}() not supported", name));
                "vx_iter"
            }
        };
        let id = format_ident!("{}", meth);
        parse_quote!(#recv.#id())
    }

    fn for_source(&mut self, e: &Expr) -> Option<Expr> {
        match strip_parens(e) {
            Expr::Reference(r) => {
                let x = &r.expr;
                Some(parse_quote!(#x.vx_iter()))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ITER_SRC.contains(&n.as_str()) {
                    Some(self.mk_source(e))
                } else if (n == "rev" || n == "enumerate" || n == "take" || n == "skip") && expr_is_iter_chain(&m.receiver) {
                    let s = self.for_source(&m.receiver)?;
                    let meth = &m.method;
                    let args = &m.args;
                    Some(parse_quote!(#s.#meth(#args)))
                } else if expr_is_iter_chain(e) {
                    // collect first, then iterate
                    let c: Expr = parse_quote!(#e.collect_vec());
                    let cc = self.try_chain(&c, None)?;
                    Some(parse_quote!((#cc).vx_into_iter()))
                } else {
                    Some(parse_quote!(#e.vx_into_iter()))
                }
            }
            Expr::Path(_) | Expr::Field(_) => Some(parse_quote!(#e.vx_into_iter())),
            _ => None,
        }
    }

    fn self_call_args(&mut self, name: &str, args: &punctuated::Punctuated<Expr, Token![,]>) -> Expr {
        let fields = self.cfg.split.get(name).cloned().unwrap_or_default();
        let mut out: Vec<Expr> = vec![];
        for (f, m) in &fields {
            let id = format_ident!("{}", f);
            let base: Expr = if let Some(ss) = &self.self_split {
                if !ss.iter().any(|(x, _)| x == f) {
                    self.errors.push(format!("split call {} needs field {}", name, f));
                }
                parse_quote!(*#id)
            } else {
                parse_quote!(self.#id)
            };
            out.push(if *m { parse_quote!(&mut #base) } else { parse_quote!(&#base) });
        }
        for a in args {
            out.push(a.clone());
        }
        let fid = format_ident!("{}", name);
        self.hit("R7 self split into fields");
        parse_quote!(Self::#fid(#(#out),*))
    }

    fn inline_call(&mut self, name: &str, args: Vec<Expr>, has_recv: bool) -> Option<Expr> {
        let h = self.cfg.helpers.get(name)?.clone();
        if self.inline_stack.contains(&name.to_string()) {
            self.err(format!("recursive helper {}", name));
            return None;
        }
        if has_return(&h.block) {
            self.err(format!("helper {} has no contract and early returns: cannot be inlined", name));
            return None;
        }
        let n = self.fresh();
        let mut stmts: Vec<Stmt> = vec![];
        let mut lets: Vec<(Ident, Expr, Pat, Type)> = vec![];
        let mut i = 0;
        for inp in &h.sig.inputs {
            match inp {
                FnArg::Receiver(_) => {
                    if !has_recv {
                        return None;
                    }
                }
                FnArg::Typed(t) => {
                    let tmp = format_ident!("__h{}_{}", n, i);
                    lets.push((tmp, args.get(i)?.clone(), (*t.pat).clone(), (*t.ty).clone()));
                    i += 1;
                }
            }
        }
        if i != args.len() {
            return None;
        }
        for (tmp, a, _, _) in &lets {
            stmts.push(parse_quote!(let #tmp = #a;));
        }
        for (tmp, _, p, ty) in &lets {
            // keep the declared parameter type so coercions happen as in the call
            stmts.push(parse_quote!(let #p: #ty = #tmp;));
        }
        let bs = &h.block.stmts;
        let mut blk: Block = parse_quote!({ #(#stmts)* #(#bs)* });
        self.inline_stack.push(name.to_string());
        self.visit_block_mut(&mut blk);
        self.inline_stack.pop();
        self.hit("R10 uncontracted helper inlined");
        self.inlined.push(name.to_string());
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk }))
    }

    fn fix_mutargs(&mut self, name: &str, args: &mut punctuated::Punctuated<Expr, Token![,]>) {
        if let Some(ix) = self.cfg.mutargs.get(name) {
            for i in ix {
                if let Some(a) = args.iter_mut().nth(*i) {
                    if let Expr::Reference(r) = a {
                        r.mutability = Some(Default::default());
                        *self.counts.entry("R7 interior mutability made explicit").or_insert(0) += 1;
                    }
                }
            }
        }
    }

    fn rewrite_macro(&mut self, m: &Macro) -> Option<Expr> {
        let n = path_last(&m.path);
        if is_log_macro(&m.path) {
            self.hit("R1 logging/metrics dropped");
            return Some(parse_quote!(()));
        }
        type Args = punctuated::Punctuated<Expr, Token![,]>;
        let parse_args = |m: &Macro| m.parse_body_with(Args::parse_terminated).ok();
        match n.as_str() {
            "__vx_loop" => None,
            "vec" => {
                if m.tokens.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                if let Ok(rep) = m.parse_body_with(|p: syn::parse::ParseStream| {
                    let a: Expr = p.parse()?;
                    p.parse::<Token![;]>()?;
                    let b: Expr = p.parse()?;
                    Ok((a, b))
                }) {
                    let (a, b) = rep;
                    return Some(parse_quote!(vx_vec_rep(#a, #b)));
                }
                let a = parse_args(m)?;
                let a: Vec<Expr> = a.into_iter().collect();
                let n = self.fresh();
                let v = format_ident!("__v{}", n);
                Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v }))
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(parse_quote!(vx_panic())),
            "assert_eq" | "debug_assert_eq" => {
                let a = parse_args(m)?;
                let (x, y) = (&a[0], &a[1]);
                Some(parse_quote!(vx_assert(#x == #y)))
            }
            "assert" | "debug_assert" => {
                let a = parse_args(m)?;
                let x = &a[0];
                Some(parse_quote!(vx_assert(#x)))
            }
            "format" => Some(parse_quote!(vx_string())),
            "u64_align" => {
                let a = parse_args(m)?;
                let x = &a[0];
                Some(parse_quote!(vx_u64_align(#x)))
            }
            "bail" => {
                self.hit("R12 bail! is an early error return");
                Some(parse_quote!(return Err(vx_any_error())))
            }
            "array_ref" => {
                let a = parse_args(m)?;
                let (x, o, l) = (&a[0], &a[1], &a[2]);
                self.hit("R9 arrayref macro");
                Some(parse_quote!(vx_aref::<#l>(#x, #o)))
            }
            "array_refs" => {
                let a = parse_args(m)?;
                let x = &a[0];
                let mut off: usize = 0;
                let mut parts: Vec<Expr> = vec![];
                for l in a.iter().skip(1) {
                    if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = l {
                        let v: usize = i.base10_parse().ok()?;
                        let o = LitInt::new(&off.to_string(), proc_macro2::Span::call_site());
                        parts.push(parse_quote!(vx_aref::<#l>(#x, #o)));
                        off += v;
                    } else {
                        return None;
                    }
                }
                self.hit("R9 arrayref macro");
                Some(parse_quote!((#(#parts),*)))
            }
            "matches" => {
                let (x, pat, guard) = m
                    .parse_body_with(|p: syn::parse::ParseStream| {
                        let x: Expr = p.parse()?;
                        p.parse::<Token![,]>()?;
                        let pat = Pat::parse_multi_with_leading_vert(p)?;
                        let g = if p.peek(Token![if]) {
                            p.parse::<Token![if]>()?;
                            Some(p.parse::<Expr>()?)
                        } else {
                            None
                        };
                        let _ = p.parse::<Option<Token![,]>>()?;
                        Ok((x, pat, g))
                    })
                    .ok()?;
                Some(match guard {
                    Some(g) => parse_quote!(match #x { #pat if #g => true, _ => false }),
                    None => parse_quote!(match #x { #pat => true, _ => false }),
                })
            }
            _ => {
                self.err(format!("macro {}! not supported", n));
                None
            }
        }
    }
}

fn is_ordering(e: &Expr) -> bool {
    matches!(strip_parens(e), Expr::Path(p) if ["Relaxed", "Acquire", "Release", "AcqRel", "SeqCst"].contains(&path_last(&p.path).as_str()))
}

/// replaces guard-style accesses on a DashMap iteration variable
fn dash_rewrite(p: &Pat, b: &mut Expr) {
    struct D(String);
    impl VisitMut for D {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::MethodCall(m) = e {
                if let Expr::Path(p) = strip_parens(&m.receiver) {
                    if p.path.is_ident(&self.0) {
                        let id = format_ident!("{}", self.0);
                        match m.method.to_string().as_str() {
                            "key" => {
                                *e = parse_quote!(#id.0);
                                return;
                            }
                            "value" => {
                                *e = parse_quote!(#id.1);
                                return;
                            }
                            "pair" => {
                                *e = parse_quote!(#id);
                                return;
                            }
                            "clone" => {
                                *e = parse_quote!((*#id.1).clone());
                                return;
                            }
                            _ => {
                                m.receiver = Box::new(parse_quote!(#id.1));
                                for a in m.args.iter_mut() {
                                    self.visit_expr_mut(a);
                                }
                                return;
                            }
                        }
                    }
                }
            }
            if let Expr::Field(f) = e {
                if let Expr::Path(p) = strip_parens(&f.base) {
                    if p.path.is_ident(&self.0) {
                        let id = format_ident!("{}", self.0);
                        let m = f.member.clone();
                        *e = parse_quote!(#id.1.#m);
                        return;
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    if let Pat::Ident(i) = p {
        D(i.ident.to_string()).visit_expr_mut(b);
    }
}

struct EntryRw {
    var: Option<String>,
    key: Ident,
    map: Expr,
    ok: bool,
}
impl VisitMut for EntryRw {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let Some(var) = self.var.clone() else { return };
        if let Expr::MethodCall(m) = e {
            if let Expr::Path(p) = strip_parens(&m.receiver) {
                if p.path.is_ident(&var) {
                    let (k, map) = (self.key.clone(), self.map.clone());
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    match m.method.to_string().as_str() {
                        "get" => *e = parse_quote!(#map.vx_get_ref(&#k)),
                        "get_mut" | "into_mut" | "into_ref" => *e = parse_quote!(#map.vx_get_mut_ref(&#k)),
                        "key" => *e = parse_quote!((&#k)),
                        "remove" => *e = parse_quote!(#map.vx_remove_val(&#k)),
                        "remove_entry" => *e = parse_quote!(#map.remove(&#k)),
                        "insert" => {
                            let a = &m.args[0];
                            *e = parse_quote!(#map.insert(#k, #a))
                        }
                        _ => self.ok = false,
                    }
                    return;
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(&var) {
                self.ok = false;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // drop(occ) is handled by R1
        b.stmts.retain(|s| {
            if let Stmt::Expr(Expr::Call(c), _) = s {
                if is_path_call(&c.func, &["drop"]) && c.args.len() == 1 {
                    return false;
                }
            }
            true
        });
        visit_mut::visit_block_mut(self, b);
    }
}

/// `while let Some(e) = X.first_entry() { .. e.key() .. e.remove() .. }`
struct FirstEntryRw {
    var: String,
    key: Ident,
    map: Expr,
}
impl VisitMut for FirstEntryRw {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if let Expr::Path(p) = strip_parens(&m.receiver) {
                if p.path.is_ident(&self.var) {
                    let (k, map) = (&self.key, &self.map);
                    match m.method.to_string().as_str() {
                        "key" => *e = parse_quote!((&#k)),
                        "get" => *e = parse_quote!(#map.vx_get_ref(&#k)),
                        "remove" | "remove_entry" => *e = parse_quote!(#map.remove(&#k)),
                        _ => {}
                    }
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.simplify_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        match t {
            Type::Path(p) => {
                let n = path_last(&p.path);
                if let Some(a) = [("AtomicU64", "u64"), ("AtomicU32", "u32"), ("AtomicBool", "bool"), ("AtomicUsize", "usize")].iter().find(|x| x.0 == n) {
                    let id = format_ident!("{}", a.1);
                    self.hit("R3 atomic erased");
                    *t = parse_quote!(#id);
                    return;
                }
                if ["Arc", "RwLock", "Mutex", "Box", "Rc"].contains(&n.as_str()) {
                    if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                        if let Some(GenericArgument::Type(inner)) = a.args.first() {
                            self.hit("R3 lock/Arc erased");
                            *t = inner.clone();
                            return;
                        }
                    }
                }
                if ["RwLockReadGuard", "Ref"].contains(&n.as_str()) {
                    if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                        if let Some(GenericArgument::Type(inner)) = a.args.last() {
                            self.hit("R3 lock/Arc erased");
                            let inner = inner.clone();
                            *t = parse_quote!(&#inner);
                            return;
                        }
                    }
                }
                if ["RwLockWriteGuard", "MutexGuard", "RefMut"].contains(&n.as_str()) {
                    if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                        if let Some(GenericArgument::Type(inner)) = a.args.last() {
                            self.hit("R3 lock/Arc erased");
                            let inner = inner.clone();
                            *t = parse_quote!(&mut #inner);
                            return;
                        }
                    }
                }
            }
            Type::ImplTrait(it) => {
                // the items of a returned iterator, all at once
                if let Some(TypeParamBound::Trait(tb)) = it.bounds.first() {
                    if let Some(PathArguments::AngleBracketed(a)) = tb.path.segments.last().filter(|s| s.ident == "Iterator").map(|s| &s.arguments) {
                        if let Some(GenericArgument::AssocType(x)) = a.args.first() {
                            let inner = x.ty.clone();
                            *t = parse_quote!(Vec<#inner>);
                        }
                    }
                }
            }
            Type::Ptr(p) => {
                let inner = (*p.elem).clone();
                self.hit("R13 raw memory");
                *t = parse_quote!(VxPtr<#inner>);
            }
            Type::TraitObject(o) => {
                for b in &o.bounds {
                    if let TypeParamBound::Trait(tb) = b {
                        let id = format_ident!("Dyn{}", path_last(&tb.path));
                        *t = parse_quote!(#id);
                        return;
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // R1: statement-level removals
        let mut out = vec![];
        let last = b.stmts.len();
        for (i, s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let drop_it = match &s {
                Stmt::Macro(m) => is_log_macro(&m.mac.path),
                Stmt::Expr(Expr::Macro(m), _) => is_log_macro(&m.mac.path),
                Stmt::Expr(Expr::Call(c), Some(_)) => is_path_call(&c.func, &["drop"]) ,
                Stmt::Expr(Expr::MethodCall(m), Some(_)) => {
                    ["inc", "dec", "set", "add", "sub"].contains(&m.method.to_string().as_str())
                        && matches!(strip_parens(&m.receiver), Expr::Path(p) if {
                            let n = path_last(&p.path);
                            n.len() > 1 && n.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric())
                        })
                }
                Stmt::Item(Item::Use(_)) => true,
                _ => false,
            };
            if drop_it {
                self.hit("R1 logging/metrics dropped");
                if i + 1 == last && matches!(&s, Stmt::Macro(_)) {
                    // tail macro of unit type
                }
                continue;
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // a constant inside a function is a variable that is not changed
        if let Stmt::Item(Item::Const(c)) = s {
            let (n, t, v) = (&c.ident, &c.ty, &c.expr);
            *s = parse_quote!(let #n: #t = #v;);
        }
        if let Stmt::Macro(m) = s {
            if path_last(&m.mac.path) != "__vx_loop" && path_last(&m.mac.path) != "matches" {
                if let Some(e) = self.rewrite_macro(&m.mac) {
                    let semi = m.semi_token;
                    *s = Stmt::Expr(e, semi.or(None));
                } else {
                    return;
                }
            } else {
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        // typed let: feed the type to collect() / try_into()
        let ty: Option<Type> = match &l.pat {
            Pat::Type(t) => Some((*t.ty).clone()),
            _ => None,
        };
        if let (Pat::Ident(i), Some(init)) = (match &l.pat { Pat::Type(t) => t.pat.as_ref(), p => p }, &l.init) {
            if matches!(&ty, Some(Type::Ptr(_))) || Self::raw_ptr_of(&init.expr).is_some() {
                self.rawvars.insert(i.ident.to_string());
            }
            if matches!(strip_parens(&init.expr), Expr::Lit(ExprLit { lit: Lit::Bool(_), .. })) || matches!(&ty, Some(Type::Path(p)) if p.path.is_ident("bool")) {
                self.boolvars.insert(i.ident.to_string());
            }
        }
        if let Some(init) = &mut l.init {
            if let Some(ty) = &ty {
                if let Some(e) = self.try_chain(&init.expr.clone(), Some(ty)) {
                    *init.expr = e;
                }
                // R9: slice -> array conversions
                if let Expr::MethodCall(u) = init.expr.as_ref() {
                    if u.method == "unwrap" {
                        if let Expr::MethodCall(t) = strip_parens(&u.receiver) {
                            if t.method == "try_into" {
                                let r = (*t.receiver).clone();
                                let f = match ty {
                                    Type::Array(_) => Some("vx_to_array"),
                                    Type::Reference(_) => Some("vx_to_array_ref"),
                                    _ => None,
                                };
                                if let Some(f) = f {
                                    let id = format_ident!("{}", f);
                                    self.hit("R9 slice to array conversion");
                                    *init.expr = parse_quote!(#id(&#r));
                                }
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // macros
        if let Expr::Macro(m) = e {
            if let Some(n) = self.rewrite_macro(&m.mac) {
                *e = n;
            } else {
                return;
            }
        }
        self.raw_memory(e);
        if let Some(n) = self.try_repeat(e) {
            *e = n;
        }
        // X.retain(|x| c): X is replaced by what the filter keeps of it
        if let Expr::MethodCall(m) = e {
            if m.method == "retain" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.len() == 1 {
                        let (r, cl) = (&m.receiver, &m.args[0]);
                        let src: Expr = parse_quote!(vx_take(&mut #r).into_iter().filter(#cl).collect::<Vec<_>>());
                        let r = (**r).clone();
                        if let Some(n) = self.try_chain(&src, None) {
                            self.hit("R6 retain");
                            *e = parse_quote!(#r = #n);
                        }
                    }
                }
            }
        }
        // chains first (top-down so that closures are inlined before visiting them)
        if let Some(n) = self.try_chain(e, None) {
            *e = n;
        }
        if let Expr::Match(m) = e {
            if let Some(n) = self.try_entry_match(m) {
                *e = n;
            }
        }
        // if let Occupied(x) = M.entry(k)
        if let Expr::If(i) = e {
            if let Expr::Let(l) = i.cond.as_ref() {
                if let (Expr::MethodCall(mc), Pat::TupleStruct(ts)) = (strip_parens(&l.expr), l.pat.as_ref()) {
                    let kind = path_last(&ts.path);
                    if mc.method == "entry" && (kind == "Occupied" || kind == "Vacant") {
                        let (pat, x, b) = (l.pat.as_ref(), l.expr.as_ref(), &i.then_branch);
                        let other: Pat = if kind == "Occupied" { parse_quote!(Vacant(_)) } else { parse_quote!(Occupied(_)) };
                        let els: Expr = i.else_branch.as_ref().map(|(_, e)| (**e).clone()).unwrap_or(parse_quote!({}));
                        let m: ExprMatch = parse_quote!(match #x { #pat => #b #other => #els });
                        if let Some(n) = self.try_entry_match(&m) {
                            *e = n;
                        }
                    }
                }
            }
        }
        // while let Some(x) = M.first_entry()
        if let Expr::While(w) = e {
            if let Expr::Let(l) = w.cond.as_ref() {
                if let Expr::MethodCall(mc) = strip_parens(&l.expr) {
                    if (mc.method == "first_entry" || mc.method == "last_entry") && mc.args.is_empty() {
                        if let Pat::TupleStruct(ts) = l.pat.as_ref() {
                            if let Some(Pat::Ident(v)) = ts.elems.first() {
                                let n = self.fresh();
                                let k = format_ident!("__fk{}", n);
                                let mut body = w.body.clone();
                                let map = (*mc.receiver).clone();
                                FirstEntryRw { var: v.ident.to_string(), key: k.clone(), map: map.clone() }.visit_block_mut(&mut body);
                                let meth = format_ident!("vx_{}_key", if mc.method == "first_entry" { "first" } else { "last" });
                                self.hit("R4 entry API");
                                *e = parse_quote!(while let Some(#k) = #map.#meth() #body);
                            }
                        }
                    }
                }
            }
        }
        // comparison of an optional slice with an array
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                if let Expr::Call(c) = strip_parens(&b.right) {
                    if is_path_call(&c.func, &["Some"]) && c.args.len() == 1 {
                        if let Expr::Reference(r) = &c.args[0] {
                            if let Expr::Array(_) = strip_parens(&r.expr) {
                                let (x, y) = ((*b.left).clone(), c.args[0].clone());
                                self.hit("R9 slice to array conversion");
                                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(vx_opt_slice_eq(#x, #y)) } else { parse_quote!(!vx_opt_slice_eq(#x, #y)) };
                            }
                        }
                    }
                }
            }
        }
        // for loops
        if let Expr::ForLoop(f) = e {
            if let Expr::Range(r) = strip_parens(&f.expr) {
                if let (Some(a), Some(b2), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                    let n = self.fresh();
                    let it = format_ident!("__it_{}_", n);
                    let id = self.fresh() as u64;
                    let lit = LitInt::new(&id.to_string(), proc_macro2::Span::call_site());
                    let (a, b2, p) = ((**a).clone(), (**b2).clone(), (*f.pat).clone());
                    let st = &f.body.stmts;
                    self.hit("R6 for loop");
                    *e = parse_quote!({
                        let mut #it = vx_range(#a, #b2);
                        loop { __vx_loop!(#lit); match #it.next() { None => { break; } Some(#p) => { #(#st)* } } }
                    });
                }
            } else if let Some(src) = self.for_source(&f.expr.clone()) {
                let n = self.fresh();
                let it = format_ident!("__it_{}_", n);
                let id = self.fresh() as u64;
                let lit = LitInt::new(&id.to_string(), proc_macro2::Span::call_site());
                let p = (*f.pat).clone();
                let st = &f.body.stmts;
                self.hit("R6 for loop");
                *e = parse_quote!({
                    let mut #it = #src;
                    loop { __vx_loop!(#lit); match #it.next() { None => { break; } Some(#p) => { #(#st)* } } }
                });
            } else {
                self.err("for loop over an unsupported source");
            }
        }
        if let Expr::While(w) = e {
            if !matches!(w.body.stmts.first(), Some(Stmt::Macro(m)) if path_last(&m.mac.path) == "__vx_loop") {
                let id = self.fresh() as u64;
                let lit = LitInt::new(&id.to_string(), proc_macro2::Span::call_site());
                w.body.stmts.insert(0, parse_quote!(__vx_loop!(#lit);));
            }
        }
        if let Expr::Loop(w) = e {
            if !matches!(w.body.stmts.first(), Some(Stmt::Macro(m)) if path_last(&m.mac.path) == "__vx_loop") {
                let id = self.fresh() as u64;
                let lit = LitInt::new(&id.to_string(), proc_macro2::Span::call_site());
                w.body.stmts.insert(0, parse_quote!(__vx_loop!(#lit);));
            }
        }
        // locks
        if let Some((k, inner)) = Self::lock_kind(e) {
            self.hit("R3 lock/Arc erased");
            let fname = Self::field_name(&inner);
            let plain = matches!(strip_parens(&inner), Expr::Path(_) | Expr::Field(_) | Expr::Index(_));
            let mutable = k != "read" || fname.map(|f| self.readmut.contains(&f)).unwrap_or(false);
            *e = if !plain {
                inner
            } else if mutable {
                parse_quote!(&mut #inner)
            } else {
                parse_quote!(&#inner)
            };
        }
        if let Expr::MethodCall(m) = e {
            // method call directly on a guard
            if let Some((_, inner)) = Self::lock_kind(&m.receiver) {
                self.hit("R3 lock/Arc erased");
                *m.receiver = inner;
            }
        }
        if let Expr::Index(m) = e {
            if let Some((_, inner)) = Self::lock_kind(&m.expr) {
                self.hit("R3 lock/Arc erased");
                *m.expr = inner;
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            match name.as_str() {
                "try_read" | "try_write" | "try_lock" if m.args.is_empty() => {
                    let r = (*m.receiver).clone();
                    self.hit("R3 lock/Arc erased");
                    *e = if name == "try_read" { parse_quote!(vx_try(&#r)) } else { parse_quote!(vx_try_mut(&mut #r)) };
                }
                "extend_from_slice" if m.args.len() == 1 => {
                    m.method = format_ident!("vx_extend_from_slice");
                    self.hit("R9 slice to array conversion");
                }
                "unwrap" if matches!(strip_parens(&m.receiver), Expr::MethodCall(t) if t.method == "try_into" && matches!(strip_parens(&t.receiver), Expr::Index(i) if matches!(strip_parens(&i.index), Expr::Range(_)))) => {
                    if let Expr::MethodCall(t) = strip_parens(&m.receiver) {
                        let r = (*t.receiver).clone();
                        self.hit("R9 slice to array conversion");
                        *e = parse_quote!(vx_to_array(&#r));
                    }
                }
                "into" if m.args.is_empty() => {
                    m.method = format_ident!("vx_conv");
                    self.hit("R9 slice to array conversion");
                }
                "to_vec" if m.args.is_empty() => {
                    m.method = format_ident!("vx_to_vec");
                    self.hit("R9 slice to array conversion");
                }
                "to_le_bytes" if m.args.is_empty() => {
                    let r = (*m.receiver).clone();
                    self.hit("R9 slice to array conversion");
                    *e = parse_quote!((#r).vx_to_le());
                }
                "load" if m.args.len() == 1 && is_ordering(&m.args[0]) => {
                    let r = (*m.receiver).clone();
                    self.hit("R3 atomic erased");
                    *e = parse_quote!(#r.vx_load());
                }
                "store" if m.args.len() == 2 && is_ordering(&m.args[1]) => {
                    let (r, v) = ((*m.receiver).clone(), m.args[0].clone());
                    self.hit("R3 atomic erased");
                    *e = parse_quote!(#r.vx_store(#v));
                }
                "fetch_add" if m.args.len() == 2 && is_ordering(&m.args[1]) => {
                    let (r, v) = ((*m.receiver).clone(), m.args[0].clone());
                    self.hit("R3 atomic erased");
                    *e = parse_quote!(#r.vx_fetch_add(#v));
                }
                "fetch_max" if m.args.len() == 2 && is_ordering(&m.args[1]) => {
                    let (r, v) = ((*m.receiver).clone(), m.args[0].clone());
                    self.hit("R3 atomic erased");
                    *e = parse_quote!(#r.vx_fetch_max(#v));
                }
                "copy_from_slice" if m.args.len() == 1 => {
                    // the destination is a leading part of an array
                    if let Expr::Index(ix) = strip_parens(&m.receiver) {
                        if let Expr::Range(r) = strip_parens(&ix.index) {
                            if let (None, Some(hi), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                                let (b, a) = ((*ix.expr).clone(), m.args[0].clone());
                                self.hit("R9 slice to array conversion");
                                *e = parse_quote!(vx_copy_prefix(&mut #b, #hi, #a));
                            }
                        }
                    }
                }
                // waiting on a condition variable: other threads change the guarded value meanwhile; without a timeout the condition is over
                "wait_timeout_while" if m.args.len() == 3 && self.cfg.world.contains("wait_timeout_while") => {
                    if let Some((p, body)) = Self::closure_parts(&m.args[2]) {
                        let (cv, g, d) = ((*m.receiver).clone(), m.args[0].clone(), m.args[1].clone());
                        let g = self.place_of_guard(g);
                        let r = format_ident!("__r{}_", self.fresh());
                        self.hit("R12 waiting on a condition variable");
                        *e = parse_quote!({
                            let #r = #cv.vx_wait(&mut #g, #d);
                            let __cond = { let #p = &#g; #body };
                            vx_waited_while(&#r, __cond, __w);
                            #r
                        });
                    }
                }
                "as_ref" if m.args.is_empty() && matches!(&*m.receiver, Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_))) => {
                    let r = (*m.receiver).clone();
                    *e = parse_quote!(vx_as_ref(#r));
                }
                "parse" if m.args.is_empty() && m.turbofish.as_ref().is_some_and(|t| t.to_token_stream().to_string().replace(' ', "") == "::<u64>") => {
                    let r = (*m.receiver).clone();
                    *e = parse_quote!(vx_parse_u64(#r));
                }
                "split_once" if m.args.len() == 1 => {
                    m.method = format_ident!("vx_split_once");
                }
                "splitn" if m.args.len() == 2 => {
                    m.method = format_ident!("vx_splitn");
                }
                "extend" if m.args.len() == 1 => {
                    m.method = format_ident!("vx_extend");
                }
                "unwrap_or_default" if m.args.is_empty() => {
                    let r = (*m.receiver).clone();
                    self.hit("R5 Option combinator");
                    *e = parse_quote!(match #r { Some(__u) => __u, None => vx_default() });
                }
                "value" | "value_mut" if m.args.is_empty() => {
                    self.hit("R3 lock/Arc erased");
                    let r = (*m.receiver).clone();
                    *e = r;
                }
                _ => {}
            }
        }
        // Option combinators
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let iterish = expr_is_iter_chain(&m.receiver);
            if !iterish {
                let recv = (*m.receiver).clone();
                let new = match name.as_str() {
                    "map" if m.args.len() == 1 => Self::closure_parts(&m.args[0])
                        .map(|(p, b)| self.opt_match_some(recv, p, parse_quote!(Some(#b)), parse_quote!(None))),
                    "map_or" if m.args.len() == 2 => {
                        let d = m.args[0].clone();
                        Self::closure_parts(&m.args[1]).map(|(p, b)| self.opt_match_some(recv, p, b, d))
                    }
                    "map_or_else" if m.args.len() == 2 => {
                        let d = match strip_parens(&m.args[0]) {
                            Expr::Closure(c) => Some((*c.body).clone()),
                            _ => None,
                        };
                        match (d, Self::closure_parts(&m.args[1])) {
                            (Some(d), Some((p, b))) => Some(self.opt_match_some(recv, p, b, d)),
                            _ => None,
                        }
                    }
                    "unwrap_or" if m.args.len() == 1 => {
                        let d = m.args[0].clone();
                        Some(self.opt_match_some(recv, parse_quote!(__u), parse_quote!(__u), d))
                    }
                    "unwrap_or_else" if m.args.len() == 1 => match strip_parens(&m.args[0]) {
                        Expr::Closure(c) if c.inputs.is_empty() => {
                            let d = (*c.body).clone();
                            Some(self.opt_match_some(recv, parse_quote!(__u), parse_quote!(__u), d))
                        }
                        _ => None,
                    },
                    "or" if m.args.len() == 1 => {
                        let d = m.args[0].clone();
                        Some(self.opt_match_some(recv, parse_quote!(__u), parse_quote!(Some(__u)), d))
                    }
                    "or_else" if m.args.len() == 1 => match strip_parens(&m.args[0]) {
                        Expr::Closure(c) if c.inputs.is_empty() => {
                            let d = (*c.body).clone();
                            Some(self.opt_match_some(recv, parse_quote!(__u), parse_quote!(Some(__u)), d))
                        }
                        _ => None,
                    },
                    "and_then" if m.args.len() == 1 => {
                        Self::closure_parts(&m.args[0]).map(|(p, b)| self.opt_match_some(recv, p, b, parse_quote!(None)))
                    }
                    "is_some_and" if m.args.len() == 1 => {
                        Self::closure_parts(&m.args[0]).map(|(p, b)| self.opt_match_some(recv, p, b, parse_quote!(false)))
                    }
                    "is_none_or" if m.args.len() == 1 => {
                        Self::closure_parts(&m.args[0]).map(|(p, b)| self.opt_match_some(recv, p, b, parse_quote!(true)))
                    }
                    "filter" if m.args.len() == 1 => Self::closure_parts(&m.args[0]).map(|(p, b)| {
                        self.opt_match_some(recv, parse_quote!(__f), parse_quote!({ let __c = { let #p = &__f; #b }; if __c { Some(__f) } else { None } }), parse_quote!(None))
                    }),
                    "map_err" if m.args.len() == 1 => Self::closure_parts(&m.args[0]).map(|(p, b)| {
                        self.hit("R5 Option combinator");
                        parse_quote!(match #recv { Ok(__ok) => Ok(__ok), Err(#p) => Err(#b) })
                    }),
                    "then" if m.args.len() == 1 => match strip_parens(&m.args[0]) {
                        Expr::Closure(c) if c.inputs.is_empty() => {
                            let d = (*c.body).clone();
                            self.hit("R5 Option combinator");
                            Some(parse_quote!(if #recv { Some(#d) } else { None }))
                        }
                        _ => None,
                    },
                    "then_some" if m.args.len() == 1 => {
                        let d = m.args[0].clone();
                        self.hit("R5 Option combinator");
                        Some(parse_quote!(if #recv { Some(#d) } else { None }))
                    }
                    _ => None,
                };
                if let Some(n) = new {
                    *e = n;
                }
            }
        }
        // b |= x and b &= x on a local that is a bool: x is evaluated, then combined
        if let Expr::Binary(b) = e {
            if let (Expr::Path(p), BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_)) = (strip_parens(&b.left), &b.op) {
                if self.boolvars.contains(&path_last(&p.path)) {
                    let (l, r) = (b.left.clone(), b.right.clone());
                    let n = format_ident!("__b{}_", self.fresh());
                    self.hit("R5 non-short-circuiting bool operator");
                    *e = if matches!(b.op, BinOp::BitOrAssign(_)) { parse_quote!(#l = { let #n = #r; #l || #n }) } else { parse_quote!(#l = { let #n = #r; #l && #n }) };
                }
            }
        }
        // Arc::new / RwLock::new / Mutex::new / Arc::clone
        if let Expr::Call(c) = e {
            if is_path_call(&c.func, &["Arc::new", "RwLock::new", "Mutex::new", "Box::new", "AtomicU64::new", "AtomicU32::new", "AtomicBool::new", "AtomicUsize::new"]) && c.args.len() == 1 {
                self.hit("R3 lock/Arc erased");
                let a = c.args[0].clone();
                *e = parse_quote!((#a));
            } else if is_path_call(&c.func, &["u32::from_le_bytes", "u64::from_le_bytes", "u8::from_le_bytes"]) {
                if let Expr::Path(p) = c.func.as_ref() {
                    let t = p.path.segments[p.path.segments.len() - 2].ident.clone();
                    let a = c.args[0].clone();
                    self.hit("R9 slice to array conversion");
                    *e = parse_quote!(<#t as VxLe>::vx_from_le(#a));
                }
            } else if is_path_call(&c.func, &["Arc::ptr_eq"]) {
                let a = c.args.clone();
                *e = parse_quote!(vx_ptr_eq(#a));
            } else if is_path_call(&c.func, &["Arc::clone"]) {
                let a = c.args[0].clone();
                *e = parse_quote!((#a).clone());
            }
        }
        // self method calls: split, inline
        if let Expr::MethodCall(m) = e {
            let on_self = matches!(strip_parens(&m.receiver), Expr::Path(p) if p.path.is_ident("self"));
            let name = m.method.to_string();
            if on_self {
                if self.cfg.split.contains_key(&name) {
                    let args = m.args.clone();
                    *e = self.self_call_args(&name, &args);
                } else if !self.cfg.contracted.contains(&name) && self.cfg.helpers.contains_key(&name) {
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    if let Some(n) = self.inline_call(&name, args, true) {
                        *e = n;
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let mut args = std::mem::take(&mut m.args);
            self.fix_mutargs(&name, &mut args);
            if self.cfg.world.contains(&name) && !matches!(args.last(), Some(Expr::Path(p)) if p.path.is_ident("__w")) {
                args.push(parse_quote!(__w));
                *self.counts.entry("R11 calls of dyn objects recorded in a ghost world").or_insert(0) += 1;
            }
            m.args = args;
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = c.func.as_ref() {
                let name = path_last(&p.path);
                let first = p.path.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
                let mut args = std::mem::take(&mut c.args);
                self.fix_mutargs(&name, &mut args);
                c.args = args;
                if !self.cfg.contracted.contains(&name)
                    && self.cfg.helpers.contains_key(&name)
                    && (p.path.segments.len() == 1 || first == "Self" || lowercase_mod(&first))
                {
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    if let Some(n) = self.inline_call(&name, args, false) {
                        *e = n;
                        return;
                    }
                }
            }
        }
        // self.field in a split function
        if let Some(ss) = self.self_split.clone() {
            if let Expr::Field(f) = e {
                if matches!(strip_parens(&f.base), Expr::Path(p) if p.path.is_ident("self")) {
                    if let Member::Named(n) = &f.member {
                        if !ss.iter().any(|(x, _)| n == x) {
                            self.err(format!("field self.{} is not in the split list", n));
                        }
                        let id = n.clone();
                        *e = parse_quote!((*#id));
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn ts<T: ToTokens>(t: &T) -> proc_macro2::TokenStream {
    quote!(#t)
}
