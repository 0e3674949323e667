//! vx: extracts functions and types from the real sources and weaves contracts into them.
//! usage: vx TEMPLATE REPO OUT.rs OUT.map
mod rewrite;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, ToTokens};
use rewrite::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;
use syn::*;

fn print_ts(ts: TokenStream, out: &mut String, indent: usize) {
    let mut prev_joint = true;
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in toks.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::None => ("", ""),
                };
                let brace = g.delimiter() == Delimiter::Brace;
                if !prev_joint && brace {
                    out.push(' ');
                }
                out.push_str(a);
                if brace {
                    let _ = write!(out, "\n{}", "  ".repeat(indent + 1));
                }
                print_ts(g.stream(), out, indent + 1);
                if brace {
                    let _ = write!(out, "\n{}", "  ".repeat(indent));
                }
                out.push_str(b);
                if brace {
                    let next_is_stmt = !matches!(toks.get(i + 1), Some(TokenTree::Punct(p)) if ".;,)?".contains(p.as_char()))
                        && !matches!(toks.get(i + 1), Some(TokenTree::Ident(id)) if id == "else");
                    if next_is_stmt && toks.get(i + 1).is_some() {
                        let _ = write!(out, "\n{}", "  ".repeat(indent));
                        prev_joint = true;
                        continue;
                    }
                }
                prev_joint = false;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                let glue = prev_joint || ".,;?".contains(c);
                if !glue {
                    out.push(' ');
                }
                out.push(c);
                prev_joint = p.spacing() == Spacing::Joint || c == '.' || c == '\'' || c == '&' && p.spacing() == Spacing::Alone && false;
                if c == ';' {
                    let _ = write!(out, "\n{}", "  ".repeat(indent));
                    prev_joint = true;
                }
            }
            TokenTree::Ident(id) => {
                if !prev_joint {
                    out.push(' ');
                }
                let _ = write!(out, "{}", id);
                prev_joint = false;
            }
            TokenTree::Literal(l) => {
                if !prev_joint {
                    out.push(' ');
                }
                let _ = write!(out, "{}", l);
                prev_joint = false;
            }
        }
    }
}
fn to_text<T: ToTokens>(t: &T) -> String {
    let mut s = String::new();
    print_ts(t.to_token_stream(), &mut s, 0);
    s
}

#[derive(Default, Debug, Clone)]
struct FnSpec {
    path: String,
    ret: Option<String>,
    selfmut: bool,
    mutparams: Vec<String>,
    asname: Option<String>,
    attrs: Vec<String>,
    readmut: Vec<String>,
    collect: Option<String>,
    nobody: bool,
    spec: String,
    start: String,
    exit: String,
    loops: BTreeMap<usize, String>,
    loopstart: BTreeMap<usize, String>,
    loopend: BTreeMap<usize, String>,
    loopafter: BTreeMap<usize, String>,
    aftercall: BTreeMap<(String, usize), String>,
    file: String,
}

struct Found {
    sig: Signature,
    block: Block,
    line: usize,
    endline: usize,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}

fn type_last(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => type_last(&r.elem),
        _ => String::new(),
    }
}

fn find_fn(f: &File, path: &str) -> Option<Found> {
    // "Type::m", "Trait for Type::m", "f"
    let (tr, rest) = match path.split_once(" for ") {
        Some((t, r)) => (Some(t.trim().to_string()), r.trim().to_string()),
        None => (None, path.to_string()),
    };
    if let Some((ty, m)) = rest.split_once("::") {
        for it in &f.items {
            if let Item::Impl(im) = it {
                if is_test(&im.attrs) || type_last(&im.self_ty) != ty {
                    continue;
                }
                if let Some(t) = &tr {
                    match &im.trait_ {
                        Some((_, p, _)) if p.segments.last().unwrap().ident == t.as_str() => {}
                        // "From<&Pubkey> for Type::from"
                        Some((_, p, _)) if t.contains('<') && p.segments.last().unwrap().to_token_stream().to_string().replace(' ', "") == t.replace(' ', "") => {}
                        _ => continue,
                    }
                }
                for ii in &im.items {
                    if let ImplItem::Fn(fun) = ii {
                        if fun.sig.ident == m {
                            use syn::spanned::Spanned;
                            return Some(Found {
                                sig: fun.sig.clone(),
                                block: fun.block.clone(),
                                line: fun.sig.span().start().line,
                                endline: fun.block.span().end().line,
                            });
                        }
                    }
                }
            }
        }
    } else {
        for it in &f.items {
            if let Item::Fn(fun) = it {
                if fun.sig.ident == rest.as_str() {
                    use syn::spanned::Spanned;
                    return Some(Found {
                        sig: fun.sig.clone(),
                        block: (*fun.block).clone(),
                        line: fun.sig.span().start().line,
                        endline: fun.block.span().end().line,
                    });
                }
            }
        }
    }
    None
}

fn collect_helpers(f: &File, out: &mut HashMap<String, Helper>) {
    let mut seen: HashMap<String, usize> = HashMap::new();
    let mut add = |out: &mut HashMap<String, Helper>, sig: &Signature, b: &Block| {
        let n = sig.ident.to_string();
        let c = seen.entry(n.clone()).or_insert(0);
        *c += 1;
        if *c > 1 {
            out.remove(&n);
        } else {
            out.insert(n, Helper { sig: sig.clone(), block: b.clone() });
        }
    };
    for it in &f.items {
        match it {
            Item::Fn(x) if !is_test(&x.attrs) => add(out, &x.sig, &x.block),
            Item::Impl(im) if !is_test(&im.attrs) => {
                for ii in &im.items {
                    if let ImplItem::Fn(x) = ii {
                        add(out, &x.sig, &x.block);
                    }
                }
            }
            _ => {}
        }
    }
}

fn collect_dashfields(f: &File, cfg: &mut Cfg) {
    for it in &f.items {
        if let Item::Struct(s) = it {
            for fl in &s.fields {
                let t = fl.ty.to_token_stream().to_string();
                if t.contains("DashMap") {
                    if let Some(i) = &fl.ident {
                        cfg.dashfields.insert(i.to_string());
                    }
                }
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vx TEMPLATE REPO OUT.rs OUT.map");
        std::process::exit(2);
    }
    // --stub A,B : these functions keep their contract but their body is not verified (undecided)
    // --probe    : an unprovable assertion in every body, to check that no precondition is contradictory
    let mut stubs: Vec<String> = vec![];
    let mut probe = false;
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--stub" => {
                stubs = args[i + 1].split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
                i += 1;
            }
            "--probe" => probe = true,
            _ => {}
        }
        i += 1;
    }
    match run(&args[1], &args[2], &args[3], &args[4], &stubs, probe) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("VX-ERROR {}", e);
            std::process::exit(3);
        }
    }
}

enum Chunk {
    Raw(String),
    Item { file: String, kind: String, name: String, opts: Vec<String> },
    Fn(FnSpec),
}

fn load_template(path: &str, chunks: &mut Vec<Chunk>, cfg: &mut Cfg, depth: usize) -> std::result::Result<(), String> {
    if depth > 5 {
        return Err("include depth".into());
    }
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let mut file = String::new();
    let mut cur: Option<FnSpec> = None;
    let mut sect: (String, usize) = ("spec".into(), 0);
    let mut callee = String::new();
    let mut raw = String::new();
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            let d = d.trim();
            let mut w = d.split_whitespace();
            let cmd = w.next().unwrap_or("");
            let rest: Vec<String> = w.map(|s| s.to_string()).collect();
            if let Some(f) = cur.as_mut() {
                let n: usize = rest.first().and_then(|s| s.parse().ok()).unwrap_or(0);
                match cmd {
                    "loop" | "loopstart" | "loopend" | "loopafter" => {
                        sect = (cmd.to_string(), n);
                        continue;
                    }
                    "aftercall" => {
                        callee = rest.first().cloned().unwrap_or_default();
                        sect = (cmd.to_string(), rest.get(1).and_then(|s| s.parse().ok()).unwrap_or(0));
                        continue;
                    }
                    "start" | "exit" => {
                        sect = (cmd.to_string(), 0);
                        continue;
                    }
                    "end" => {
                        cfg.contracted.insert(f.path.rsplit("::").next().unwrap().to_string());
                        chunks.push(Chunk::Fn(cur.take().unwrap()));
                        continue;
                    }
                    _ => return Err(format!("{}: directive {} inside fn", path, cmd)),
                }
            }
            if !raw.is_empty() {
                chunks.push(Chunk::Raw(std::mem::take(&mut raw)));
            }
            match cmd {
                "include" => {
                    let p = dir.join(&rest[0]);
                    load_template(p.to_str().unwrap(), chunks, cfg, depth + 1)?;
                }
                "file" => file = rest[0].clone(),
                "struct" | "enum" | "type" | "const" => chunks.push(Chunk::Item {
                    file: file.clone(),
                    kind: cmd.into(),
                    name: rest[0].clone(),
                    opts: rest[1..].to_vec(),
                }),
                "mutarg" => {
                    cfg.mutargs.insert(rest[0].clone(), rest[1].split(',').map(|x| x.parse().unwrap()).collect());
                }
                "mapped" => {
                    for r in rest {
                        cfg.mapped.insert(r);
                    }
                }
                "dash" => {
                    for r in rest {
                        cfg.dashfields.insert(r);
                    }
                }
                "split" => {
                    let v = rest[1]
                        .split(',')
                        .filter(|s| !s.is_empty())
                        .map(|s| match s.split_once(':') {
                            Some((a, _)) => (a.to_string(), true),
                            None => (s.to_string(), false),
                        })
                        .collect();
                    cfg.split.insert(rest[0].clone(), v);
                }
                "world" => {
                    for r in rest {
                        cfg.world.insert(r);
                    }
                }
                "contracted" => {
                    for r in rest {
                        cfg.contracted.insert(r);
                    }
                }
                "fn" => {
                    let mut fs = FnSpec { file: file.clone(), ..Default::default() };
                    let mut name = vec![];
                    for r in rest {
                        if let Some(x) = r.strip_prefix("ret=") {
                            fs.ret = Some(x.into());
                        } else if r == "self=mut" {
                            fs.selfmut = true;
                        } else if let Some(x) = r.strip_prefix("mut=") {
                            fs.mutparams = x.split(',').map(|s| s.to_string()).collect();
                        } else if let Some(x) = r.strip_prefix("as=") {
                            fs.asname = Some(x.into());
                        } else if let Some(x) = r.strip_prefix("readmut=") {
                            fs.readmut = x.split(',').map(|s| s.to_string()).collect();
                        } else if let Some(x) = r.strip_prefix("collect=") {
                            fs.collect = Some(x.into());
                        } else if let Some(x) = r.strip_prefix("attr=") {
                            fs.attrs.push(x.into());
                        } else if r == "nobody" {
                            fs.nobody = true;
                        } else {
                            name.push(r);
                        }
                    }
                    fs.path = name.join(" ");
                    sect = ("spec".into(), 0);
                    cur = Some(fs);
                }
                "" => {}
                _ => return Err(format!("{}: unknown directive {}", path, cmd)),
            }
            continue;
        }
        if let Some(f) = cur.as_mut() {
            let dst = match sect.0.as_str() {
                "spec" => &mut f.spec,
                "start" => &mut f.start,
                "exit" => &mut f.exit,
                "loop" => f.loops.entry(sect.1).or_default(),
                "loopstart" => f.loopstart.entry(sect.1).or_default(),
                "loopend" => f.loopend.entry(sect.1).or_default(),
                "aftercall" => f.aftercall.entry((callee.clone(), sect.1)).or_default(),
                _ => f.loopafter.entry(sect.1).or_default(),
            };
            dst.push_str(line);
            dst.push('\n');
        } else {
            raw.push_str(line);
            raw.push('\n');
        }
    }
    if cur.is_some() {
        return Err(format!("{}: unterminated fn", path));
    }
    if !raw.is_empty() {
        chunks.push(Chunk::Raw(raw));
    }
    Ok(())
}

fn get_file<'a>(files: &'a mut HashMap<String, File>, repo: &str, p: &str) -> std::result::Result<&'a File, String> {
    if !files.contains_key(p) {
        let full = format!("{}/{}", repo, p);
        let src = std::fs::read_to_string(&full).map_err(|e| format!("lost-anchor: file {}: {}", p, e))?;
        let f = syn::parse_file(&src).map_err(|e| format!("parse {}: {}", p, e))?;
        files.insert(p.to_string(), f);
    }
    Ok(&files[p])
}

fn run(tpl: &str, repo: &str, out: &str, map: &str, stubs: &[String], probe: bool) -> std::result::Result<(), String> {
    let mut chunks = vec![];
    let mut cfg = Cfg::default();
    load_template(tpl, &mut chunks, &mut cfg, 0)?;
    let mut files: HashMap<String, File> = HashMap::new();
    for c in &chunks {
        let p = match c {
            Chunk::Item { file, .. } => file.clone(),
            Chunk::Fn(f) => f.file.clone(),
            _ => continue,
        };
        get_file(&mut files, repo, &p)?;
    }
    for f in files.values() {
        collect_helpers(f, &mut cfg.helpers);
        collect_dashfields(f, &mut cfg);
    }
    for f in chunks.iter() {
        if let Chunk::Fn(fs) = f {
            if let Some(c) = &fs.collect {
                cfg.collect_types.insert(fs.path.clone(), c.clone());
            }
        }
    }
    let mut o = String::new();
    let mut m = String::new();
    let mut counts: BTreeMap<String, usize> = BTreeMap::new();
    let mut errs: Vec<String> = vec![];
    let mut undecided: Vec<String> = vec![];
    for c in &chunks {
        match c {
            Chunk::Raw(s) => o.push_str(s),
            Chunk::Item { file, kind, name, opts } => {
                let f = &files[file];
                let mut done = false;
                for it in &f.items {
                    let mut rw = Rw::new(&cfg, name);
                    match it {
                        Item::Struct(s) if kind == "struct" && s.ident == name.as_str() => {
                            let mut s = s.clone();
                            s.attrs.clear();
                            for fl in s.fields.iter_mut() {
                                fl.attrs.clear();
                                fl.vis = parse_quote!(pub);
                            }
                            s.vis = parse_quote!(pub);
                            rw.visit_item_struct_mut(&mut s);
                            for op in opts {
                                let _ = writeln!(o, "#[{}]", op);
                            }
                            o.push_str(&to_text(&s));
                            o.push('\n');
                            done = true;
                        }
                        Item::Enum(s) if kind == "enum" && s.ident == name.as_str() => {
                            let mut s = s.clone();
                            s.attrs.clear();
                            s.vis = parse_quote!(pub);
                            rw.visit_item_enum_mut(&mut s);
                            // order of the variants, as a derived PartialOrd/Ord sees it
                            let mut rank = vec![];
                            let mut next = 0i64;
                            for v in s.variants.iter_mut() {
                                v.attrs.clear();
                                if let Some((_, Expr::Lit(ExprLit { lit: Lit::Int(n), .. }))) = &v.discriminant {
                                    next = n.base10_parse().unwrap_or(next);
                                }
                                v.discriminant = None;
                                rank.push((v.ident.to_string(), next));
                                next += 1;
                            }
                            for op in opts.iter().filter(|x| *x != "rank") {
                                let _ = writeln!(o, "#[{}]", op);
                            }
                            o.push_str(&to_text(&s));
                            o.push('\n');
                            if opts.iter().any(|x| x == "rank") {
                                let _ = writeln!(o, "impl {} {{\n  pub open spec fn rank(&self) -> int {{ match self {{ {} }} }}\n}}", name,
                                    rank.iter().map(|(n, k)| format!("{}::{} => {}", name, n, k)).collect::<Vec<_>>().join(", "));
                            }
                            done = true;
                        }
                        Item::Type(s) if kind == "type" && s.ident == name.as_str() => {
                            let mut s = s.clone();
                            s.vis = parse_quote!(pub);
                            s.attrs.clear();
                            rw.visit_item_type_mut(&mut s);
                            o.push_str(&to_text(&s));
                            o.push('\n');
                            done = true;
                        }
                        Item::Const(s) if kind == "const" && s.ident == name.as_str() => {
                            let mut s = s.clone();
                            s.vis = parse_quote!(pub);
                            s.attrs.clear();
                            rw.visit_item_const_mut(&mut s);
                            o.push_str(&to_text(&s));
                            o.push('\n');
                            done = true;
                        }
                        _ => {}
                    }
                    for (k, v) in &rw.counts {
                        *counts.entry(k.to_string()).or_insert(0) += v;
                    }
                    errs.extend(rw.errors.drain(..).map(|e| format!("{} {}: {}", kind, name, e)));
                    if done {
                        break;
                    }
                }
                if !done {
                    return Err(format!("lost-anchor: {} {} in {}", kind, name, file));
                }
            }
            Chunk::Fn(fs) => {
                let f = &files[&fs.file];
                let Some(found) = find_fn(f, &fs.path) else {
                    undecided.push(format!("{}\tlost-anchor: fn {} in {}", fs.path, fs.path, fs.file));
                    continue;
                };
                let mname = fs.path.rsplit("::").next().unwrap().to_string();
                let mut rw = Rw::new(&cfg, &fs.path);
                rw.readmut = fs.readmut.iter().cloned().collect();
                rw.self_split = cfg.split.get(&mname).cloned();
                let mut sig = found.sig.clone();
                let mut block = found.block.clone();
                rw.visit_block_mut(&mut block);
                rw.visit_signature_mut(&mut sig);
                // signature
                let name = fs.asname.clone().unwrap_or(mname.clone());
                let mut params: Vec<String> = vec![];
                let mut pre: Vec<Stmt> = vec![];
                for inp in &sig.inputs {
                    match inp {
                        FnArg::Receiver(r) => {
                            if let Some(ss) = &rw.self_split {
                                let _ = r;
                                for (fld, mu) in ss {
                                    // field type from the struct in any parsed file
                                    let ty = field_type(&files, &cfg, &fs.path, fld).ok_or(format!("lost-anchor: field {}", fld))?;
                                    params.push(format!("{}: &{}{}", fld, if *mu { "mut " } else { "" }, ty));
                                }
                            } else if fs.selfmut && r.reference.is_some() {
                                params.push("&mut self".into());
                            } else {
                                params.push(to_text(r));
                            }
                        }
                        FnArg::Typed(t) => {
                            let mut t = t.clone();
                            let pat0 = (*t.pat).clone();
                            let pn = match &pat0 {
                                Pat::Ident(i) => {
                                    let mut i2 = i.clone();
                                    if i2.mutability.is_some() {
                                        i2.mutability = None;
                                        let id = i2.ident.clone();
                                        pre.push(parse_quote!(let mut #id = #id;));
                                        t.pat = Box::new(Pat::Ident(i2));
                                    }
                                    i.ident.to_string()
                                }
                                Pat::Wild(_) => {
                                    let id = format_ident!("_p{}", params.len());
                                    t.pat = Box::new(parse_quote!(#id));
                                    String::new()
                                }
                                _ => String::new(),
                            };
                            if fs.mutparams.contains(&pn) {
                                if let Type::Reference(r) = t.ty.as_mut() {
                                    r.mutability = Some(Default::default());
                                }
                            }
                            params.push(to_text(&t));
                        }
                    }
                }
                if cfg.world.contains(&mname) {
                    params.push("__w: &mut VxWorld".into());
                }
                for p in pre.into_iter().rev() {
                    block.stmts.insert(0, p);
                }
                let gen = to_text(&sig.generics);
                let wher = sig.generics.where_clause.as_ref().map(|w| to_text(w)).unwrap_or_default();
                let ret = match &sig.output {
                    ReturnType::Default => String::new(),
                    ReturnType::Type(_, t) => match &fs.ret {
                        Some(r) => format!("-> ({}: {})", r, to_text(t)),
                        None => format!("-> {}", to_text(t)),
                    },
                };
                let mut lost_calls = vec![];
                for (i, ((name, k), _)) in fs.aftercall.iter().enumerate() {
                    let mut a = AfterCall { name: name.clone(), want: *k, seen: 0, mark: format_ident!("__vx_after_{}_", i), done: false };
                    a.block(&mut block);
                    if !a.done {
                        lost_calls.push(format!("lost-anchor: call {} of {} in {}", k, name, fs.path));
                    }
                }
                if !fs.exit.is_empty() {
                    let unit = matches!(sig.output, ReturnType::Default);
                    ExitMark.visit_block_mut(&mut block);
                    let tail = matches!(block.stmts.last(), Some(Stmt::Expr(_, None)));
                    if tail && !unit {
                        if let Some(Stmt::Expr(e, None)) = block.stmts.pop() {
                            let is_ret = matches!(e, Expr::Return(_) | Expr::Block(_)) && matches!(e, Expr::Return(_));
                            if is_ret {
                                block.stmts.push(Stmt::Expr(e, None));
                            } else {
                                block.stmts.push(parse_quote!(let __ret = #e;));
                                block.stmts.push(parse_quote!(__vx_exit();));
                                block.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
                            }
                        }
                    } else if unit {
                        if let Some(Stmt::Expr(_, semi)) = block.stmts.last_mut() {
                            if semi.is_none() {
                                *semi = Some(Default::default());
                            }
                        }
                        block.stmts.push(parse_quote!(__vx_exit();));
                    }
                }
                let mut body = to_text(&block).replace("__vx_exit();", &fs.exit);
                for (i, (_, text)) in fs.aftercall.iter().enumerate() {
                    body = body.replace(&format!("__vx_after_{}_();", i), text);
                }
                let mut ferrs: Vec<String> = rw.errors.drain(..).collect();
                ferrs.append(&mut lost_calls);
                let mut body = match weave(&body, fs) {
                    Ok(b) => b,
                    Err(e) => {
                        ferrs.push(e);
                        String::new()
                    }
                };
                let stub = stubs.contains(&fs.path) || !ferrs.is_empty();
                if stub {
                    body = "{ unimplemented!() }".into();
                    for e in &ferrs {
                        undecided.push(format!("{}\t{}", fs.path, e.replace(['\n', '\t'], " ")));
                    }
                } else if probe {
                    let p = body.find('{').unwrap();
                    body = format!("{}{{\nproof {{ assert(false); }}\n{}", &body[..p], &body[p + 1..]);
                }
                let _ = write!(m, "{}\t{}\t{}\t{}\t{}\t", fs.path, fs.file, found.line, found.endline, o.matches('\n').count() + 1);
                for a in &fs.attrs {
                    let _ = writeln!(o, "#[{}]", a);
                }
                if stub {
                    o.push_str("#[verifier::external_body]\n");
                }
                let _ = writeln!(o, "// extracted from {}:{}-{}", fs.file, found.line, found.endline);
                let _ = writeln!(o, "pub fn {}{}({}) {} {}", name, gen, params.join(", "), ret, wher);
                o.push_str(&fs.spec);
                o.push_str(&body);
                o.push('\n');
                let _ = writeln!(m, "{}\t{}", o.matches('\n').count(), rw.inlined.join(","));
                for (k, v) in &rw.counts {
                    *counts.entry(k.to_string()).or_insert(0) += v;
                }
            }
        }
    }
    for (k, v) in &counts {
        let _ = writeln!(m, "#rule\t{}\t{}", k, v);
    }
    for u in &undecided {
        let _ = writeln!(m, "#undecided\t{}", u);
    }
    std::fs::write(map, m).map_err(|e| e.to_string())?;
    std::fs::write(out, o).map_err(|e| e.to_string())?;
    if !errs.is_empty() {
        return Err(format!("unsupported: {}", errs.join("; ")));
    }
    Ok(())
}

/// puts a proof hook behind the statement with the given call
struct AfterCall {
    name: String,
    want: usize,
    seen: usize,
    mark: Ident,
    done: bool,
}
impl AfterCall {
    fn block(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            // calls of this statement itself, not of the blocks in it
            struct Own<'a>(&'a str, usize);
            impl<'a> VisitMut for Own<'a> {
                fn visit_block_mut(&mut self, _: &mut Block) {}
                fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
                    if let Expr::Path(p) = c.func.as_ref() {
                        if p.path.segments.last().map(|s| s.ident == self.0).unwrap_or(false) {
                            self.1 += 1;
                        }
                    }
                    syn::visit_mut::visit_expr_call_mut(self, c);
                }
                fn visit_expr_method_call_mut(&mut self, c: &mut ExprMethodCall) {
                    if c.method == self.0 {
                        self.1 += 1;
                    }
                    syn::visit_mut::visit_expr_method_call_mut(self, c);
                }
            }
            let mut own = Own(&self.name, 0);
            own.visit_stmt_mut(&mut b.stmts[i]);
            let hit = !self.done && self.seen <= self.want && self.want < self.seen + own.1;
            self.seen += own.1;
            struct Inner<'a>(&'a mut AfterCall);
            impl<'a> VisitMut for Inner<'a> {
                fn visit_block_mut(&mut self, b: &mut Block) {
                    self.0.block(b);
                }
            }
            let mut st = b.stmts[i].clone();
            Inner(self).visit_stmt_mut(&mut st);
            b.stmts[i] = st;
            if hit {
                self.done = true;
                let mark = self.mark.clone();
                if let Stmt::Expr(e, None) = &b.stmts[i] {
                    if i + 1 == b.stmts.len() {
                        let e = e.clone();
                        b.stmts[i] = parse_quote!(let __vx_t = #e;);
                        b.stmts.push(Stmt::Expr(parse_quote!(__vx_t), None));
                    }
                }
                b.stmts.insert(i + 1, parse_quote!(#mark();));
                i += 1;
            }
            i += 1;
        }
    }
}

/// puts the proof hook in front of every explicit return
struct ExitMark;
impl VisitMut for ExitMark {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            *e = match &r.expr {
                Some(x) => parse_quote!({ let __ret = #x; __vx_exit(); return __ret; }),
                None => parse_quote!({ __vx_exit(); return; }),
            };
        }
    }
}

fn field_type(files: &HashMap<String, File>, cfg: &Cfg, path: &str, fld: &str) -> Option<String> {
    let ty = path.split(" for ").last()?.split("::").next()?.to_string();
    for f in files.values() {
        for it in &f.items {
            if let Item::Struct(s) = it {
                if s.ident == ty.as_str() {
                    for fl in &s.fields {
                        if fl.ident.as_ref().map(|i| i == fld).unwrap_or(false) {
                            let mut t = fl.ty.clone();
                            let mut rw = Rw::new(cfg, path);
                            rw.visit_type_mut(&mut t);
                            return Some(to_text(&t));
                        }
                    }
                }
            }
        }
    }
    None
}

/// replaces the loop markers by the loop contracts, numbering loops in order of appearance
fn weave(body: &str, fs: &FnSpec) -> std::result::Result<String, String> {
    let mut s = body.to_string();
    let mut n = 0usize;
    loop {
        let Some(p) = s.find("__vx_loop") else { break };
        // find "{" before p and ";" after
        let ob = s[..p].rfind('{').ok_or("weave")?;
        let semi = p + s[p..].find(';').ok_or("weave")?;
        // uid in the marker gives iterator names; rename to the loop number
        let mut inv = fs.loops.get(&n).cloned().unwrap_or_default();
        // iterator loops end because the iterator is finite
        if !inv.contains("decreases") {
            let after = &s[semi + 1..];
            let t = after.trim_start();
            if let Some(x) = t.strip_prefix("match __it_") {
                let d: String = x.chars().take_while(|c| c.is_ascii_digit()).collect();
                inv.push_str(&format!("    decreases __it_{d}_.items().len() - __it_{d}_.pos(),\n"));
            }
        }
        let st = fs.loopstart.get(&n).cloned().unwrap_or_default();
        let en = fs.loopend.get(&n).cloned();
        let af = fs.loopafter.get(&n).cloned();
        // matching close brace of ob
        let bytes = s.as_bytes();
        let mut depth = 0i32;
        let mut i = ob;
        let mut in_str = false;
        let close = loop {
            if i >= bytes.len() {
                return Err("weave: unbalanced".into());
            }
            let c = bytes[i];
            if in_str {
                if c == b'\\' {
                    i += 1;
                } else if c == b'"' {
                    in_str = false;
                }
            } else if c == b'"' {
                in_str = true;
            } else if c == b'{' {
                depth += 1;
            } else if c == b'}' {
                depth -= 1;
                if depth == 0 {
                    break i;
                }
            }
            i += 1;
        };
        let mut ns = String::new();
        ns.push_str(&s[..ob]);
        ns.push('\n');
        ns.push_str(&inv);
        ns.push_str("{\n");
        ns.push_str(&st);
        ns.push_str(&s[semi + 1..close]);
        if let Some(e) = en {
            ns.push('\n');
            ns.push_str(&e);
        }
        ns.push('}');
        if let Some(a) = af {
            ns.push('\n');
            ns.push_str(&a);
        }
        ns.push_str(&s[close + 1..]);
        s = ns;
        n += 1;
    }
    for k in fs.loops.keys().chain(fs.loopstart.keys()).chain(fs.loopend.keys()) {
        if *k >= n {
            return Err(format!("lost-anchor: loop {} of {} (the function now has {})", k, fs.path, n));
        }
    }
    // rename iterator temporaries in order of first appearance
    let mut map: HashMap<String, usize> = HashMap::new();
    let mut res = String::new();
    let mut rest = s.as_str();
    loop {
        let mut best: Option<(usize, &str)> = None;
        for p in ["__it_", "__src_", "__acc_", "__x_"] {
            if let Some(i) = rest.find(p) {
                if best.map(|b| i < b.0).unwrap_or(true) {
                    best = Some((i, p));
                }
            }
        }
        let Some((i, p)) = best else {
            res.push_str(rest);
            break;
        };
        let digits: String = rest[i + p.len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
        if digits.is_empty() {
            res.push_str(&rest[..i + p.len()]);
            rest = &rest[i + p.len()..];
            continue;
        }
        let len = map.len();
        let k = *map.entry(digits.clone()).or_insert(len);
        res.push_str(&rest[..i]);
        res.push_str(&format!("{}{}", p.trim_end_matches('_'), k));
        rest = &rest[i + p.len() + digits.len()..];
    }
    let s = res;
    // body start
    if !fs.start.is_empty() {
        let p = s.find('{').ok_or("weave start")?;
        return Ok(format!("{}{{\n{}{}", &s[..p], fs.start, &s[p + 1..]));
    }
    Ok(s)
}
