//! `vx expand IN OUTDIR`: from rustc's expansion of ../macros/src/lib.rs to one file per job type.
//! Dropped: `use`, attributes, impls that the standard and serde derives generate (`Clone` becomes
//! `#[derive(Clone)]` again), the path prefix `aj::`.  The wrapper async_trait puts around an async
//! method is taken off again.  A type with serde attributes loses its `Serialize`: it is then out of reach.
use quote::ToTokens;
use std::collections::HashSet;

fn strip_aj(t: &str) -> String {
    let mut t = t.to_string();
    for p in [":: aj :: export :: core ::", "aj :: export :: core ::", ":: aj_core ::", "aj_core ::", ":: aj ::", "aj ::"] {
        let mut out = String::new();
        let mut rest = t.as_str();
        while let Some(i) = rest.find(p) {
            let before = rest[..i].chars().last();
            let ident = before.map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false);
            out.push_str(&rest[..i]);
            if ident {
                out.push_str(p);
            } else {
                out.push(' ');
            }
            rest = &rest[i + p.len()..];
        }
        out.push_str(rest);
        t = out;
    }
    // `use super::f;` inside a body
    while let Some(i) = t.find("use super :: ") {
        match t[i..].find(';') {
            Some(j) => t.replace_range(i..i + j + 1, ""),
            None => break,
        }
    }
    // what rustc writes for the prelude
    for (a, b) in [(":: core :: option :: Option :: ", ""), (":: core :: result :: Result :: ", ""), (":: core :: clone :: Clone :: clone", "Clone :: clone"), (":: std :: string :: String", "String")] {
        t = t.replace(a, b);
    }
    t
}

/// the async fn behind what async_trait made of it
fn unwrapped(f: &syn::ImplItemFn) -> Option<String> {
    let lt = |p: &syn::GenericParam| matches!(p, syn::GenericParam::Lifetime(l) if l.lifetime.ident == "async_trait");
    if !f.sig.generics.params.iter().any(lt) {
        return None;
    }
    let e = match f.block.stmts.as_slice() {
        [syn::Stmt::Expr(e, None)] => e,
        _ => return None,
    };
    let call = match e {
        syn::Expr::Call(c) if c.args.len() == 1 => c,
        _ => return None,
    };
    let a = match &call.args[0] {
        syn::Expr::Async(a) => a,
        _ => return None,
    };
    let mut body = None;
    let mut bind = String::new();
    for s in &a.block.stmts {
        if let syn::Stmt::Local(l) = s {
            let n = match &l.pat {
                syn::Pat::Type(t) => t.pat.to_token_stream().to_string(),
                p => p.to_token_stream().to_string(),
            };
            let i = l.init.as_ref()?;
            if n == "__ret" {
                body = Some(i.expr.to_token_stream().to_string());
            } else if n != "mut __self" && n != "__self" && i.expr.to_token_stream().to_string() != n {
                bind.push_str(&format!("{} ", l.to_token_stream()));
            }
        }
    }
    // async_trait writes `let __ret: T = BLOCK; __ret`, or BLOCK alone when nothing is returned
    let body = match body {
        Some(b) => b,
        None => {
            let last = a.block.stmts.iter().rev().find_map(|s| match s {
                syn::Stmt::Expr(e @ syn::Expr::Block(_), _) => Some(e.to_token_stream().to_string()),
                _ => None,
            })?;
            last
        }
    };
    let out = match &f.sig.output {
        syn::ReturnType::Type(_, t) => {
            let t = t.to_token_stream().to_string();
            let i = t.find("Output =")? + 8;
            let mut depth = 0i32;
            let mut end = t.len();
            let b: Vec<char> = t[i..].chars().collect();
            for (k, c) in b.iter().enumerate() {
                match c {
                    '<' | '(' | '[' => depth += 1,
                    '>' if depth == 0 => {
                        end = i + b[..k].iter().map(|c| c.len_utf8()).sum::<usize>();
                        break;
                    }
                    '>' | ')' | ']' => depth -= 1,
                    '+' if depth == 0 => {
                        end = i + b[..k].iter().map(|c| c.len_utf8()).sum::<usize>();
                        break;
                    }
                    _ => {}
                }
            }
            t[i..end].trim().to_string()
        }
        _ => return None,
    };
    let mut ps = vec![];
    for p in &f.sig.inputs {
        let mut t = p.to_token_stream().to_string();
        for g in &f.sig.generics.params {
            if let syn::GenericParam::Lifetime(l) = g {
                t = t.replace(&format!("'{} ", l.lifetime.ident), "");
            }
        }
        ps.push(t);
    }
    let out = if out == "()" || out == "( )" { String::new() } else { format!("-> {}", out) };
    let b = format!("{{ {} {} }}", bind, body).replace("__self", "self");
    Some(format!("async fn {}({}) {} {}", f.sig.ident, ps.join(", "), out, b))
}

fn serde_attr(items: &[syn::Item], ty: &str) -> bool {
    items.iter().any(|i| match i {
        syn::Item::Struct(s) if s.ident == ty => s.to_token_stream().to_string().contains("# [serde"),
        syn::Item::Enum(s) if s.ident == ty => s.to_token_stream().to_string().contains("# [serde"),
        _ => false,
    })
}

fn is_derived(i: &syn::ItemImpl) -> bool {
    i.attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
}

fn item_text(i: &syn::Item, clone: &HashSet<String>, all: &[syn::Item]) -> Option<String> {
    let mut i = i.clone();
    match &mut i {
        syn::Item::Struct(s) => {
            s.attrs.clear();
            for f in s.fields.iter_mut() {
                f.attrs.clear();
            }
            let d = if clone.contains(&s.ident.to_string()) { "#[derive(Clone)]\n" } else { "" };
            Some(format!("{}{}", d, s.to_token_stream()))
        }
        syn::Item::Enum(s) => {
            s.attrs.clear();
            let d = if clone.contains(&s.ident.to_string()) { "#[derive(Clone)]\n" } else { "" };
            Some(format!("{}{}", d, s.to_token_stream()))
        }
        syn::Item::Impl(im) => {
            if is_derived(im) {
                return None;
            }
            im.attrs.clear();
            let head = {
                let mut h = im.clone();
                h.items.clear();
                let t = h.to_token_stream().to_string();
                t.trim_end().trim_end_matches('}').trim_end().trim_end_matches('{').to_string()
            };
            let mut t = format!("{} {{\n", head);
            for it in &im.items {
                match it {
                    syn::ImplItem::Fn(f) => {
                        let mut f = f.clone();
                        f.attrs.clear();
                        t.push_str(&unwrapped(&f).unwrap_or_else(|| f.to_token_stream().to_string()));
                    }
                    it => t.push_str(&it.to_token_stream().to_string()),
                }
                t.push('\n');
            }
            t.push('}');
            Some(t)
        }
        syn::Item::Fn(f) => {
            f.attrs.clear();
            Some(f.to_token_stream().to_string())
        }
        syn::Item::Const(c) if c.ident == "_" => {
            // serde derives
            let t = c.to_token_stream().to_string();
            for (k, n) in [("Serialize for ", "Serialize"), ("Deserialize < 'de > for ", "DeserializeOwned")] {
                if let Some(i) = t.find(k) {
                    let ty: String = t[i + k.len()..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    // serde attributes change what is stored: then nothing is assumed about it
                    return if serde_attr(all, &ty) { None } else { Some(format!("impl {} for {} {{ }}", n, ty)) };
                }
            }
            None
        }
        syn::Item::Use(_) | syn::Item::ExternCrate(_) | syn::Item::Macro(_) | syn::Item::Mod(_) => None,
        i => Some(i.to_token_stream().to_string()),
    }
}

fn cloned(items: &[syn::Item]) -> HashSet<String> {
    items
        .iter()
        .filter_map(|i| match i {
            syn::Item::Impl(im) if is_derived(im) => match &im.trait_ {
                Some((_, p, _)) if p.segments.last().unwrap().ident == "Clone" => Some(im.self_ty.to_token_stream().to_string()),
                _ => None,
            },
            _ => None,
        })
        .collect()
}

fn walk(items: &[syn::Item], out: &str, n: &mut usize) {
    for i in items {
        if let syn::Item::Mod(m) = i {
            let inner = match &m.content {
                Some((_, x)) => x,
                None => continue,
            };
            let name = m.ident.to_string();
            let user = items.iter().find(|i| matches!(i, syn::Item::Fn(f) if f.sig.ident == m.ident));
            if user.is_some() || name.starts_with("fx_") {
                let clone = cloned(inner);
                let mut t = String::new();
                if let Some(u) = user {
                    t.push_str(&item_text(u, &clone, inner).unwrap_or_default());
                    t.push('\n');
                }
                for i in inner {
                    if let Some(x) = item_text(i, &clone, inner) {
                        t.push_str(&x);
                        t.push('\n');
                    }
                }
                std::fs::write(format!("{}/{}.rs", out, name), strip_aj(&t)).unwrap();
                *n += 1;
            } else {
                walk(inner, out, n);
            }
        }
    }
}

pub fn main(args: &[String]) {
    let t = std::fs::read_to_string(&args[0]).unwrap();
    let ast = match syn::parse_file(&t) {
        Ok(a) => a,
        Err(e) => {
            eprintln!("the expansion does not parse: {}", e);
            std::process::exit(3);
        }
    };
    let mut n = 0;
    walk(&ast.items, &args[1], &mut n);
    println!("{} job types", n);
}
