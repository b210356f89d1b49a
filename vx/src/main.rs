//! vx: mechanical extraction of the real functions of /repo into one Verus file.
//!
//! The text of every extracted function is the text of the repository with the
//! edits listed in DESIGN.md ("What the extraction changes").  Nothing here is a
//! hand written copy of repository code: a function that is changed in /repo is
//! changed in the verified text on the next run.
mod expand;
mod contracts;
mod render;

use contracts::*;
use render::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use syn::spanned::Spanned;

pub struct SrcFile {
    pub path: String,
    pub module: String,
    pub text: String,
    pub line_starts: Vec<usize>,
    pub ast: syn::File,
}

impl SrcFile {
    pub fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let ls = self.line_starts[lc.line - 1];
        let line = &self.text[ls..];
        let mut o = ls;
        for (n, c) in line.chars().enumerate() {
            if n == lc.column {
                break;
            }
            o += c.len_utf8();
        }
        o
    }
    pub fn range(&self, s: proc_macro2::Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    pub fn slice(&self, s: proc_macro2::Span) -> &str {
        let (a, b) = self.range(s);
        &self.text[a..b]
    }
}

#[derive(Clone)]
pub struct Helper {
    pub file: usize,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub is_method: bool,
    pub key: String,
    /// text of the type of the impl block
    pub impl_ty: String,
}

pub struct Global {
    pub files: Vec<SrcFile>,
    pub contracts: Contracts,
    pub free_helpers: HashMap<String, Helper>,
    pub method_helpers: HashMap<String, Vec<Helper>>,
    /// struct name -> field -> name of its type
    pub structs: HashMap<String, HashMap<String, String>>,
    pub demote: HashSet<String>,
}

#[derive(Default)]
pub struct Report {
    pub funcs: Vec<(String, String, usize, String, String)>, // key, file, line, kind, props
    pub problems: Vec<(String, String)>,             // key, problem
    pub dropped: Vec<(String, String)>,
    pub inlined: BTreeSet<String>,
    pub edits: BTreeMap<String, usize>,
    /// functions whose loops are not the annotated ones: a failed proof there says nothing
    pub soft: Vec<(String, String)>,
    /// functions with a loop whose end is not proved
    pub no_measure: Vec<String>,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let t = quote::quote!(#a).to_string();
            t.contains("test")
        }
    })
}

/// `dyn T + Send + Sync + 'static` -> `dyn T` (auto traits carry no behaviour)
pub fn plain_dyn(s: &str) -> String {
    if !s.contains("dyn ") {
        return s.to_string();
    }
    let mut t = s.to_string();
    for x in [" + Send", " + Sync", " + 'static"] {
        t = t.replace(x, "");
    }
    t
}

pub fn norm_ty(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn type_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => norm_ty(&quote::quote!(#t).to_string()),
    }
}

fn impl_key(i: &syn::ItemImpl) -> String {
    let ty = type_ident(&i.self_ty);
    match &i.trait_ {
        None => ty,
        Some((_, p, _)) => {
            let seg = p.segments.last().unwrap();
            format!("{} as {}", ty, norm_ty(&quote::quote!(#seg).to_string()))
        }
    }
}

fn derives(attrs: &[syn::Attribute]) -> HashSet<String> {
    let mut r = HashSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                if let Some(s) = m.path.segments.last() {
                    r.insert(s.ident.to_string());
                }
                Ok(())
            });
        }
    }
    r
}

/// `name(` and `name::<` of library functions become `crate::name(`, on clause lines.
fn qualify(t: &str, lib: &HashSet<String>) -> String {
    let mut out = String::new();
    for line in t.lines() {
        if !line.starts_with(' ') {
            out.push_str(line);
            out.push('\n');
            continue;
        }
        let b: Vec<char> = line.chars().collect();
        let mut i = 0;
        while i < b.len() {
            if b[i].is_alphabetic() || b[i] == '_' {
                let j = (i..b.len()).find(|&k| !(b[k].is_alphanumeric() || b[k] == '_')).unwrap_or(b.len());
                let w: String = b[i..j].iter().collect();
                let prev = if i > 0 { b[i - 1] } else { ' ' };
                let call = j < b.len() && (b[j] == '(' || (b[j] == ':' && b.get(j + 2) == Some(&'<')));
                let decl = out.ends_with("fn ");
                if call && !decl && prev != '.' && prev != ':' && prev != '{' && lib.contains(&w) {
                    out.push_str("crate::");
                }
                out.push_str(&w);
                i = j;
            } else {
                out.push(b[i]);
                i += 1;
            }
        }
        out.push('\n');
    }
    out
}

/// what serde is told about a type: derives, serde attributes with the place they are at, field and variant names
fn serde_form(it: &syn::Item) -> String {
    fn attrs(at: &str, a: &[syn::Attribute], out: &mut Vec<String>) {
        for a in a {
            let n = a.path().segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            let t = norm_ty(&quote::quote!(#a).to_string());
            if n == "serde" || n == "serde_as" {
                out.push(format!("{}{}", at, t));
            } else if n == "derive" {
                for d in ["Serialize", "Deserialize"] {
                    if t.split(|c: char| !c.is_alphanumeric()).any(|x| x == d) {
                        out.push(format!("derive{}", d));
                    }
                }
            } else if n.starts_with("serde") || n.starts_with("skip_serializing") || n.starts_with("cfg_eval") {
                out.push(format!("{}{}", at, t));
            }
        }
    }
    fn fields(at: &str, f: &syn::Fields, out: &mut Vec<String>) {
        for (k, f) in f.iter().enumerate() {
            let n = format!("{}{}", at, f.ident.as_ref().map(|i| i.to_string()).unwrap_or(k.to_string()));
            let t = &f.ty;
            out.push(format!("{}:{}", n, norm_ty(&quote::quote!(#t).to_string())));
            attrs(&n, &f.attrs, out);
        }
    }
    let mut out = vec![];
    match it {
        syn::Item::Struct(s) => {
            attrs("", &s.attrs, &mut out);
            fields("", &s.fields, &mut out);
        }
        syn::Item::Enum(e) => {
            attrs("", &e.attrs, &mut out);
            for v in &e.variants {
                let n = format!("{}.", v.ident);
                out.push(n.clone());
                attrs(&n, &v.attrs, &mut out);
                fields(&n, &v.fields, &mut out);
            }
        }
        _ => {}
    }
    out.sort();
    out.join(" ")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "expand" {
        return expand::main(&args[2..]);
    }
    // expanded programs that use the macros, with the contracts in contracts/macro
    let extra = std::env::var("VX_EXTRA").ok();
    let (repo, cdir, out, map) = (&args[1], &args[2], &args[3], &args[4]);
    let mut contracts = Contracts::default();
    let mut names: Vec<_> = std::fs::read_dir(cdir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map(|x| x == "vx").unwrap_or(false))
        .collect();
    if extra.is_some() {
        names.extend(std::fs::read_dir(format!("{}/macro", cdir)).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|x| x == "vx").unwrap_or(false)));
    }
    names.sort();
    // names of the specification library: qualified in clause text, so that a local of the same name does not hide them
    let mut lib = HashSet::new();
    for e in std::fs::read_dir(cdir).unwrap() {
        let p = e.unwrap().path();
        if p.extension().map(|x| x == "rs").unwrap_or(false) {
            for l in std::fs::read_to_string(&p).unwrap().lines() {
                if l.starts_with("pub ") && (l.contains("spec fn ") || l.contains("proof fn ") || l.contains("axiom fn ")) {
                    let i = l.find(" fn ").unwrap() + 4;
                    lib.insert(l[i..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>());
                }
            }
        }
    }
    for p in names {
        let t = qualify(&std::fs::read_to_string(&p).unwrap(), &lib);
        parse(&t, p.file_name().unwrap().to_str().unwrap(), &mut contracts);
    }
    let mut rep = Report::default();
    let mut files = vec![];
    for fs in &contracts.files {
        let p = match (fs.path.strip_prefix('@'), &extra) {
            (Some(f), Some(x)) => format!("{}/{}", x, f),
            _ => format!("{}/{}", repo, fs.path),
        };
        let text = match std::fs::read_to_string(&p) {
            Ok(t) => t,
            Err(_) => {
                rep.problems
                    .push((fs.path.clone(), "lost-anchor: source file is missing".into()));
                String::new()
            }
        };
        let ast = match syn::parse_file(&text) {
            Ok(a) => a,
            Err(e) => {
                rep.problems
                    .push((fs.path.clone(), format!("unsupported: does not parse: {}", e)));
                syn::parse_file("").unwrap()
            }
        };
        let mut line_starts = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                line_starts.push(i + 1);
            }
        }
        files.push(SrcFile {
            path: fs.path.clone(),
            module: fs.module.clone(),
            text,
            line_starts,
            ast,
        });
    }
    // source files without contracts: their functions are helpers
    fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        let mut v: Vec<_> = std::fs::read_dir(d).map(|r| r.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_default();
        v.sort();
        for p in v {
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                out.push(p);
            }
        }
    }
    let with_contracts = files.len();
    let mut all = vec![];
    walk(std::path::Path::new(&format!("{}/aj_core/src", repo)), &mut all);
    for p in all {
        let rel = p.to_str().unwrap()[repo.len()..].trim_start_matches('/').to_string();
        if files.iter().any(|f| f.path == rel) {
            continue;
        }
        let text = std::fs::read_to_string(&p).unwrap_or_default();
        let ast = match syn::parse_file(&text) {
            Ok(a) => a,
            Err(_) => continue,
        };
        let mut line_starts = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                line_starts.push(i + 1);
            }
        }
        files.push(SrcFile { path: rel.clone(), module: String::new(), text, line_starts, ast });
        contracts.files.push(FileSpec { path: rel, ..Default::default() });
    }
    // Collect helpers: functions without a contract.  They are inlined at their call sites.
    let mut g = Global {
        files,
        contracts,
        free_helpers: HashMap::new(),
        method_helpers: HashMap::new(),
        structs: HashMap::new(),
        demote: std::env::var("VX_DEMOTE")
            .unwrap_or_default()
            .split(';')
            .map(|s| s.to_string())
            .collect(),
    };
    for (ty, props, want) in &g.contracts.stored {
        let key = format!("stored form of {}", ty);
        let found = g.files.iter().flat_map(|f| f.ast.items.iter().map(move |i| (f, i))).find(|(_, i)| match i {
            syn::Item::Struct(s) => s.ident == ty && !is_test(&s.attrs),
            syn::Item::Enum(s) => s.ident == ty && !is_test(&s.attrs),
            _ => false,
        });
        match found {
            Some((f, i)) => {
                rep.funcs.push((key.clone(), f.path.clone(), 1, "assumed".into(), props.clone()));
                let got = serde_form(i);
                if got != *want {
                    rep.problems.push((key, format!("the assumption that it is read back as written is about another form ({}) than the code's ({})", want, got)));
                }
            }
            None => {
                rep.funcs.push((key.clone(), String::new(), 1, "assumed".into(), props.clone()));
                rep.problems.push((key, "lost-anchor: the type is not there".into()));
            }
        }
    }
    for fi in 0..g.files.len() {
        let fs = g.contracts.files[fi].clone();
        let items = g.files[fi].ast.items.clone();
        for it in &items {
            match it {
                syn::Item::Struct(st) => {
                    let mut m = HashMap::new();
                    for (k, fd) in st.fields.iter().enumerate() {
                        let n = fd.ident.as_ref().map(|i| i.to_string()).unwrap_or(k.to_string());
                        if let syn::Type::Path(p) = &fd.ty {
                            m.insert(n, p.path.segments.last().unwrap().ident.to_string());
                        }
                    }
                    g.structs.insert(st.ident.to_string(), m);
                }
                syn::Item::Fn(f) if !is_test(&f.attrs) => {
                    let k = f.sig.ident.to_string();
                    if !fs.fns.contains_key(&k) && !fs.drops.iter().any(|d| d.0 == k) {
                        let h = Helper {
                            file: fi,
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                            is_method: false,
                            key: k.clone(),
                            impl_ty: String::new(),
                        };
                        g.free_helpers.insert(format!("{}#{}", fi, k), h.clone());
                        g.free_helpers.insert(k, h);
                    }
                }
                syn::Item::Impl(i) if i.trait_.is_none() && !is_test(&i.attrs) => {
                    let ik = impl_key(i);
                    if fs.drops.iter().any(|d| d.0 == ik) {
                        continue;
                    }
                    for ii in &i.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            let n = f.sig.ident.to_string();
                            let k = format!("{}.{}", ik, n);
                            if fs.fns.contains_key(&k) || fs.drops.iter().any(|d| d.0 == k) {
                                continue;
                            }
                            let is_method = f.sig.receiver().is_some();
                            let h = Helper {
                                file: fi,
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                is_method,
                                key: k,
                                impl_ty: g.files[fi].slice(i.self_ty.span()).to_string(),
                            };
                            if is_method {
                                g.method_helpers.entry(n.clone()).or_default().push(h);
                            } else {
                                g.free_helpers.insert(format!("{}::{}", ik, n), h);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut o = String::new();
    let mut seen: HashSet<(usize, String)> = HashSet::new();
    for fi in 0..with_contracts {
        emit_file(&g, fi, &mut o, &mut rep, &mut seen);
    }
    for (fi, fs) in g.contracts.files.iter().enumerate() {
        for (k, c) in &fs.fns {
            if !seen.contains(&(fi, k.clone())) && !c.optional {
                rep.problems.push((
                    format!("{}/{}", fs.module, k),
                    "lost-anchor: the function under contract is gone".into(),
                ));
            }
        }
    }
    std::fs::write(out, o).unwrap();
    let mut m = String::new();
    let esc = |s: &str| -> String {
        let mut r = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => r.push_str("\\\""),
                '\\' => r.push_str("\\\\"),
                '\n' => r.push_str("\\n"),
                '\t' => r.push_str("\\t"),
                c if (c as u32) < 32 => {}
                c => r.push(c),
            }
        }
        r.push('"');
        r
    };
    m.push_str("{\n \"functions\": [\n");
    for (n, (k, f, l, kind, pr)) in rep.funcs.iter().enumerate() {
        let _ = write!(
            m,
            "  {{\"key\": {}, \"file\": {}, \"line\": {}, \"kind\": {}, \"props\": {}}}{}\n",
            esc(k),
            esc(f),
            l,
            esc(kind),
            esc(pr),
            if n + 1 < rep.funcs.len() { "," } else { "" }
        );
    }
    m.push_str(" ],\n \"problems\": [\n");
    for (n, (k, p)) in rep.problems.iter().enumerate() {
        let _ = write!(
            m,
            "  {{\"key\": {}, \"problem\": {}}}{}\n",
            esc(k),
            esc(p),
            if n + 1 < rep.problems.len() { "," } else { "" }
        );
    }
    m.push_str(" ],\n \"no_measure\": [");
    m.push_str(&rep.no_measure.iter().map(|k| esc(k)).collect::<Vec<_>>().join(", "));
    m.push_str(" ],\n \"soft\": {");
    m.push_str(&rep.soft.iter().map(|(k, v)| format!("{}: {}", esc(k), esc(v))).collect::<Vec<_>>().join(", "));
    m.push_str("},\n \"dropped\": [\n");
    for (n, (k, p)) in rep.dropped.iter().enumerate() {
        let _ = write!(
            m,
            "  {{\"key\": {}, \"reason\": {}}}{}\n",
            esc(k),
            esc(p),
            if n + 1 < rep.dropped.len() { "," } else { "" }
        );
    }
    m.push_str(" ],\n \"inlined\": [");
    m.push_str(&rep.inlined.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    m.push_str("],\n \"edits\": {");
    m.push_str(
        &rep.edits
            .iter()
            .map(|(k, v)| format!("{}: {}", esc(k), v))
            .collect::<Vec<_>>()
            .join(", "),
    );
    m.push_str("}\n}\n");
    std::fs::write(map, m).unwrap();
}

/// lifetime bounds on type parameters do not matter to the verified text
fn no_static(s: &str) -> String {
    s.replace("+ Unpin", "").replace("Unpin +", "").replace("+ 'static", "").replace("'static +", "")
}

fn generics_text(f: &SrcFile, g: &syn::Generics, drop_bounds: bool) -> String {
    if g.params.is_empty() {
        return String::new();
    }
    let ps: Vec<String> = g
        .params
        .iter()
        .map(|p| match p {
            syn::GenericParam::Type(t) if drop_bounds => t.ident.to_string(),
            p => no_static(f.slice(p.span())),
        })
        .collect();
    format!("<{}>", ps.join(", "))
}

fn where_text(f: &SrcFile, g: &syn::Generics) -> String {
    match &g.where_clause {
        None => String::new(),
        Some(w) => {
            let preds: Vec<String> = w
                .predicates
                .iter()
                // actix plumbing: which actor context is used
                .filter(|p| !f.slice(p.span()).contains("Actor<"))
                .map(|p| no_static(f.slice(p.span())))
                .collect();
            if preds.is_empty() {
                String::new()
            } else {
                format!(" where {}", preds.join(", "))
            }
        }
    }
}

fn emit_file(
    g: &Global,
    fi: usize,
    o: &mut String,
    rep: &mut Report,
    seen: &mut HashSet<(usize, String)>,
) {
    let f = &g.files[fi];
    let fs = &g.contracts.files[fi];
    let dropped = |k: &str| fs.drops.iter().find(|d| d.0 == k).map(|d| d.1.clone());
    let _ = writeln!(o, "pub mod {} {{\nuse super::*;", fs.module);
    for u in &fs.uses {
        let _ = writeln!(o, "{}", u);
    }
    let _ = writeln!(o, "verus! {{\nbroadcast use vx_axioms;");
    for it in &f.ast.items {
        match it {
            syn::Item::Use(_) | syn::Item::Mod(_) | syn::Item::ExternCrate(_) => {}
            syn::Item::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                rep.dropped.push((
                    format!("{}/{}!", fs.module, n),
                    dropped(&format!("{}!", n)).unwrap_or("item macro".into()),
                ));
            }
            syn::Item::Const(c) => {
                let k = c.ident.to_string();
                if let Some(r) = dropped(&k) {
                    rep.dropped.push((format!("{}/{}", fs.module, k), r));
                    continue;
                }
                let mut ty = f.slice(c.ty.span()).to_string();
                if ty == "&str" {
                    ty = "&'static str".into();
                }
                let x = f.slice(c.expr.span());
                if matches!(&*c.expr, syn::Expr::Call(_) | syn::Expr::MethodCall(_)) {
                    let _ = writeln!(o, "pub exec const {}: {}\n    ensures {} == {}\n{{ {} }}", c.ident, ty, c.ident, x, x);
                } else {
                    let _ = writeln!(o, "pub const {}: {} = {};", c.ident, ty, x);
                }
            }
            syn::Item::Type(t) => {
                let _ = writeln!(o, "{}", f.slice(t.span()));
            }
            syn::Item::Struct(s) => {
                let k = s.ident.to_string();
                if is_test(&s.attrs) {
                    continue;
                }
                if let Some(r) = dropped(&k) {
                    rep.dropped.push((format!("{}/{}", fs.module, k), r));
                    continue;
                }
                if let Some(a) = fs.item_attr.get(&k) {
                    o.push_str(a);
                }
                let gen = generics_text(f, &s.generics, true);
                match &s.fields {
                    syn::Fields::Named(n) => {
                        let _ = writeln!(o, "pub struct {}{} {{", s.ident, gen);
                        for fd in &n.named {
                            let _ = writeln!(
                                o,
                                "    pub {}: {},",
                                fd.ident.as_ref().unwrap(),
                                fs.type_map.iter().fold(plain_dyn(f.slice(fd.ty.span())), |t, (a, b)| t.replace(a.as_str(), b))
                            );
                        }
                        o.push_str("}\n");
                    }
                    syn::Fields::Unnamed(n) => {
                        let v: Vec<String> = n
                            .unnamed
                            .iter()
                            .map(|fd| format!("pub {}", f.slice(fd.ty.span())))
                            .collect();
                        let _ = writeln!(o, "pub struct {}{}({});", s.ident, gen, v.join(", "));
                    }
                    syn::Fields::Unit => {
                        let _ = writeln!(o, "pub struct {}{};", s.ident, gen);
                    }
                }
                let d = derives(&s.attrs);
                emit_derives(o, &s.ident.to_string(), &s.generics, &d, false, rep);
                if d.contains("Default") && s.generics.params.is_empty() {
                    *rep.edits.entry("derive(Default) -> not extracted".into()).or_default() += 1;
                }
            }
            syn::Item::Enum(e) => {
                let k = e.ident.to_string();
                if let Some(r) = dropped(&k) {
                    rep.dropped.push((format!("{}/{}", fs.module, k), r));
                    continue;
                }
                let d = derives(&e.attrs);
                let fieldless = e.variants.iter().all(|v| v.fields.is_empty());
                if fieldless && d.contains("Copy") {
                    o.push_str("#[derive(Clone, Copy");
                    if d.contains("PartialEq") {
                        o.push_str(", PartialEq, Eq, Structural");
                    }
                    o.push_str(")]\n");
                }
                let _ = writeln!(
                    o,
                    "pub enum {}{} {{",
                    e.ident,
                    generics_text(f, &e.generics, true)
                );
                for v in &e.variants {
                    let _ = match &v.fields {
                        syn::Fields::Unit => writeln!(o, "    {},", v.ident),
                        syn::Fields::Unnamed(n) => {
                            let t: Vec<String> = n
                                .unnamed
                                .iter()
                                .map(|fd| f.slice(fd.ty.span()).to_string())
                                .collect();
                            writeln!(o, "    {}({}),", v.ident, t.join(", "))
                        }
                        syn::Fields::Named(n) => {
                            let t: Vec<String> = n
                                .named
                                .iter()
                                .map(|fd| {
                                    format!(
                                        "{}: {}",
                                        fd.ident.as_ref().unwrap(),
                                        f.slice(fd.ty.span())
                                    )
                                })
                                .collect();
                            writeln!(o, "    {} {{ {} }},", v.ident, t.join(", "))
                        }
                    };
                }
                o.push_str("}\n");
                emit_derives(
                    o,
                    &k,
                    &e.generics,
                    &d,
                    fieldless && d.contains("Copy"),
                    rep,
                );
                if let Some(v) = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))) {
                    if d.contains("Default") && e.generics.params.is_empty() {
                        let _ = writeln!(o, "impl Default for {k} {{\n    fn default() -> (r: Self) ensures r == {k}::{v} {{ {k}::{v} }}\n}}", v = v.ident);
                        *rep.edits.entry("derive(Default) -> the #[default] variant".into()).or_default() += 1;
                    }
                }
                if fieldless && d.contains("Copy") {
                    let _ = writeln!(o, "impl VxV for {k} {{ type VV = {k}; open spec fn vxv(&self) -> {k} {{ *self }} }}");
                }
                if fs.enum_debug.contains(&k) {
                    // #[derive(Debug)] on a field-less enum prints the variant name.
                    if !(fieldless && d.contains("Debug")) {
                        rep.problems.push((
                            format!("{}/{}", fs.module, k),
                            "lost-anchor: no derived Debug on a field-less enum".into(),
                        ));
                    }
                    let mut s = String::new();
                    let mut x = String::new();
                    for v in &e.variants {
                        let _ = writeln!(s, "        {}::{} => \"{}\"@,", k, v.ident, v.ident);
                        let _ = writeln!(
                            x,
                            "        {}::{} => \"{}\".to_string(),",
                            k, v.ident, v.ident
                        );
                    }
                    let _ = writeln!(
                        o,
                        "impl VxDebug for {k} {{\n    open spec fn dbg(&self) -> Str {{ match *self {{\n{s}    }} }}\n    fn vx_dbg(&self) -> (r: String) {{ match *self {{\n{x}    }} }}\n}}"
                    );
                    let mut arms = String::new();
                    for v in &e.variants {
                        let _ = writeln!(arms, "    reveal_strlit(\"{}\");", v.ident);
                    }
                    let _ = writeln!(
                        o,
                        "pub proof fn vx_{}_debug_injective(a: {k}, b: {k})\n    ensures a.dbg() == b.dbg() ==> a == b\n{{\n{arms}    if a.dbg() == b.dbg() && a.dbg().len() > 2 {{ assert(a.dbg()[0] == b.dbg()[0] && a.dbg()[1] == b.dbg()[1] && a.dbg()[2] == b.dbg()[2]); }}\n}}",
                        k.to_lowercase()
                    );
                    *rep.edits.entry("derive(Debug) -> name table".into()).or_default() += 1;
                }
            }
            syn::Item::Fn(fun) => {
                if is_test(&fun.attrs) {
                    continue;
                }
                let k = fun.sig.ident.to_string();
                if let Some(r) = dropped(&k) {
                    rep.dropped.push((format!("{}/{}", fs.module, k), r));
                    continue;
                }
                match fs.fns.get(&k) {
                    Some(c) => {
                        seen.insert((fi, k.clone()));
                        emit_fn(g, fi, &fun.sig, Some(&fun.block), Some(c), &k, true, &syn::Generics::default(), o, rep);
                    }
                    None => rep.funcs.push((
                        format!("{}/{}", fs.module, k),
                        f.path.clone(),
                        fun.sig.span().start().line,
                        "uncontracted".into(), String::new(),
                    )),
                }
            }
            syn::Item::Trait(t) => {
                let k = format!("trait {}", t.ident);
                if let Some(r) = dropped(&k) {
                    rep.dropped.push((format!("{}/{}", fs.module, k), r));
                    continue;
                }
                let sup = if t.supertraits.is_empty() {
                    String::new()
                } else {
                    let v: Vec<String> = t
                        .supertraits
                        .iter()
                        .map(|s| f.slice(s.span()).to_string())
                        .collect();
                    format!(": {}", v.join(" + "))
                };
                let sup = match fs.impl_bounds.get(&k) {
                    Some(b) if sup.is_empty() => format!(": {}", b.trim()),
                    Some(b) => format!("{} + {}", sup, b.trim()),
                    None => sup,
                };
                let _ = writeln!(
                    o,
                    "pub trait {}{}{} {{",
                    t.ident,
                    generics_text(f, &t.generics, false),
                    sup
                );
                if let Some(x) = fs.trait_extra.get(&t.ident.to_string()) {
                    o.push_str(x);
                }
                for ti in &t.items {
                    match ti {
                        syn::TraitItem::Type(ty) => {
                            let _ = writeln!(o, "    {}", f.slice(ty.span()));
                        }
                        syn::TraitItem::Fn(m) => {
                            let mk = format!("{}.{}", k, m.sig.ident);
                            if let Some(r) = dropped(&mk) {
                                rep.dropped.push((format!("{}/{}", fs.module, mk), r));
                                continue;
                            }
                            let c = fs.fns.get(&mk);
                            seen.insert((fi, mk.clone()));
                            emit_fn(g, fi, &m.sig, m.default.as_ref(), c, &mk, false, &t.generics, o, rep);
                        }
                        _ => {}
                    }
                }
                o.push_str("}\n");
            }
            syn::Item::Impl(i) => {
                if is_test(&i.attrs) {
                    continue;
                }
                let ik = impl_key(i);
                if let Some(r) = dropped(&ik) {
                    rep.dropped.push((format!("{}/impl {}", fs.module, ik), r));
                    continue;
                }
                // marker traits of expanded programs
                if f.path.starts_with('@') && i.items.is_empty() {
                    let _ = writeln!(o, "{}", f.slice(i.span()));
                    continue;
                }
                if i.trait_.is_some()
                    && !fs.fns.keys().any(|k| k.starts_with(&format!("{}.", ik)))
                    && !fs.impl_extra.contains_key(&ik)
                {
                    rep.dropped.push((
                        format!("{}/impl {}", fs.module, ik),
                        "trait impl without a contract".into(),
                    ));
                    continue;
                }
                let mut body = String::new();
                let mut any = false;
                if let Some(x) = fs.impl_extra.get(&ik) {
                    body.push_str(x);
                    any = true;
                }
                for ii in &i.items {
                    match ii {
                        syn::ImplItem::Type(t) => {
                            let _ = writeln!(body, "    {}", f.slice(t.span()));
                            any = true;
                        }
                        syn::ImplItem::Fn(m) => {
                            let mk = format!("{}.{}", ik, m.sig.ident);
                            if let Some(r) = dropped(&mk) {
                                rep.dropped.push((format!("{}/{}", fs.module, mk), r));
                                continue;
                            }
                            let c = fs.fns.get(&mk);
                            if c.is_none() && i.trait_.is_none() {
                                rep.funcs.push((
                                    format!("{}/{}", fs.module, mk),
                                    f.path.clone(),
                                    m.sig.span().start().line,
                                    "uncontracted".into(), String::new(),
                                ));
                                continue;
                            }
                            seen.insert((fi, mk.clone()));
                            any = true;
                            emit_fn(
                                g,
                                fi,
                                &m.sig,
                                Some(&m.block),
                                c,
                                &mk,
                                i.trait_.is_none(),
                                &i.generics,
                                &mut body,
                                rep,
                            );
                        }
                        _ => {}
                    }
                }
                if !any {
                    continue;
                }
                let tr = match &i.trait_ {
                    Some((_, p, _)) => format!("{} for ", f.slice(p.span())),
                    None => String::new(),
                };
                let (gen, wh) = match fs.impl_bounds.get(&ik) {
                    Some(b) => {
                        let (a, b) = b.trim().split_once(" where ").unwrap_or((b.trim(), ""));
                        (
                            a.to_string(),
                            if b.is_empty() { String::new() } else { format!(" where {}", b) },
                        )
                    }
                    None => (generics_text(f, &i.generics, false), where_text(f, &i.generics)),
                };
                let _ = writeln!(
                    o,
                    "impl{} {}{}{} {{",
                    gen,
                    tr,
                    f.slice(i.self_ty.span()),
                    wh
                );
                o.push_str(&body);
                o.push_str("}\n");
            }
            _ => {}
        }
    }
    let _ = writeln!(o, "}} // verus!\n}} // mod {}", fs.module);
}

fn emit_derives(
    o: &mut String,
    name: &str,
    gens: &syn::Generics,
    d: &HashSet<String>,
    native: bool,
    rep: &mut Report,
) {
    let ps: Vec<String> = gens
        .params
        .iter()
        .filter_map(|p| match p {
            syn::GenericParam::Type(t) => Some(t.ident.to_string()),
            _ => None,
        })
        .collect();
    let g = if ps.is_empty() { String::new() } else { format!("<{}>", ps.join(", ")) };
    if d.contains("Clone") && !native {
        let _ = writeln!(
            o,
            "impl{g} Clone for {name}{g} {{\n    #[verifier::external_body]\n    fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }}\n}}"
        );
        *rep.edits.entry("derive(Clone) -> assumed r == *self".into()).or_default() += 1;
    }
}

fn body_needs_ghost(a: &str, b: &str, c: &str, i: usize) -> bool {
    let k = format!("vx_p{}", i);
    a.contains(&k) || b.contains(&k) || c.contains(&k)
}

pub fn clause_lines(o: &mut String, kw: &str, cs: &[Clause], key: &str, props: &[String]) {
    if cs.is_empty() {
        return;
    }
    let _ = writeln!(o, "    {}", kw);
    for (n, c) in cs.iter().enumerate() {
        let labels = if c.labels.is_empty() { props.join(",") } else { c.labels.join(",") };
        let t = c.text.trim_end().trim_end_matches(',');
        for (ln, l) in t.lines().enumerate() {
            let last = ln + 1 == t.lines().count();
            let _ = writeln!(
                o,
                "        {}{} //@c {}|{}|{}|{}",
                l.trim(),
                if last { "," } else { "" },
                key,
                kw,
                n,
                labels
            );
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(
    g: &Global,
    fi: usize,
    sig: &syn::Signature,
    block: Option<&syn::Block>,
    c: Option<&FnContract>,
    key: &str,
    vis: bool,
    impl_generics: &syn::Generics,
    o: &mut String,
    rep: &mut Report,
) {
    let f = &g.files[fi];
    let fullkey = format!("{}/{}", f.module, key);
    let def = FnContract {
        ret: "r".into(),
        ..Default::default()
    };
    let mut own = c.unwrap_or(&def).clone();
    if std::env::var("VX_VACUITY").is_ok() && block.is_some() {
        // vacuity guard: the end of the function must be reachable under its contract
        own.body_bottom.push_str(&format!("\nproof {{ assert(false); }} //@vac {}\n", fullkey));
    }
    let cc = &own;
    let line = sig.span().start().line;
    let mut problems: Vec<String> = vec![];
    let mut text = String::new();
    let _ = writeln!(text, "//@fn {} {}:{}", fullkey, f.path, line);
    for a in &cc.attrs {
        let _ = writeln!(text, "    {}", a);
    }
    let mut params = vec![];
    let methods = sig.inputs.iter().take_while(|p| matches!(p, syn::FnArg::Receiver(_))).count();
    for (n, p) in sig.inputs.iter().enumerate() {
        let n = n.saturating_sub(methods);
        match p {
            syn::FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some() && r.colon_token.is_none() => params.push("self".to_string()),
            syn::FnArg::Receiver(r) => params.push(f.slice(r.span()).to_string()),
            syn::FnArg::Typed(t) => {
                let pat = match &*t.pat {
                    syn::Pat::Wild(_) => format!("_p{}", n),
                    p => f.slice(p.span()).to_string(),
                };
                params.push(format!("{}: {}", pat, plain_dyn(f.slice(t.ty.span()))));
            }
        }
    }
    let effect = cc.effect || g.contracts.effect_names.contains(&sig.ident.to_string());
    let demoted = g.demote.contains(&fullkey);
    if effect {
        params.push("Tracked(w): Tracked<&mut World>".into());
        *rep.edits.entry("ghost world parameter".into()).or_default() += 1;
    }
    let ret = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => format!(" -> ({}: {})", cc.ret, f.slice(t.span())),
    };
    if sig.asyncness.is_some() {
        *rep.edits.entry("async fn -> fn".into()).or_default() += 1;
    }
    let mut body = String::new();
    if let Some(b) = block {
        if cc.trusted || demoted {
            body.push_str("{ unimplemented!() }\n");
        } else {
            let mut fc = FnCtx::new(g, fi, cc, &fullkey, sig, b, effect);
            fc.generics = sig
                .generics
                .params
                .iter()
                .chain(impl_generics.params.iter())
                .filter_map(|p| match p {
                    syn::GenericParam::Type(t) => Some(t.ident.to_string()),
                    _ => None,
                })
                .collect();
            let wrap = match &sig.output {
                syn::ReturnType::Type(_, t) if !cc.body_bottom.is_empty() => Some(f.slice(t.span()).to_string()),
                _ => None,
            };
            if wrap.is_none() && !cc.body_bottom.is_empty() {
                let bt = fc.subst(&cc.body_bottom, &[]);
                fc.ret_bottom = Some(("()".into(), bt));
            }
            let inner = match wrap {
                Some(t) => {
                    let bt = fc.subst(&cc.body_bottom, &[]);
                    fc.ret_bottom = Some((t.clone(), bt));
                    format!("let vx_ret: {} = {{\n{}\n}};\n", t, fc.render_body(b))
                }
                None => fc.render_body(b),
            };
            let wrapped = inner.starts_with("let vx_ret: ");
            problems.extend(fc.problems.iter().cloned());
            for h in fc.inlined.iter() {
                rep.inlined.insert(format!("{} into {}", h, fullkey));
            }
            for (k, v) in &fc.edits {
                *rep.edits.entry(k.clone()).or_default() += v;
            }
            let want: Vec<String> = cc.loops.iter().map(|l| l.kind.clone()).collect();
            if fc.loop_count != want.len() || want.iter().zip(&fc.loop_kinds).any(|(a, b)| !a.is_empty() && !a.split('|').any(|a| a == b)) {
                rep.soft.push((fullkey.clone(), format!("the loops of the code ({}) are not the annotated ones ({})", fc.loop_kinds.join(", "), want.join(", "))));
            }
            if fc.loop_count > 0 {
                if fc.no_measure > 0 {
                    let _ = writeln!(text, "    #[verifier::exec_allows_no_decreases_clause]");
                    rep.no_measure.push(fullkey.clone());
                }
                let _ = writeln!(text, "    #[verifier::loop_isolation(false)]");
            }
            if problems.is_empty() {
                let top = fc.subst(&cc.body_top, &[]);
                let bottom = fc.subst(&cc.body_bottom, &[]);
                problems.extend(fc.problems.iter().cloned());
                body.push_str("{\n");
                for (i, n) in fc.pnames.iter().enumerate() {
                    if let Some(n) = n {
                        if body_needs_ghost(&top, &inner, &bottom, i) {
                            let _ = writeln!(body, "let ghost vx_p{} = {};", i, n);
                        }
                    }
                }
                body.push_str(&top);
                if cc.strlits {
                    let mut lits = BTreeSet::new();
                    let mut rest = inner.as_str();
                    while let Some(i) = rest.find('"') {
                        match rest[i + 1..].find('"') {
                            Some(j) => {
                                lits.insert(rest[i..i + j + 2].to_string());
                                rest = &rest[i + j + 2..];
                            }
                            None => break,
                        }
                    }
                    lits.retain(|l| !l.contains('\\') && !l.contains('\n'));
                    for l in lits {
                        let _ = writeln!(body, "proof {{ reveal_strlit({}); }}", l);
                    }
                }
                if let Some(m) = &fc.mut_self {
                    let _ = writeln!(body, "let mut {} = self;", m);
                    *rep.edits.entry("mut self -> let mut vx_self = self".into()).or_default() += 1;
                }
                body.push_str(&inner);
                body.push_str(&bottom);
                body.push_str(if wrapped { "\nvx_ret\n}\n" } else { "\n}\n" });
            } else {
                body = "{ unimplemented!() }\n".into();
            }
        }
    }
    if demoted {
        problems.push("unsupported: rejected by the verifier's front end".into());
    }
    let opaque = block.is_some() && (cc.trusted || !problems.is_empty());
    if opaque {
        let _ = writeln!(text, "    #[verifier::external_body]");
    }
    let _ = writeln!(
        text,
        "    {}fn {}{}({}){}{}",
        if vis { "pub " } else { "" },
        sig.ident,
        generics_text(f, &sig.generics, false),
        params.join(", "),
        ret,
        where_text(f, &sig.generics)
    );
    let pn: Vec<String> = sig
        .inputs
        .iter()
        .enumerate()
        .filter_map(|(n, p)| match p {
            syn::FnArg::Typed(t) => Some(match &*t.pat {
                syn::Pat::Wild(_) => format!("_p{}", n.saturating_sub(methods)),
                syn::Pat::Ident(i) => i.ident.to_string(),
                p => f.slice(p.span()).to_string(),
            }),
            _ => None,
        })
        .collect();
    let sub = |cs: &[Clause]| -> Vec<Clause> {
        cs.iter()
            .map(|c| {
                let mut t = c.text.clone();
                for (i, n) in pn.iter().enumerate() {
                    t = t.replace(&format!("${{p{}}}", i), n);
                }
                Clause {
                    labels: c.labels.clone(),
                    text: t,
                }
            })
            .collect()
    };
    clause_lines(&mut text, "requires", &sub(&cc.requires), &fullkey, &cc.props);
    clause_lines(&mut text, "ensures", &sub(&cc.ensures), &fullkey, &cc.props);
    if block.is_none() {
        text.push_str("    ;\n");
    } else {
        text.push_str(&body);
    }
    let _ = writeln!(text, "//@endfn {}", fullkey);
    o.push_str(&text);
    let kind = if block.is_none() {
        "declaration"
    } else if cc.trusted {
        "trusted"
    } else if opaque {
        "demoted"
    } else if c.is_some() {
        "contracted"
    } else {
        "extracted-without-contract"
    };
    rep.funcs.push((fullkey.clone(), f.path.clone(), line, kind.into(), cc.props.join(",")));
    for p in problems {
        rep.problems.push((fullkey.clone(), p));
    }
}
