//! Rendering of one function body: the repository's text with mechanical edits.
use crate::contracts::*;
use crate::*;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};

const LOG_MACROS: [&str; 5] = ["info", "debug", "warn", "error", "trace"];

pub struct FnCtx<'a> {
    pub g: &'a Global,
    pub cc: &'a FnContract,
    pub key: String,
    pub problems: Vec<String>,
    pub inlined: BTreeSet<String>,
    pub edits: BTreeMap<String, usize>,
    pub loop_count: usize,
    /// loops without a measure
    pub no_measure: usize,
    pub loop_kinds: Vec<String>,
    loop_ranges: BTreeSet<usize>,
    pub generics: Vec<String>,
    pub async_count: usize,
    fi: usize,
    tmp: usize,
    vecs: Vec<String>,
    guards: Vec<String>,
    somes: Vec<String>,
    nums: Vec<String>,
    flags: Vec<String>,
    entries: Vec<String>,
    stack: Vec<String>,
    params: Vec<String>,
    pub pnames: Vec<Option<String>>,
    self_ty: String,
    /// name of the local standing for a `mut self` parameter
    pub mut_self: Option<String>,
    /// ghost text to run before each `return` (with the return type), and before each `continue` of the loops we are in
    pub ret_bottom: Option<(String, String)>,
    loop_bottoms: Vec<String>,
    /// proof steps owed after the loops a `return` here leaves for good (loops without a break)
    ret_posts: String,
    has_w: bool,
    /// closures bound to a name: (file, name, closure)
    closures: Vec<(usize, String, std::rc::Rc<syn::ExprClosure>)>,
    /// names bound by patterns: (file, offset, name)
    pats: Vec<(usize, usize, String)>,
}

/// the names bound by patterns, with their places
struct PatPlaces<'f>(&'f SrcFile, Vec<(usize, String)>);
impl<'ast, 'f> Visit<'ast> for PatPlaces<'f> {
    fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
        self.1.push((self.0.range(i.ident.span()).0, i.ident.to_string()));
        visit::visit_pat_ident(self, i);
    }
}

struct Roles<'g> {
    g: &'g Global,
    vecs: Vec<String>,
    guards: Vec<String>,
    somes: Vec<String>,
    nums: Vec<String>,
    flags: Vec<String>,
    entries: Vec<String>,
    depth: usize,
}

/// names of locals that are the target of `x += e`, `x -= e`, `x = x.op(e)` or `x = x op e`
#[derive(Default)]
struct Counted(BTreeSet<String>);
impl<'ast> Visit<'ast> for Counted {
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(b.op, AddAssign(_) | SubAssign(_)) {
            if let syn::Expr::Path(p) = &*b.left {
                if let Some(i) = p.path.get_ident() {
                    self.0.insert(i.to_string());
                }
            }
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
        if let syn::Expr::Path(p) = &*a.left {
            if let Some(i) = p.path.get_ident() {
                let x = i.to_string();
                let r = &a.right;
                let t = norm_ty(&quote::quote!(#r).to_string());
                if [".saturating_", ".wrapping_", "-", "+"].iter().any(|o| t.starts_with(&format!("{}{}", x, o))) {
                    self.0.insert(x);
                }
            }
        }
        visit::visit_expr_assign(self, a);
    }
}

impl Roles<'_> {
    /// the value is a lock guard: taken here or by a helper that returns one
    fn gives_guard(&self, t: &str, e: &syn::Expr) -> bool {
        if t.ends_with(".lock().unwrap()") {
            return true;
        }
        let name = match strip_paren(e) {
            syn::Expr::MethodCall(m) if m.method == "expect" || m.method == "unwrap_or_else" => return matches!(strip_paren(&m.receiver), syn::Expr::MethodCall(l) if l.method == "lock"),
            syn::Expr::MethodCall(m) => m.method.to_string(),
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
                _ => return false,
            },
            _ => return false,
        };
        let ret = |h: &Helper| {
            let o = &h.sig.output;
            quote::quote!(#o).to_string().contains("MutexGuard")
        };
        self.g.free_helpers.get(&name).is_some_and(|h| ret(h)) || self.g.method_helpers.get(&name).is_some_and(|v| v.iter().any(|h| ret(h)))
    }
}

impl<'ast> Visit<'ast> for Roles<'_> {
    fn visit_pat_tuple_struct(&mut self, p: &'ast syn::PatTupleStruct) {
        if p.path.is_ident("Some") && p.elems.len() == 1 {
            if let syn::Pat::Ident(i) = &p.elems[0] {
                self.somes.push(i.ident.to_string());
            }
        }
        visit::visit_pat_tuple_struct(self, p);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        let pat = match &l.pat {
            syn::Pat::Type(t) => &*t.pat,
            p => p,
        };
        if let (syn::Pat::Ident(i), Some(init)) = (pat, &l.init) {
            let e = &init.expr;
            let t = norm_ty(&quote::quote!(#e).to_string());
            if t == "vec![]" || t.starts_with("Vec::") && (t.contains("new()") || t.contains("with_capacity(")) {
                self.vecs.push(i.ident.to_string());
            }
            if i.mutability.is_some() {
                self.nums.push(i.ident.to_string());
                if t == "true" || t == "false" {
                    self.flags.push(i.ident.to_string());
                }
            }
            if self.gives_guard(&t, e) {
                self.guards.push(i.ident.to_string());
            }
            // (one made inside a loop is not there when the loop starts)
            if self.depth > 0 {
            } else if t.ends_with(".or_default()") || t.contains(".entry(") && t.contains(".or_insert") {
                self.entries.push(i.ident.to_string());
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_for_loop(&mut self, x: &'ast syn::ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, x);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, x: &'ast syn::ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, x);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, x: &'ast syn::ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, x);
        self.depth -= 1;
    }
}

struct Breaks<'x> {
    label: Option<&'x syn::Lifetime>,
    depth: usize,
    found: bool,
}
impl<'x, 'ast> Visit<'ast> for Breaks<'x> {
    fn visit_expr_break(&mut self, b: &'ast syn::ExprBreak) {
        match &b.label {
            None => self.found |= self.depth == 0,
            Some(l) => self.found |= self.label == Some(l),
        }
        visit::visit_expr_break(self, b);
    }
    fn visit_expr_for_loop(&mut self, x: &'ast syn::ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, x);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, x: &'ast syn::ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, x);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, x: &'ast syn::ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, x);
        self.depth -= 1;
    }
}
/// is there a `break` out of this loop
fn has_break(l: &syn::ExprLoop) -> bool {
    let mut b = Breaks { label: l.label.as_ref().map(|x| &x.name), depth: 0, found: false };
    b.visit_block(&l.body);
    b.found
}

impl<'a> FnCtx<'a> {
    pub fn new(
        g: &'a Global,
        fi: usize,
        cc: &'a FnContract,
        key: &str,
        sig: &syn::Signature,
        b: &syn::Block,
        has_w: bool,
    ) -> Self {
        let mut r = Roles { g, vecs: vec![], guards: vec![], somes: vec![], nums: vec![], flags: vec![], entries: vec![], depth: 0 };
        r.visit_block(b);
        let mut counted = Counted::default();
        counted.visit_block(b);
        let mut pp = PatPlaces(&g.files[fi], vec![]);
        pp.visit_block(b);
        r.nums.retain(|x| counted.0.contains(x));
        let mut params = vec![];
        let mut pnames = vec![];
        for p in &sig.inputs {
            if let syn::FnArg::Typed(t) = p {
                let is_mut = matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some());
                params.push(match &*t.pat {
                    syn::Pat::Ident(i) if is_mut => i.ident.to_string(),
                    syn::Pat::Ident(_) => format!("vx_p{}", params.len()),
                    _ => format!("_p{}", params.len()),
                });
                pnames.push(match &*t.pat {
                    syn::Pat::Ident(i) if !is_mut => Some(i.ident.to_string()),
                    _ => None,
                });
            }
        }
        let k = key.split('/').nth(1).unwrap_or("");
        let self_ty = k.split(['.', ' ']).next().unwrap_or("").to_string();
        FnCtx {
            g,
            cc,
            key: key.into(),
            problems: vec![],
            inlined: BTreeSet::new(),
            edits: BTreeMap::new(),
            loop_count: 0,
            no_measure: 0,
            loop_kinds: vec![],
            loop_ranges: BTreeSet::new(),
            generics: vec![],
            async_count: 0,
            fi,
            tmp: 0,
            vecs: r.vecs,
            guards: r.guards,
            somes: r.somes,
            nums: r.nums,
            flags: r.flags,
            entries: r.entries,
            stack: vec![],
            params,
            pnames,
            self_ty,
            ret_bottom: None,
            loop_bottoms: vec![],
            ret_posts: String::new(),
            mut_self: sig.receiver().and_then(|r| if r.reference.is_none() && r.mutability.is_some() { Some("vx_self".to_string()) } else { None }),
            closures: vec![],
            pats: pp.1.into_iter().map(|(at, m)| (fi, at, m)).collect(),
            has_w,
        }
    }

    pub fn render_body(&mut self, b: &syn::Block) -> String {
        if uses_return_in_closure(b) {
            self.problem("unsupported: return inside a closure");
        }
        let fi = self.fi;
        let sm = self.mut_self.clone();
        block_inner(self, fi, sm, b, true)
    }

    fn problem(&mut self, s: &str) {
        self.problems.push(s.to_string());
    }
    fn edit(&mut self, s: &str) {
        *self.edits.entry(s.to_string()).or_default() += 1;
    }

    /// ${vecN}, ${guardN}, ${pN}: names of locals and parameters by role.
    pub fn subst(&mut self, s: &str, pats: &[String]) -> String {
        let mut out = String::new();
        let mut rest = s;
        while let Some(i) = rest.find("${") {
            out.push_str(&rest[..i]);
            let j = rest[i..].find('}').unwrap() + i;
            let role = &rest[i + 2..j];
            let num = |p: &str| role[p.len()..].parse::<usize>().unwrap_or(0);
            let v = if role.starts_with("vec") {
                self.vecs.get(num("vec")).cloned()
            } else if role.starts_with("guard") {
                self.guards.get(num("guard")).cloned()
            } else if role.starts_with("some") {
                self.somes.get(num("some")).cloned()
            } else if role.starts_with("num") {
                self.nums.get(num("num")).cloned()
            } else if role.starts_with("flag") {
                self.flags.get(num("flag")).cloned()
            } else if role.starts_with("entry") {
                self.entries.get(num("entry")).cloned()
            } else if role.starts_with("pat") {
                pats.get(num("pat")).cloned()
            } else if role.starts_with('p') {
                self.params.get(num("p")).cloned()
            } else {
                None
            };
            match v {
                Some(v) => out.push_str(&v),
                None => {
                    self.problem(&format!("lost-anchor: no local for role {}", role));
                    out.push_str("vx_lost_anchor");
                }
            }
            rest = &rest[j + 1..];
        }
        out.push_str(rest);
        out
    }
}

/// a pattern (with names for its wildcards) and the expression that rebuilds the matched value
fn pat_again(p: &syn::Pat, k: &mut usize) -> Option<(String, String)> {
    use syn::Pat;
    let mut list = |ps: &syn::punctuated::Punctuated<Pat, syn::Token![,]>| -> Option<(String, String)> {
        let v: Option<Vec<(String, String)>> = ps.iter().map(|p| pat_again(p, k)).collect();
        let v = v?;
        let one = |f: &dyn Fn(&(String, String)) -> String| v.iter().map(f).collect::<Vec<_>>().join(", ");
        Some((one(&|x| x.0.clone()), one(&|x| x.1.clone())))
    };
    Some(match p {
        Pat::Paren(p) => pat_again(&p.pat, k)?,
        Pat::Wild(_) => {
            *k += 1;
            (format!("vx_any{}", k), format!("vx_any{}", k))
        }
        Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
            let n = i.ident.to_string();
            (if i.mutability.is_some() { format!("mut {}", n) } else { n.clone() }, n)
        }
        Pat::Path(p) => {
            let t = quote::quote!(#p).to_string();
            (t.clone(), t)
        }
        Pat::Lit(p) => {
            let t = quote::quote!(#p).to_string();
            (t.clone(), t)
        }
        Pat::TupleStruct(s) => {
            let (a, b) = list(&s.elems)?;
            let n = &s.path;
            let n = quote::quote!(#n).to_string();
            (format!("{}({})", n, a), format!("{}({})", n, b))
        }
        Pat::Tuple(s) => {
            let (a, b) = list(&s.elems)?;
            (format!("({},)", a), format!("({},)", b))
        }
        _ => return None,
    })
}

struct RetInClosure(bool, usize);
impl<'ast> Visit<'ast> for RetInClosure {
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        self.1 += 1;
        visit::visit_expr_closure(self, c);
        self.1 -= 1;
    }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        if self.1 > 0 {
            self.0 = true;
        }
        visit::visit_expr_return(self, r);
    }
}
fn uses_return_in_closure(b: &syn::Block) -> bool {
    let mut v = RetInClosure(false, 0);
    v.visit_block(b);
    v.0
}

struct V<'b, 'a> {
    c: &'b mut FnCtx<'a>,
    fi: usize,
    selfmap: Option<String>,
    edits: Vec<(usize, usize, String)>,
    tail: bool,
}

fn apply(text: &str, a: usize, b: usize, mut edits: Vec<(usize, usize, String)>) -> String {
    edits.sort_by_key(|e| (e.0, e.1));
    let mut out = String::new();
    let mut pos = a;
    for (s, e, r) in edits {
        if s < pos {
            continue;
        }
        out.push_str(&text[pos..s]);
        out.push_str(&r);
        pos = e;
    }
    out.push_str(&text[pos..b]);
    out
}

fn rx(c: &mut FnCtx, fi: usize, sm: &Option<String>, e: &syn::Expr) -> String {
    let g = c.g;
    let mut v = V {
        c,
        fi,
        selfmap: sm.clone(),
        edits: vec![],
        tail: false,
    };
    v.visit_expr(e);
    let ed = v.edits;
    let (a, b) = g.files[fi].range(e.span());
    apply(&g.files[fi].text, a, b, ed)
}

fn block_inner(c: &mut FnCtx, fi: usize, sm: Option<String>, b: &syn::Block, tail: bool) -> String {
    let g = c.g;
    let f = &g.files[fi];
    let mut v = V {
        c,
        fi,
        selfmap: sm,
        edits: vec![],
        tail: false,
    };
    let n = b.stmts.len();
    for (i, s) in b.stmts.iter().enumerate() {
        if tail && i + 1 == n {
            if let syn::Stmt::Expr(e, None) = s {
                v.tail = true;
                v.visit_expr(e);
                v.tail = false;
                continue;
            }
        }
        v.visit_stmt(s);
    }
    let ed = v.edits;
    let (a, z) = f.range(b.span());
    apply(&f.text, a + 1, z - 1, ed)
}

fn mac_name(m: &syn::Macro) -> String {
    m.path.segments.last().unwrap().ident.to_string()
}

fn strip_paren(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => strip_paren(&p.expr),
        syn::Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}

/// Specification of a pure boolean closure body; None when it is outside the subset.
fn to_spec(e: &syn::Expr) -> Option<String> {
    use syn::{BinOp, Expr, UnOp};
    Some(match e {
        Expr::Paren(p) => format!("({})", to_spec(&p.expr)?),
        Expr::Binary(b) => {
            let op = match b.op {
                BinOp::And(_) => return Some(format!("({} && {})", to_spec(&b.left)?, to_spec(&b.right)?)),
                BinOp::Or(_) => return Some(format!("({} || {})", to_spec(&b.left)?, to_spec(&b.right)?)),
                BinOp::Eq(_) => "==",
                BinOp::Ne(_) => "!=",
                BinOp::Lt(_) => "<",
                BinOp::Le(_) => "<=",
                BinOp::Gt(_) => ">",
                BinOp::Ge(_) => ">=",
                _ => return None,
            };
            format!("({} {} {})", leaf(&b.left)?, op, leaf(&b.right)?)
        }
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => format!("!({})", to_spec(&u.expr)?),
        Expr::MethodCall(m) if m.args.len() == 1 => {
            let f = match m.method.to_string().as_str() {
                "starts_with" => "crate::str_starts",
                "ends_with" => "crate::str_ends",
                "eq_ignore_ascii_case" => "crate::str_same_letters",
                "eq" => return Some(format!("({} == {})", leaf(&m.receiver)?, leaf(&m.args[0])?)),
                "ne" => return Some(format!("({} != {})", leaf(&m.receiver)?, leaf(&m.args[0])?)),
                _ => return None,
            };
            format!("{}({}, {})", f, leaf(&m.receiver)?, leaf(&m.args[0])?)
        }
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            syn::Stmt::Expr(e, None) => to_spec(e)?,
            _ => return None,
        },
        _ => return None,
    })
}

fn place(e: &syn::Expr) -> Option<String> {
    use syn::{Expr, UnOp};
    Some(match e {
        Expr::Paren(p) => place(&p.expr)?,
        Expr::Reference(r) => place(&r.expr)?,
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => place(&u.expr)?,
        Expr::Path(p) => {
            let t = quote::quote!(#p).to_string();
            t.replace(' ', "")
        }
        Expr::Field(f) => {
            let m = &f.member;
            format!("{}.{}", place(&f.base)?, quote::quote!(#m))
        }
        Expr::MethodCall(m) if m.args.is_empty() => match m.method.to_string().as_str() {
            "as_str" | "to_string" | "clone" | "as_ref" | "deref" | "to_owned" | "as_deref" => place(&m.receiver)?,
            "id" => format!("{}.context.job_id", place(&m.receiver)?),
            _ => return None,
        },
        _ => return None,
    })
}

fn leaf(e: &syn::Expr) -> Option<String> {
    use syn::{Expr, Lit};
    Some(match strip_paren(e) {
        Expr::Lit(l) => match &l.lit {
            Lit::Str(s) => format!("{:?}@", s.value()),
            Lit::Int(i) => i.to_string(),
            Lit::Bool(b) => b.value.to_string(),
            _ => return None,
        },
        e => format!("({}).vxv()", place(e)?),
    })
}

pub enum Piece {
    Lit(String),
    Disp(String),
    Dbg(String),
}

/// Pieces of a format! call; the argument texts are given by `arg`.
pub fn format_pieces(m: &syn::Macro) -> Result<(Vec<Piece>, Vec<syn::Expr>), String> {
    let args = m
        .parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated)
        .map_err(|e| e.to_string())?;
    let args: Vec<syn::Expr> = args.into_iter().collect();
    let fmt = match args.first() {
        Some(syn::Expr::Lit(syn::ExprLit {
            lit: syn::Lit::Str(s),
            ..
        })) => s.value(),
        _ => return Err("format string is not a literal".into()),
    };
    let mut pieces = vec![];
    let mut lit = String::new();
    let cs: Vec<char> = fmt.chars().collect();
    let mut i = 0;
    let mut next = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 2;
            }
            '}' if cs.get(i + 1) == Some(&'}') => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let mut j = i + 1;
                while j < cs.len() && cs[j] != '}' {
                    j += 1;
                }
                let spec: String = cs[i + 1..j].iter().collect();
                let (name, f) = spec.split_once(':').unwrap_or((&spec, ""));
                if !f.is_empty() && f != "?" {
                    return Err(format!("format spec {}", f));
                }
                if !lit.is_empty() {
                    pieces.push(Piece::Lit(std::mem::take(&mut lit)));
                }
                let a = if name.is_empty() {
                    next += 1;
                    format!("#{}", next)
                } else if let Ok(n) = name.parse::<usize>() {
                    format!("#{}", n + 1)
                } else {
                    // named argument or captured identifier
                    match args.iter().position(|a| match a {
                        syn::Expr::Assign(x) => {
                            let l = &x.left;
                            quote::quote!(#l).to_string() == name
                        }
                        _ => false,
                    }) {
                        Some(n) => format!("={}", n),
                        None => name.to_string(),
                    }
                };
                pieces.push(if f == "?" { Piece::Dbg(a) } else { Piece::Disp(a) });
                i = j + 1;
            }
            c => {
                lit.push(c);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        pieces.push(Piece::Lit(lit));
    }
    Ok((pieces, args))
}

impl<'b, 'a> V<'b, 'a> {
    fn f(&self) -> &'a SrcFile {
        &self.c.g.files[self.fi]
    }
    fn put(&mut self, s: proc_macro2::Span, r: String) {
        let (a, b) = self.f().range(s);
        self.edits.push((a, b, r));
    }
    fn sub(&mut self, e: &syn::Expr) -> String {
        let sm = self.selfmap.clone();
        rx(self.c, self.fi, &sm, e)
    }
    fn blk(&mut self, b: &syn::Block) -> String {
        let sm = self.selfmap.clone();
        block_inner(self.c, self.fi, sm, b, false)
    }
    fn insert(&mut self, at: usize, r: String) {
        self.edits.push((at, at, r));
    }

    fn sub_tail(&mut self, e: &syn::Expr, tail: bool) -> String {
        let sm = self.selfmap.clone();
        let g = self.c.g;
        let fi = self.fi;
        let mut v = V { c: self.c, fi, selfmap: sm, edits: vec![], tail };
        v.visit_expr(e);
        let ed = v.edits;
        let (a, b) = g.files[fi].range(e.span());
        apply(&g.files[fi].text, a, b, ed)
    }

    /// match arms with the guards turned into conditions: the arms after a guarded one are tried again on its value
    fn arms_text(&mut self, scrut: &str, place: bool, shared: bool, arms: &[&syn::Arm], tail: bool) -> Option<String> {
        let mut t = String::new();
        for (i, a) in arms.iter().enumerate() {
            let b = self.sub_tail(&a.body, tail);
            match &a.guard {
                None => {
                    let p = self.f().slice(a.pat.span()).to_string();
                    t.push_str(&format!("{} => {{ {} }}\n", p, b));
                }
                Some((_, g)) => {
                    let g = self.sub(g);
                    // a variant without content: the next arms are decided here
                    let unit = |p: &syn::Pat| match p {
                        syn::Pat::Path(p) => Some(norm_ty(&quote::quote!(#p).to_string())),
                        syn::Pat::Ident(i) if i.subpat.is_none() && i.ident.to_string().starts_with(char::is_uppercase) => Some(i.ident.to_string()),
                        syn::Pat::Wild(_) => Some("_".into()),
                        _ => None,
                    };
                    if let Some(u) = unit(&a.pat).filter(|u| u != "_") {
                        let mut chain = format!("if {} {{ {} }}", g, b);
                        let mut closed = false;
                        for n in &arms[i + 1..] {
                            match unit(&n.pat) {
                                Some(x) if x == u || x == "_" => {}
                                _ => continue,
                            }
                            let nb = self.sub_tail(&n.body, tail);
                            match &n.guard {
                                Some((_, ng)) => {
                                    let ng = self.sub(ng);
                                    chain.push_str(&format!(" else if {} {{ {} }}", ng, nb));
                                }
                                None => {
                                    chain.push_str(&format!(" else {{ {} }}", nb));
                                    closed = true;
                                    break;
                                }
                            }
                        }
                        if !closed {
                            return None;
                        }
                        t.push_str(&format!("{} => {{ {} }}\n", self.f().slice(a.pat.span()), chain));
                        continue;
                    }
                    let mut k = 0;
                    let (p, again) = match pat_again(&a.pat, &mut k) {
                        // looking at the same place once more
                        _ if shared => (self.f().slice(a.pat.span()).to_string(), scrut.to_string()),
                        Some(x) => x,
                        None if place => (self.f().slice(a.pat.span()).to_string(), scrut.to_string()),
                        None => return None,
                    };
                    let rest = self.arms_text(&again, false, shared, &arms[i + 1..], tail)?;
                    let total = arms[i + 1..].iter().any(|a| a.guard.is_none() && matches!(&a.pat, syn::Pat::Wild(_) | syn::Pat::Ident(syn::PatIdent { subpat: None, .. })));
                    let never = if total { "" } else { "_ => vx_never()," };
                    t.push_str(&format!("{} => {{ if {} {{ {} }} else {{ match {} {{ {} {} }} }} }}\n", p, g, b, again, rest, never));
                }
            }
        }
        Some(t)
    }

    fn add_w(&mut self, args: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>, end: usize) {
        // `end` is the offset of the closing parenthesis
        let t = if args.is_empty() || args.trailing_punct() {
            "Tracked(w)"
        } else {
            ", Tracked(w)"
        };
        self.insert(end, t.into());
        self.c.edit("ghost world argument");
        if !self.c.has_w {
            self.c.problem("unsupported: effectful call in a function whose contract has no effects");
        }
    }

    fn format_mac(&mut self, m: &syn::Macro) -> String {
        match format_pieces(m) {
            Err(e) => {
                self.c.problem(&format!("unsupported: format!: {}", e));
                "vx_unsupported()".into()
            }
            Ok((ps, args)) => {
                self.c.edit("format! -> concatenation of Display/Debug views");
                let mut acc = String::new();
                for p in ps {
                    let mut arg = |a: &str| -> String {
                        if let Some(n) = a.strip_prefix('#') {
                            let n: usize = n.parse().unwrap();
                            match args.get(n) {
                                Some(e) => self.sub(e),
                                None => "vx_unsupported()".into(),
                            }
                        } else if let Some(n) = a.strip_prefix('=') {
                            match &args[n.parse::<usize>().unwrap()] {
                                syn::Expr::Assign(x) => self.sub(&x.right),
                                _ => "vx_unsupported()".into(),
                            }
                        } else {
                            a.to_string()
                        }
                    };
                    let t = match p {
                        Piece::Lit(s) => format!("vx_lit({:?})", s),
                        Piece::Disp(a) => format!("({}).vx_disp()", arg(&a)),
                        Piece::Dbg(a) => format!("({}).vx_dbg()", arg(&a)),
                    };
                    acc = if acc.is_empty() { t } else { format!("vx_cat({}, {})", acc, t) };
                }
                if acc.is_empty() {
                    acc = "vx_lit(\"\")".into();
                }
                acc
            }
        }
    }

    fn macro_text(&mut self, m: &syn::Macro, stmt: bool) -> Option<String> {
        let n = mac_name(m);
        if LOG_MACROS.contains(&n.as_str()) {
            self.c.edit("log macro dropped");
            return Some(if stmt { String::new() } else { "()".into() });
        }
        match n.as_str() {
            "format" => Some(self.format_mac(m)),
            "vec" if m.tokens.is_empty() => Some("Vec::new()".into()),
            "vec" | "json" => None,
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.c.edit("panic! -> call with precondition false");
                Some("vx_panic()".into())
            }
            "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" => {
                let el = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated);
                let el: Vec<syn::Expr> = match el {
                    Ok(e) => e.into_iter().collect(),
                    Err(_) => vec![],
                };
                let two = n.ends_with("_eq") || n.ends_with("_ne");
                if el.len() < if two { 2 } else { 1 } {
                    self.c.problem("unsupported: assert!");
                    return None;
                }
                self.c.edit("assert! -> call with precondition false when it does not hold");
                let a = self.sub(&el[0]);
                let c = if two { format!("{} {} {}", a, if n.ends_with("_eq") { "==" } else { "!=" }, self.sub(&el[1])) } else { a };
                Some(format!("if !({}) {{ vx_panic(); }}", c))
            }
            "matches" => {
                let r = m.parse_body_with(|i: syn::parse::ParseStream| {
                    let e: syn::Expr = i.parse()?;
                    i.parse::<syn::Token![,]>()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(syn::Token![if]) {
                        i.parse::<syn::Token![if]>()?;
                        Some(i.parse::<syn::Expr>()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<syn::Token![,]>>();
                    Ok((e, p, g))
                });
                match r {
                    Ok((e, p, gd)) => {
                        self.c.edit("matches! -> match");
                        let et = self.sub(&e);
                        let pt = self.f().slice(p.span()).to_string();
                        let gt = match gd {
                            Some(g) => self.sub(&g),
                            None => "true".into(),
                        };
                        Some(format!("(match {} {{ {} => {}, _ => false }})", et, pt, gt))
                    }
                    Err(_) => {
                        self.c.problem("unsupported: matches!");
                        None
                    }
                }
            }
            n => {
                self.c.problem(&format!("unsupported: macro {}!", n));
                None
            }
        }
    }

    fn loop_text(&mut self, head: &str, pats: &[String], iter: Option<&str>, body: String, n: usize) -> (String, String) {
        let spec = self.loop_spec(n);
        let inlined = !self.c.stack.is_empty();
        let mut t = String::new();
        let mut inv = vec![];
        if let Some(it) = iter {
            inv.push(Clause {
                labels: vec![],
                text: format!("{}.vx_wf() && {}.elems() == vx_e{}", it, it, n),
            });
        }
        if !inlined || !spec.invariants.is_empty() {
            for c in &spec.invariants {
                let tx = self.c.subst(&c.text, pats);
                inv.push(Clause {
                    labels: c.labels.clone(),
                    text: tx,
                });
            }
        }
        t.push_str(head);
        t.push('\n');
        let key = self.c.key.clone();
        let props = self.c.cc.props.clone();
        clause_lines(&mut t, "invariant", &inv, &format!("{}#loop{}", key, n), &props);
        // the first measure that applies; a `for` runs down its iterator
        let dec = match (spec.decreases.first(), iter) {
            (Some(d), _) => Some(Clause { labels: d.labels.clone(), text: self.c.subst(&d.text, pats) }),
            (None, Some(it)) => Some(Clause { labels: vec![], text: format!("vx_e{}.len() - {}.pos()", n, it) }),
            _ => None,
        };
        match dec {
            Some(d) => clause_lines(&mut t, "decreases", &[d], &format!("{}#loop{}", key, n), &props),
            None => self.c.no_measure += 1,
        }
        let top = self.c.subst(&spec.top, pats);
        let bottom = self.c.subst(&spec.bottom, pats);
        t.push_str("{\n//@TOP\n");
        let t = t.replace("//@TOP\n", "");
        let pre = self.c.subst(&spec.pre, pats);
        let post = self.c.subst(&spec.post, pats);
        (
            pre,
            format!("{}\u{1}{}{}{}\n}}\n{}", t, top, body, bottom, post),
        )
    }

    /// annotation of loop n: the lines that apply to its kind and to the locals there are
    fn loop_spec(&self, n: usize) -> LoopSpec {
        let mut l = self.loop_spec_all(n);
        let kind = self.c.loop_kinds.get(n).cloned().unwrap_or_default();
        let has = |tag: &str| {
            let k = tag.find(|c: char| c.is_ascii_digit()).map(|i| tag[i..].parse::<usize>().unwrap_or(0)).unwrap_or(0);
            match tag.trim_end_matches(|c: char| c.is_ascii_digit()) {
                "num" => self.c.nums.len() > k,
                "vec" => self.c.vecs.len() > k,
                "some" => self.c.somes.len() > k,
                "guard" => self.c.guards.len() > k,
                "flag" => self.c.flags.len() > k,
                "entry" => self.c.entries.len() > k,
                "range" => self.c.loop_ranges.contains(&n),
                t => t == kind,
            }
        };
        let cond = |t: &str| -> Option<String> {
            match t.strip_prefix("@[").and_then(|r| r.split_once(']')) {
                Some((tags, rest)) => {
                    let ok = tags.split(',').all(|x| match x.trim().strip_prefix('!') {
                        Some(y) => !has(y),
                        None => has(x.trim()),
                    });
                    ok.then(|| rest.trim_start().to_string())
                }
                None => Some(t.to_string()),
            }
        };
        let lines = |t: &str| -> String { t.lines().filter_map(|x| cond(x)).map(|x| x + "\n").collect() };
        l.invariants = l.invariants.into_iter().filter_map(|c| cond(&c.text).map(|text| Clause { labels: c.labels, text })).collect();
        l.decreases = l.decreases.into_iter().filter_map(|c| cond(&c.text).map(|text| Clause { labels: c.labels, text })).collect();
        l.pre = lines(&l.pre);
        l.top = lines(&l.top);
        l.bottom = lines(&l.bottom);
        l.post = lines(&l.post);
        l
    }
    /// a loop more than the annotated ones tries the last annotation
    fn loop_spec_all(&self, n: usize) -> LoopSpec {
        let ls = &self.c.cc.loops;
        match ls.get(n) {
            Some(l) => l.clone(),
            None => match ls.last() {
                Some(l) => {
                    let k = ls.len() - 1;
                    let rn = |t: &str| t.replace(&format!("vx_e{}", k), &format!("vx_e{}", n)).replace(&format!("it{}.", k), &format!("it{}.", n));
                    LoopSpec {
                        invariants: l.invariants.iter().map(|c| Clause { labels: c.labels.clone(), text: rn(&c.text) }).collect(),
                        decreases: l.decreases.iter().map(|c| Clause { labels: c.labels.clone(), text: rn(&c.text) }).collect(),
                        pre: rn(&l.pre),
                        top: rn(&l.top),
                        bottom: rn(&l.bottom),
                        post: rn(&l.post),
                        kind: String::new(),
                    }
                }
                None => LoopSpec::default(),
            },
        }
    }

    fn enter_loop(&mut self, n: usize, pats: &[String]) {
        let b = self.loop_spec(n).bottom;
        let b = self.c.subst(&b, pats);
        self.c.loop_bottoms.push(b);
    }

    fn for_loop(&mut self, l: &syn::ExprForLoop) -> String {
        let n = self.c.loop_count;
        self.c.loop_kinds.push("for".into());
        self.c.loop_count += 1;
        self.c.edit("for -> loop over an iterator shim");
        let it = format!("it{}", n);
        if matches!(strip_paren(&l.expr), syn::Expr::Range(_)) {
            self.c.loop_ranges.insert(n);
        }
        let src = self.iter_expr(&l.expr);
        let pat = self.f().slice(l.pat.span()).to_string();
        let mut names = PatNames(vec![]);
        names.visit_pat(&l.pat);
        self.enter_loop(n, &names.0);
        let body = self.blk(&l.body);
        self.c.loop_bottoms.pop();
        let label = l.label.as_ref().map(|x| format!("{}: ", x.name)).unwrap_or_default();
        let (pre, t) = self.loop_text(&format!("{}loop", label), &names.0, Some(&it), format!("{{{}}}", body), n);
        let t = t.replacen(
            '\u{1}',
            &format!("let {} = match {}.next() {{ Some(vx_x) => vx_x, None => break }};\n", pat, it),
            1,
        );
        format!("{{ let mut {} = {};\nlet ghost vx_e{} = {}.elems();\n{}{} }}", it, src, n, it, pre, t)
    }

    fn iter_expr(&mut self, e: &syn::Expr) -> String {
        match strip_paren(e) {
            syn::Expr::Range(r) => self.range(r),
            e => {
                let t = self.sub(e);
                format!("({}).vx_into_iter()", t)
            }
        }
    }

    fn range(&mut self, r: &syn::ExprRange) -> String {
        let a = match &r.start {
            Some(a) => self.sub(a),
            None => "0".into(),
        };
        match (&r.end, &r.limits) {
            (Some(b), syn::RangeLimits::HalfOpen(_)) => format!("vx_range({}, {})", a, self.sub(b)),
            (Some(b), syn::RangeLimits::Closed(_)) => format!("vx_range_incl({}, {})", a, self.sub(b)),
            _ => {
                self.c.problem("unsupported: open range");
                "vx_unsupported()".into()
            }
        }
    }

    fn while_loop(&mut self, l: &syn::ExprWhile) -> String {
        let n = self.c.loop_count;
        // `while let Some(p) = it.next()` over a local iterator is a `for` over it
        if let syn::Expr::Let(le) = &*l.cond {
            if let (syn::Pat::TupleStruct(ts), syn::Expr::MethodCall(m)) = (&*le.pat, strip_paren(&le.expr)) {
                if let (true, true, 1, syn::Expr::Path(it)) = (ts.path.is_ident("Some"), m.method == "next" && m.args.is_empty(), ts.elems.len(), &*m.receiver) {
                    if let Some(it) = it.path.get_ident() {
                        let it = it.to_string();
                        let kinds_for = self.c.cc.loops.get(n).is_some_and(|x| x.kind.split('|').any(|k| k == "for"));
                        if kinds_for {
                            self.c.loop_kinds.push("for".into());
                            self.c.loop_count += 1;
                            self.c.edit("while let Some(_) = it.next() -> loop over an iterator shim");
                            let label = l.label.as_ref().map(|x| format!("{}: ", x.name)).unwrap_or_default();
                            let pat = self.f().slice(ts.elems[0].span()).to_string();
                            let mut names = PatNames(vec![]);
                            names.visit_pat(&ts.elems[0]);
                            self.enter_loop(n, &names.0);
                            let body = self.blk(&l.body);
                            self.c.loop_bottoms.pop();
                            let (pre, t) = self.loop_text(&format!("{}loop", label), &names.0, Some(&it), format!("{{{}}}", body), n);
                            let t = t.replacen('\u{1}', &format!("let {} = match {}.next() {{ Some(vx_x) => vx_x, None => break }};\n", pat, it), 1);
                            let (pre, t) = (pre.replace(&format!("it{}.", n), &format!("{}.", it)), t.replace(&format!("it{}.", n), &format!("{}.", it)));
                            return format!("{{ let ghost vx_e{} = {}.elems();\n{}{} }}", n, it, pre, t);
                        }
                    }
                }
            }
        }
        self.c.loop_kinds.push("while".into());
        self.c.loop_count += 1;
        self.c.edit("while -> loop");
        let label = l.label.as_ref().map(|x| format!("{}: ", x.name)).unwrap_or_default();
        let mut names = PatNames(vec![]);
        if let syn::Expr::Let(le) = &*l.cond {
            names.visit_pat(&le.pat);
        }
        self.enter_loop(n, &names.0);
        let body = self.blk(&l.body);
        self.c.loop_bottoms.pop();
        let t = match &*l.cond {
            syn::Expr::Let(le) => {
                let p = self.f().slice(le.pat.span()).to_string();
                let e = self.sub(&le.expr);
                format!("match {} {{ {} => {{{}}}, _ => break }}", e, p, body)
            }
            c => {
                let e = self.sub(c);
                format!("if !({}) {{ break; }}\n{}", e, body)
            }
        };
        let (pre, t) = self.loop_text(&format!("{}loop", label), &names.0, None, t, n);
        let t = t.replacen('\u{1}', "", 1);
        format!("{{ {}{} }}", pre, t)
    }

    fn plain_loop(&mut self, l: &syn::ExprLoop) -> String {
        let n = self.c.loop_count;
        self.c.loop_kinds.push("loop".into());
        self.c.loop_count += 1;
        let label = l.label.as_ref().map(|x| format!("{}: ", x.name)).unwrap_or_default();
        self.enter_loop(n, &[]);
        let endless = !has_break(l);
        let before = self.c.ret_posts.clone();
        let post = self.loop_spec(n).post;
        if endless {
            let p = self.c.subst(&post, &[]);
            self.c.ret_posts = format!("{}\n{}", p, before);
        }
        let body = self.blk(&l.body);
        self.c.ret_posts = before;
        self.c.loop_bottoms.pop();
        let (pre, t) = self.loop_text(&format!("{}loop", label), &[], None, body, n);
        let mut t = t.replacen('\u{1}', "", 1);
        if endless {
            // such a loop has type `!`: it is left by a return only, which carries the steps
            let p = self.c.subst(&post, &[]);
            t.truncate(t.len() - p.len());
        }
        format!("{{ {}{} }}", pre, t)
    }

    fn pred_closure(&mut self, c: &syn::ExprClosure) -> Option<(String, String)> {
        let spec = to_spec(&c.body)?;
        let ps: Vec<String> = c.inputs.iter().map(|p| self.f().slice(p.span()).to_string()).collect();
        if c.inputs.iter().any(|p| {
            !matches!(p, syn::Pat::Ident(_)) && !matches!(p, syn::Pat::Type(t) if matches!(&*t.pat, syn::Pat::Ident(_)))
        }) {
            return None;
        }
        // spec closures need a parameter type
        let names: Vec<String> = c
            .inputs
            .iter()
            .map(|p| {
                let t = self.f().slice(p.span()).to_string();
                match p {
                    syn::Pat::Type(_) => t,
                    _ if spec.contains(".context.job_id") => format!("{}: &Job<M>", t),
                    _ => format!("{}: &String", t),
                }
            })
            .collect();
        let body = self.sub(&c.body);
        self.c.edit("closure given its own body as ensures");
        Some((
            format!(
                "|{}| -> (vx_b: bool) ensures vx_b == ({}) {{ {} }}",
                ps.join(", "),
                spec,
                body
            ),
            format!("Ghost(|{}| {})", names.join(", "), spec),
        ))
    }

    /// Inline a helper that has no contract.
    fn inline(&mut self, h: &Helper, recv: Option<String>, args: Vec<String>, q_ok: bool) -> Option<String> {
        if self.c.stack.contains(&h.key) || self.c.stack.len() > 4 {
            self.c.problem(&format!("unsupported: recursive helper {}", h.key));
            return None;
        }
        let mut scan = Scan::default();
        scan.visit_block(&h.block);
        if scan.try_ && !q_ok {
            self.c.problem(&format!("unsupported: `?` in helper {} not called under `?`", h.key));
            return None;
        }
        self.c.stack.push(h.key.clone());
        self.c.inlined.insert(h.key.clone());
        let hf = &self.c.g.files[h.file];
        let n = self.c.tmp;
        self.c.tmp += 1;
        // type parameters of the same names as the caller's stand for the same types (else the text does not type check)
        let known = h.sig.generics.params.iter().all(|p| match p {
            syn::GenericParam::Type(t) => self.c.generics.contains(&t.ident.to_string()),
            _ => false,
        });
        let mut t = String::from("{ ");
        let mut ai = args.into_iter();
        let mut binds = String::new();
        for (i, p) in h.sig.inputs.iter().enumerate() {
            if let syn::FnArg::Typed(p) = p {
                let a = ai.next().unwrap_or_default();
                let is_mut = matches!(&*p.ty, syn::Type::Reference(r) if r.mutability.is_some());
                // a lock guard stands for the place it protects
                let a = match a.trim().strip_prefix("&mut ") {
                    Some(x) if self.c.guards.iter().any(|g| g == x.trim()) => format!("&mut *{}", x.trim()),
                    _ => a,
                };
                let a = if is_mut && a.trim().chars().all(|c| c.is_alphanumeric() || c == '_') { format!("&mut *{}", a.trim()) } else { a };
                t.push_str(&format!("let vx_a{}_{} = {}; ", n, i, a));
                let ty = plain_dyn(hf.slice(p.ty.span()));
                let generic = !known || ty.contains("impl ") || ty.contains("MutexGuard");
                let pat = hf.slice(p.pat.span());
                let byref = matches!(&*p.ty, syn::Type::Reference(_));
                let _ = byref;
                if !generic && !ty.contains('\'') {
                    binds.push_str(&format!("let {}: {} = vx_a{}_{}; ", pat, ty, n, i));
                } else {
                    binds.push_str(&format!("let {} = vx_a{}_{}; ", pat, n, i));
                }
            }
        }
        t.push_str(&binds);
        // `match self`, `*self`, `f(self)`: the reference itself is used
        let by_ref = h.sig.receiver().map(|r| r.reference.is_some() && r.mutability.is_none()).unwrap_or(false) && bare_self(&h.block);
        let sm = match recv {
            Some(r) if r.trim() == "self" => self.selfmap.clone(),
            Some(r) if by_ref => Some(format!("(&({}))", r)),
            Some(r) => Some(format!("({})", r)),
            None => self.selfmap.clone(),
        };
        let same_ty = h.key.starts_with(&format!("{}.", self.c.self_ty)) || !h.key.contains('.');
        let self_was = self.c.self_ty.clone();
        if !same_ty {
            self.c.self_ty = h.key.split('.').next().unwrap_or("").to_string();
        }
        let mut pp = PatPlaces(hf, vec![]);
        pp.visit_block(&h.block);
        self.c.pats.extend(pp.1.into_iter().map(|(at, m)| (h.file, at, m)));
        let stmts = h.block.stmts.clone();
        let body = if scan.ret {
            match tailify(self.c, h.file, &sm, &stmts) {
                Some(b) => b,
                None => {
                    self.c.problem(&format!("unsupported: control flow of helper {}", h.key));
                    self.c.stack.pop();
                    self.c.self_ty = self_was;
                    return None;
                }
            }
        } else {
            block_inner(self.c, h.file, sm, &h.block, false)
        };
        let named = |t: &str| if same_ty || h.impl_ty.is_empty() { t.to_string() } else { name_self(t, &h.impl_ty) };
        let body = named(&body);
        let t_ = named(&t);
        t = t_;
        self.c.self_ty = self_was;
        match &h.sig.output {
            syn::ReturnType::Type(_, ty) if known && !hf.slice(ty.span()).contains('\'') && !hf.slice(ty.span()).contains("impl ") => {
                let ty = named(hf.slice(ty.span()));
                t.push_str(&format!("let vx_r{}: {} = {{ {} }}; vx_r{} }}", n, ty, body, n));
            }
            _ => t.push_str(&format!("{} }}", body)),
        }
        self.c.stack.pop();
        self.c.edit("uncontracted helper inlined");
        Some(t)
    }

    /// the name of the type of a place, where the declarations tell it
    fn type_of(&self, e: &syn::Expr) -> Option<String> {
        match strip_paren(e) {
            syn::Expr::Path(p) if p.path.is_ident("self") => Some(self.c.self_ty.clone()),
            syn::Expr::Reference(r) => self.type_of(&r.expr),
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.type_of(&u.expr),
            syn::Expr::Field(f) => {
                let t = self.type_of(&f.base)?;
                let m = &f.member;
                self.c.g.structs.get(&t)?.get(&quote::quote!(#m).to_string()).cloned()
            }
            _ => None,
        }
    }

    fn helper_of_call(&self, c: &syn::ExprCall) -> Option<&'a Helper> {
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.len() == 1 {
                let own = self.c.g.free_helpers.get(&format!("{}#{}", self.fi, segs[0]));
                return own.or_else(|| self.c.g.free_helpers.get(&segs[0]));
            }
            let n = segs.len();
            let ty = if segs[n - 2] == "Self" { self.c.self_ty.clone() } else { segs[n - 2].clone() };
            return self.c.g.free_helpers.get(&format!("{}::{}", ty, segs[n - 1])).or_else(|| {
                if ["crate", "super", "util", "types"].contains(&segs[n - 2].as_str()) {
                    self.c.g.free_helpers.get(&segs[n - 1])
                } else {
                    None
                }
            });
        }
        None
    }

    /// the closure a name stands for at this place, unless a name it uses is bound anew in between
    fn named_closure(&mut self, e: &syn::Expr) -> Option<std::rc::Rc<syn::ExprClosure>> {
        let n = match strip_paren(e) {
            syn::Expr::Path(p) => p.path.get_ident()?.to_string(),
            syn::Expr::Reference(r) => return self.named_closure(&r.expr),
            _ => return None,
        };
        let cl = self.c.closures.iter().rev().find(|(f, m, _)| *f == self.fi && *m == n)?.2.clone();
        let (_, end) = self.f().range(cl.span());
        let (here, _) = self.f().range(e.span());
        let body = &cl.body;
        let used = idents(&[syn::Stmt::Expr((**body).clone(), None)]);
        let fi = self.fi;
        if self.c.pats.iter().any(|(f, at, m)| *f == fi && end <= *at && *at < here && (used.contains(m) || *m == n)) {
            self.c.problem("unsupported: closure over a name bound again");
            return None;
        }
        Some(cl)
    }

    fn call_closure(&mut self, cl: &syn::ExprClosure, args: Vec<String>, q_ok: bool) -> Option<String> {
        let mut scan = Scan::default();
        scan.visit_expr(&cl.body);
        if scan.try_ && !q_ok || args.len() != cl.inputs.len() || self.c.stack.len() > 4 {
            self.c.problem("unsupported: closure");
            return None;
        }
        self.c.stack.push("|closure|".into());
        let n = self.c.tmp;
        self.c.tmp += 1;
        let mut t = String::from("{ ");
        for (i, a) in args.iter().enumerate() {
            t.push_str(&format!("let vx_a{}_{} = {}; ", n, i, a));
        }
        for (i, p) in cl.inputs.iter().enumerate() {
            t.push_str(&format!("let {} = vx_a{}_{}; ", self.f().slice(p.span()), n, i));
        }
        let sm = self.selfmap.clone();
        let fi = self.fi;
        let body = match &*cl.body {
            syn::Expr::Block(b) if scan.ret => match tailify(self.c, fi, &sm, &b.block.stmts) {
                Some(b) => b,
                None => {
                    self.c.problem("unsupported: control flow of a closure");
                    self.c.stack.pop();
                    return None;
                }
            },
            syn::Expr::Block(b) => block_inner(self.c, fi, sm, &b.block, false),
            x => rx(self.c, fi, &sm, x),
        };
        self.c.stack.pop();
        match &cl.output {
            syn::ReturnType::Type(_, ty) => {
                let ty = self.f().slice(ty.span());
                t.push_str(&format!("let vx_r{}: {} = {{ {} }}; vx_r{} }}", n, ty, body, n));
            }
            _ => t.push_str(&format!("{} }}", body)),
        }
        Some(t)
    }

    fn try_inline(&mut self, e: &syn::Expr, q_ok: bool) -> bool {
        match e {
            syn::Expr::Call(c) => {
                if let Some(cl) = self.named_closure(&c.func) {
                    let args: Vec<String> = c.args.iter().map(|a| self.sub(a)).collect();
                    if let Some(t) = self.call_closure(&cl, args, q_ok) {
                        self.put(e.span(), t);
                        return true;
                    }
                }
                if let Some(h) = self.helper_of_call(c) {
                    let args: Vec<String> = c.args.iter().map(|a| self.sub(a)).collect();
                    if let Some(t) = self.inline(h, None, args, q_ok) {
                        self.put(e.span(), t);
                        return true;
                    }
                }
            }
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(hs) = self.c.g.method_helpers.get(&name) {
                    let ty = self.type_of(&m.receiver);
                    let of = |h: &&Helper| ty.as_ref().map(|t| h.key.starts_with(&format!("{}.", t))).unwrap_or(false);
                    let other = self.c.g.contracts.files.iter().any(|f| f.fns.keys().any(|k| k.rsplit('.').next() == Some(name.as_str())));
                    let h = match hs.iter().find(of) {
                        Some(h) => h,
                        // a receiver of unknown type: only when no other method has this name
                        None if ty.is_none() && !other && hs.len() == 1 => &hs[0],
                        None if ty.as_ref().map(|t| !self.c.g.structs.contains_key(t)).unwrap_or(false) && !other && hs.len() == 1 => &hs[0],
                        _ => return false,
                    };
                    let r = self.sub(&m.receiver);
                    let args: Vec<String> = m.args.iter().map(|a| self.sub(a)).collect();
                    if let Some(t) = self.inline(h, Some(r), args, q_ok) {
                        self.put(e.span(), t);
                        return true;
                    }
                }
            }
            _ => {}
        }
        false
    }
}

/// is `self` used other than as `self.x`?
fn bare_self(b: &syn::Block) -> bool {
    struct B(bool);
    impl<'ast> Visit<'ast> for B {
        fn visit_expr_field(&mut self, f: &'ast syn::ExprField) {
            if !matches!(&*f.base, syn::Expr::Path(p) if p.path.is_ident("self")) {
                visit::visit_expr_field(self, f);
            }
        }
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
            if !matches!(&*m.receiver, syn::Expr::Path(p) if p.path.is_ident("self")) {
                self.visit_expr(&m.receiver);
            }
            for a in &m.args {
                self.visit_expr(a);
            }
        }
        fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
            self.0 |= p.path.is_ident("self");
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            if mac_name(m) == "matches" {
                self.0 |= m.tokens.to_string().starts_with("self ");
            }
        }
    }
    let mut v = B(false);
    v.visit_block(b);
    v.0
}

/// `Self` written out: bare in expressions (its arguments are inferred), with its arguments as a type
fn name_self(t: &str, ty: &str) -> String {
    let bare = ty.split('<').next().unwrap_or(ty).trim();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find("Self") {
        let before = rest[..i].chars().last().or(out.chars().last());
        let after = &rest[i + 4..];
        out.push_str(&rest[..i]);
        if before.map(word).unwrap_or(false) || after.chars().next().map(word).unwrap_or(false) {
            out.push_str("Self");
        } else if after.trim_start().starts_with("::") || after.trim_start().starts_with('{') || after.trim_start().starts_with('(') {
            out.push_str(bare);
        } else {
            out.push_str(ty);
        }
        rest = after;
    }
    out.push_str(rest);
    out
}

#[derive(Default)]
struct Scan {
    try_: bool,
    ret: bool,
}
impl<'ast> Visit<'ast> for Scan {
    fn visit_expr_try(&mut self, i: &'ast syn::ExprTry) {
        self.try_ = true;
        visit::visit_expr_try(self, i);
    }
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

/// `let f = |..| ..;`
fn local_closure(l: &syn::Local) -> Option<(String, &syn::ExprClosure)> {
    let syn::Pat::Ident(i) = &l.pat else { return None };
    let init = l.init.as_ref()?;
    match &*init.expr {
        syn::Expr::Closure(c) if init.diverge.is_none() && c.asyncness.is_none() && c.capture.is_none() && i.by_ref.is_none() => Some((i.ident.to_string(), c)),
        _ => None,
    }
}

struct PatNames(Vec<String>);
impl<'ast> Visit<'ast> for PatNames {
    fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
        self.0.push(i.ident.to_string());
        visit::visit_pat_ident(self, i);
    }
}

fn idents(stmts: &[syn::Stmt]) -> BTreeSet<String> {
    fn walk(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Ident(i) => {
                    out.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                // captured names in format strings
                proc_macro2::TokenTree::Literal(l) => {
                    for w in l.to_string().split(|c: char| !c.is_alphanumeric() && c != '_') {
                        out.insert(w.to_string());
                    }
                }
                _ => {}
            }
        }
    }
    let mut o = BTreeSet::new();
    for s in stmts {
        walk(quote::quote!(#s), &mut o);
    }
    o
}

fn diverges(stmts: &[syn::Stmt]) -> bool {
    match stmts.last() {
        Some(syn::Stmt::Expr(e, _)) => expr_diverges(e),
        _ => false,
    }
}
fn expr_diverges(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Return(_) => true,
        syn::Expr::Block(b) => diverges(&b.block.stmts),
        syn::Expr::If(i) => match &i.else_branch {
            Some((_, el)) => diverges(&i.then_branch.stmts) && expr_diverges(el),
            None => false,
        },
        syn::Expr::Match(m) => m.arms.iter().all(|a| expr_diverges(&a.body)),
        _ => false,
    }
}
fn has_ret_e(e: &syn::Expr) -> bool {
    let mut s = Scan::default();
    s.visit_expr(e);
    s.ret
}
fn has_ret_s(st: &syn::Stmt) -> bool {
    let mut s = Scan::default();
    s.visit_stmt(st);
    s.ret
}

fn stmt_text(c: &mut FnCtx, fi: usize, sm: &Option<String>, s: &syn::Stmt) -> String {
    let g = c.g;
    let mut v = V {
        c,
        fi,
        selfmap: sm.clone(),
        edits: vec![],
        tail: false,
    };
    v.visit_stmt(s);
    let ed = v.edits;
    let (a, b) = g.files[fi].range(s.span());
    apply(&g.files[fi].text, a, b, ed)
}

/// Rewrite a statement list with early returns into one whose value is the returned value.
fn tailify(c: &mut FnCtx, fi: usize, sm: &Option<String>, stmts: &[syn::Stmt]) -> Option<String> {
    if stmts.is_empty() {
        return Some("()".into());
    }
    let s = &stmts[0];
    let rest = &stmts[1..];
    if !has_ret_s(s) {
        let t = stmt_text(c, fi, sm, s);
        if rest.is_empty() {
            return Some(t);
        }
        return Some(format!("{}\n{}", t, tailify(c, fi, sm, rest)?));
    }
    match s {
        syn::Stmt::Expr(e, _) => tail_expr(c, fi, sm, e, rest),
        syn::Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let pat = c.g.files[fi].slice(l.pat.span()).to_string();
            if let Some((_, d)) = &init.diverge {
                let e = rx(c, fi, sm, &init.expr);
                let dv = match &**d {
                    syn::Expr::Block(b) => tailify(c, fi, sm, &b.block.stmts)?,
                    _ => return None,
                };
                let r = tailify(c, fi, sm, rest)?;
                return Some(format!("match {} {{ {} => {{ {} }}, _ => {{ {} }} }}", e, pat, r, dv));
            }
            if let syn::Expr::Match(m) = &*init.expr {
                if has_ret_e(&m.expr) {
                    return None;
                }
                let e = rx(c, fi, sm, &m.expr);
                let mut arms = String::new();
                for a in &m.arms {
                    let p = c.g.files[fi].slice(a.pat.span()).to_string();
                    if a.guard.is_some() {
                        return None;
                    }
                    let b = if expr_diverges(&a.body) {
                        tail_expr(c, fi, sm, &a.body, &[])?
                    } else {
                        if has_ret_e(&a.body) {
                            return None;
                        }
                        let mut names = PatNames(vec![]);
                        names.visit_pat(&a.pat);
                        let mut own = PatNames(vec![]);
                        own.visit_pat(&l.pat);
                        let used = idents(rest);
                        if names.0.iter().any(|n| used.contains(n) && !own.0.contains(n)) {
                            return None;
                        }
                        let v = rx(c, fi, sm, &a.body);
                        format!("let {} = {};\n{}", pat, v, tailify(c, fi, sm, rest)?)
                    };
                    arms.push_str(&format!("{} => {{ {} }}\n", p, b));
                }
                return Some(format!("match {} {{ {} }}", e, arms));
            }
            None
        }
        _ => None,
    }
}

fn tail_expr(c: &mut FnCtx, fi: usize, sm: &Option<String>, e: &syn::Expr, rest: &[syn::Stmt]) -> Option<String> {
    match e {
        syn::Expr::Return(r) => Some(match &r.expr {
            Some(x) => {
                if has_ret_e(x) {
                    return None;
                }
                rx(c, fi, sm, x)
            }
            None => "()".into(),
        }),
        syn::Expr::Block(b) => {
            if rest.is_empty() || diverges(&b.block.stmts) {
                tailify(c, fi, sm, &b.block.stmts)
            } else {
                None
            }
        }
        syn::Expr::If(i) => {
            if has_ret_e(&i.cond) {
                return None;
            }
            let cond = rx(c, fi, sm, &i.cond);
            let side = |c: &mut FnCtx, st: &[syn::Stmt]| -> Option<String> {
                if rest.is_empty() || diverges(st) {
                    tailify(c, fi, sm, st)
                } else {
                    // what follows is moved into this scope: nothing it mentions may be bound here
                    let mut bound = PatNames(vec![]);
                    bound.visit_expr(&i.cond);
                    for s in st {
                        if let syn::Stmt::Local(l) = s {
                            bound.visit_pat(&l.pat);
                        }
                    }
                    let used = idents(rest);
                    if bound.0.iter().any(|n| used.contains(n)) {
                        return None;
                    }
                    let mut all = st.to_vec();
                    if let Some(syn::Stmt::Expr(_, semi @ None)) = all.last_mut() {
                        *semi = Some(Default::default());
                    }
                    all.extend_from_slice(rest);
                    tailify(c, fi, sm, &all)
                }
            };
            let a = side(c, &i.then_branch.stmts)?;
            let b = match &i.else_branch {
                None => tailify(c, fi, sm, rest)?,
                Some((_, el)) => match &**el {
                    syn::Expr::Block(b) => side(c, &b.block.stmts)?,
                    e => tail_expr(c, fi, sm, e, rest)?,
                },
            };
            Some(format!("if {} {{ {} }} else {{ {} }}", cond, a, b))
        }
        syn::Expr::Match(m) => {
            if has_ret_e(&m.expr) {
                return None;
            }
            let x = rx(c, fi, sm, &m.expr);
            let mut arms = String::new();
            for a in &m.arms {
                let mut p = c.g.files[fi].slice(a.pat.span()).to_string();
                if let Some((_, g)) = &a.guard {
                    p.push_str(&format!(" if {}", rx(c, fi, sm, g)));
                }
                let b = if rest.is_empty() || expr_diverges(&a.body) {
                    if has_ret_e(&a.body) {
                        tail_expr(c, fi, sm, &a.body, &[])?
                    } else {
                        rx(c, fi, sm, &a.body)
                    }
                } else {
                    if has_ret_e(&a.body) {
                        return None;
                    }
                    let mut names = PatNames(vec![]);
                    names.visit_pat(&a.pat);
                    let used = idents(rest);
                    if names.0.iter().any(|n| used.contains(n)) {
                        return None;
                    }
                    let v = rx(c, fi, sm, &a.body);
                    format!("{};\n{}", v, tailify(c, fi, sm, rest)?)
                };
                arms.push_str(&format!("{} => {{ {} }}\n", p, b));
            }
            Some(format!("match {} {{ {} }}", x, arms))
        }
        _ => None,
    }
}

impl<'b, 'a, 'ast> Visit<'ast> for V<'b, 'a> {
    fn visit_item_const(&mut self, c: &'ast syn::ItemConst) {
        if let syn::Type::Reference(r) = &*c.ty {
            if r.lifetime.is_none() {
                let (_, b) = self.f().range(r.and_token.span);
                self.insert(b, "'static ".into());
            }
        }
        visit::visit_item_const(self, c)
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        match s {
            syn::Stmt::Macro(m) => {
                if let Some(t) = self.macro_text(&m.mac, true) {
                    let t = if t.is_empty() { t } else { format!("{};", t) };
                    self.put(s.span(), t);
                }
            }
            syn::Stmt::Expr(syn::Expr::Macro(m), semi) if LOG_MACROS.contains(&mac_name(&m.mac).as_str()) => {
                self.c.edit("log macro dropped");
                self.put(s.span(), if semi.is_some() { String::new() } else { "()".into() });
            }
            syn::Stmt::Local(l) if local_closure(l).is_some() => {
                let (n, c) = local_closure(l).unwrap();
                let fi = self.fi;
                self.c.closures.push((fi, n, std::rc::Rc::new(c.clone())));
                self.c.edit("named closure run where it is called");
                self.put(s.span(), String::new());
            }
            syn::Stmt::Local(l) => {
                // let-else is kept; attributes are not expected
                visit::visit_local(self, l);
            }
            _ => visit::visit_stmt(self, s),
        }
    }

    fn visit_pat(&mut self, _p: &'ast syn::Pat) {}
    fn visit_type(&mut self, _t: &'ast syn::Type) {}

    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if let Some(n) = p.path.get_ident() {
            if let Some(x) = self.c.g.contracts.files[self.fi].statics.get(&n.to_string()) {
                let x = x.clone();
                self.c.edit("static read through a stand-in");
                self.put(p.span(), x);
                return;
            }
        }
        if p.path.is_ident("self") {
            if let Some(m) = self.selfmap.clone() {
                self.put(p.span(), m);
            }
        }
    }

    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        use syn::Expr;
        let tail = std::mem::replace(&mut self.tail, false);
        match e {
            Expr::Macro(m) => {
                if let Some(t) = self.macro_text(&m.mac, false) {
                    self.put(e.span(), t);
                }
            }
            Expr::Await(a) => {
                self.c.edit(".await dropped");
                let (_, be) = self.f().range(a.base.span());
                let (_, ee) = self.f().range(e.span());
                self.edits.push((be, ee, String::new()));
                self.tail = tail;
                self.visit_expr(&a.base);
            }
            Expr::Try(t) => {
                let mut inner = &*t.expr;
                if let Expr::Await(a) = inner {
                    inner = &a.base;
                }
                if self.try_inline(inner, true) {
                    if let Expr::Await(a) = &*t.expr {
                        let (_, be) = self.f().range(a.base.span());
                        let (_, ee) = self.f().range(t.expr.span());
                        self.edits.push((be, ee, String::new()));
                    }
                    return;
                }
                self.visit_expr(&t.expr);
            }
            Expr::Return(r) if self.c.stack.is_empty() && self.c.ret_bottom.is_some() => {
                let (ty, bottom) = self.c.ret_bottom.clone().unwrap();
                let x = match &r.expr {
                    Some(x) => self.sub(x),
                    None => "()".into(),
                };
                self.put(e.span(), format!("{{ let vx_ret: {} = {};\n{}\nreturn vx_ret; }}", ty, x, bottom));
            }
            Expr::Return(r) if self.c.stack.is_empty() && !self.c.ret_posts.trim().is_empty() => {
                let x = match &r.expr {
                    Some(x) => self.sub(x),
                    None => String::new(),
                };
                let posts = self.c.ret_posts.clone();
                self.put(e.span(), format!("{{ {}\nreturn {}; }}", posts, x));
            }
            Expr::Return(r) => {
                if let Some(x) = &r.expr {
                    if !self.try_inline(x, true) {
                        self.visit_expr(x);
                    }
                }
            }
            Expr::Async(a) => {
                let n = self.c.async_count;
                self.c.async_count += 1;
                self.c.edit("async block verified as a task that starts in any later state");
                let b = self.blk(&a.block);
                let spec = self.c.cc.asyncs.get(n).cloned().unwrap_or_default();
                let pre = self.c.subst(&spec.pre, &[]);
                let post = self.c.subst(&spec.post, &[]);
                let ghost = self.c.subst(&spec.ghost, &[]);
                self.put(
                    e.span(),
                    format!(
                        "{{ let ghost vx_g: Str = {};\nlet ghost vx_w0 = *w;\nif vx_nondet() {{ vx_task_start(Ghost(vx_g), Tracked(w));\n{}\n{{ {} }}\n{}\nvx_task_end(); }}\nvx_task(Ghost(vx_g)) }}",
                        if ghost.trim().is_empty() { "Seq::empty()" } else { ghost.trim() },
                        pre,
                        b,
                        post
                    ),
                );
            }
            Expr::Continue(k) => {
                let b = self.c.loop_bottoms.last().cloned().unwrap_or_default();
                if !b.trim().is_empty() {
                    if k.label.is_some() {
                        self.c.problem("unsupported: labelled continue");
                    }
                    self.put(e.span(), format!("{{ {}\ncontinue; }}", b));
                }
            }
            Expr::ForLoop(l) => {
                let t = self.for_loop(l);
                self.put(e.span(), t);
            }
            Expr::While(l) => {
                let t = self.while_loop(l);
                self.put(e.span(), t);
            }
            Expr::Loop(l) => {
                let t = self.plain_loop(l);
                self.put(e.span(), t);
            }
            Expr::Index(i) if !matches!(strip_paren(&i.index), Expr::Range(_)) => {
                self.c.edit("a[i] -> shim with the bounds as precondition");
                let a = self.sub(&i.expr);
                let k = self.sub(&i.index);
                self.put(e.span(), format!("(*({}).vx_at({}))", a, k));
            }
            Expr::Range(r) => {
                let t = self.range(r);
                self.put(e.span(), t);
            }
            Expr::Closure(_) => {
                self.c.problem("unsupported: closure");
            }
            Expr::Call(c) => {
                if self.try_inline(e, tail) {
                    return;
                }
                // Box::pin(async move { B }) -> { B }
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let n = segs.len();
                    if n >= 2 && segs[n - 2] == "Box" && segs[n - 1] == "pin" && c.args.len() == 1 {
                        if let Expr::Async(a) = &c.args[0] {
                            self.c.edit("Box::pin(async block) run in place");
                            let b = self.blk(&a.block);
                            self.put(e.span(), format!("{{ {} }}", b));
                            return;
                        }
                    }
                    let name = segs[n - 1].clone();
                    // HashMap::from([(k, v), ..])
                    if n >= 2 && segs[n - 2] == "HashMap" && name == "from" && c.args.len() == 1 {
                        if let Expr::Array(a) = strip_paren(&c.args[0]) {
                            let mut ins = String::new();
                            for x in &a.elems {
                                match strip_paren(x) {
                                    Expr::Tuple(t) if t.elems.len() == 2 => {
                                        let (k, v) = (self.sub(&t.elems[0]), self.sub(&t.elems[1]));
                                        ins.push_str(&format!("let _ = vx_m.insert({}, {}); ", k, v));
                                    }
                                    _ => self.c.problem("unsupported: HashMap::from"),
                                }
                            }
                            self.c.edit("HashMap::from([..]) -> new and insert");
                            self.put(e.span(), format!("{{ let mut vx_m = HashMap::new(); {}vx_m }}", ins));
                            return;
                        }
                    }
                    // <T as Actor>::start_in_arbiter(H, |ctx| BODY) : BODY runs later, on the arbiter's thread
                    if name == "start_in_arbiter" && c.args.len() == 2 {
                        if let Expr::Closure(cl) = &c.args[1] {
                            let k = self.c.async_count;
                            self.c.async_count += 1;
                            self.c.edit("actor constructor verified as a task that starts in any later state");
                            let h = self.sub(&c.args[0]);
                            let cx = cl.inputs.first().map(|p| quote::quote!(#p).to_string()).unwrap_or("_".into());
                            let b = self.sub(&cl.body);
                            let spec = self.c.cc.asyncs.get(k).cloned().unwrap_or_default();
                            let pre = self.c.subst(&spec.pre, &[]);
                            let post = self.c.subst(&spec.post, &[]);
                            let ghost = self.c.subst(&spec.ghost, &[]);
                            let ty = "Self";
                            let ghost = if ghost.trim().is_empty() { "(Seq::<char>::empty(), arbitrary::<Any>())".to_string() } else { ghost.trim().to_string() };
                            self.put(
                                e.span(),
                                format!("{{ let vx_h = {h};\nlet ghost vx_g = {ghost};\nlet ghost vx_w0 = *w;\nif vx_nondet() {{ vx_actor_start(Ghost(vx_g), Tracked(w)); let mut vx_cx: Context<{ty}> = vx_context(); let {cx}: &mut Context<{ty}> = &mut vx_cx;\n{pre}\nlet vx_actor: {ty} = {b};\n{post}\nvx_task_end(); }}\nvx_started::<{ty}, _>(vx_h, Ghost(vx_g), Tracked(w)) }}"),
                            );
                            return;
                        }
                        self.c.problem("unsupported: actor constructor");
                        return;
                    }
                    let mut eff = self.c.g.contracts.effect_names.contains(&name);
                    if n >= 2 {
                        let ty = if segs[n - 2] == "Self" { self.c.self_ty.clone() } else { segs[n - 2].clone() };
                        eff |= self.c.g.contracts.effect_names.contains(&format!("{}::{}", ty, name));
                        if self.c.g.contracts.effect_names.contains(&format!("!{}::{}", ty, name)) {
                            eff = false;
                        }
                    }
                    if eff {
                        let (_, end) = self.f().range(c.paren_token.span.close());
                        self.add_w(&c.args, end - 1);
                    }
                }
                visit::visit_expr_call(self, c);
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // ctx.run_later(D, |a, c| { a.NAME(c); })
                if name == "run_later" && m.args.len() == 2 {
                    if let Expr::Closure(c) = &m.args[1] {
                        if let Some(t) = self.run_later(m, c) {
                            self.put(e.span(), t);
                            return;
                        }
                    }
                    self.c.problem("unsupported: run_later callback");
                    return;
                }
                if name == "extend" && m.args.len() == 1 {
                    let r = self.sub(&m.receiver);
                    let a = self.iter_expr(&m.args[0]);
                    self.c.edit("extend -> shim over an iterator shim");
                    self.put(e.span(), format!("({}).vx_extend({})", r, a));
                    return;
                }
                // [a, b].concat() on strings
                if name == "concat" && m.args.is_empty() {
                    if let Expr::Array(a) = strip_paren(&m.receiver) {
                        let parts: Vec<String> = a.elems.iter().map(|x| format!("({}).vx_disp()", self.sub(x))).collect();
                        if let Some(first) = parts.first().cloned() {
                            self.c.edit("[..].concat() -> concatenation shim");
                            let t = parts[1..].iter().fold(first, |acc, x| format!("vx_cat({}, {})", acc, x));
                            self.put(e.span(), t);
                            return;
                        }
                    }
                }
                // thread::spawn(|| BODY).join() -> BODY
                if name == "join" && m.args.is_empty() {
                    if let Expr::Call(c) = &*m.receiver {
                        let f = quote::quote!(#c).to_string().replace(' ', "");
                        if let (true, Some(Expr::Closure(cl))) = (f.starts_with("std::thread::spawn(") || f.starts_with("thread::spawn("), c.args.first()) {
                            if cl.inputs.is_empty() {
                                let b = self.sub(&cl.body);
                                self.c.edit("thread joined at once: its body run in place");
                                self.put(e.span(), format!("vx_joined({})", b));
                                return;
                            }
                        }
                    }
                }
                if self.try_inline(e, tail) {
                    return;
                }
                if m.args.len() == 1 && (["any", "all", "retain", "position", "find"].contains(&name.as_str()) || name == "filter" && iter_chain(&m.receiver)) {
                    let named = self.named_closure(&m.args[0]);
                    let given = match (&m.args[0], &named) {
                        (Expr::Closure(c), _) => Some(c),
                        (_, Some(c)) => Some(&**c),
                        _ => None,
                    };
                    if let Some(c) = given {
                        match self.pred_closure(c) {
                            Some((cl, gh)) => {
                                self.visit_expr(&m.receiver);
                                let (ms, _) = self.f().range(m.method.span());
                                let (_, ee) = self.f().range(e.span());
                                let with_ghost = !["any", "all"].contains(&name.as_str());
                                self.edits.push((ms, ee, if with_ghost { format!("vx_{}({}, {})", name, cl, gh) } else { format!("vx_{}({})", name, cl) }));
                            }
                            None => self.c.problem("unsupported: closure outside the pure predicate subset"),
                        }
                        return;
                    }
                }
                if let Some(t) = self.combinator(m, &name) {
                    self.put(e.span(), t);
                    return;
                }
                if (name == "iter" || name == "into_iter") && m.args.is_empty() {
                    self.visit_expr(&m.receiver);
                    let s = m.method.span();
                    self.put(s, if name == "iter" { "vx_iter_ref".into() } else { "vx_into_iter".into() });
                    self.c.edit("std iterator -> iterator shim");
                    return;
                }
                if let ("parse", true, Some(tf)) = (name.as_str(), m.args.is_empty(), &m.turbofish) {
                    let a = self.sub(&m.receiver);
                    let ty = self.f().slice(tf.args.span()).to_string();
                    self.c.edit("s.parse::<T>() -> T::from_str(&s)");
                    self.put(e.span(), format!("<{}>::from_str(&({}))", ty, a));
                    return;
                }
                if (name == "starts_with" || name == "ends_with") && m.args.len() == 1 {
                    self.put(m.method.span(), format!("vx_{}", name));
                    self.c.edit("std string method -> shim");
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&m.args[0]);
                    return;
                }
                if name == "reverse" && m.args.is_empty() {
                    self.visit_expr(&m.receiver);
                    self.put(m.method.span(), "vx_reverse".into());
                    self.c.edit("std iterator -> iterator shim");
                    return;
                }
                if name == "collect" {
                    if let Some(tf) = &m.turbofish {
                        self.put(tf.span(), String::new());
                    }
                }
                if self.c.g.contracts.effect_names.contains(&name) || self.c.g.contracts.files[self.fi].effects.contains(&name) {
                    let (_, end) = self.f().range(m.paren_token.span.close());
                    self.add_w(&m.args, end - 1);
                }
                self.visit_expr(&m.receiver);
                for a in &m.args {
                    self.visit_expr(a);
                }
            }
            Expr::If(i) => {
                self.visit_expr(&i.cond);
                self.visit_tail_block(&i.then_branch, tail);
                if let Some((_, el)) = &i.else_branch {
                    self.tail = tail;
                    self.visit_expr(el);
                }
            }
            Expr::Block(b) => self.visit_tail_block(&b.block, tail),
            Expr::Match(m) if m.arms.iter().any(|a| a.guard.is_some()) => {
                self.c.edit("match guard -> nested match");
                let x = self.sub(&m.expr);
                let place = matches!(strip_paren(&m.expr), Expr::Path(_) | Expr::Field(_));
                let arms: Vec<&syn::Arm> = m.arms.iter().collect();
                let shared = match strip_paren(&m.expr) {
                    Expr::Reference(r) if r.mutability.is_none() => matches!(strip_paren(&r.expr), Expr::Path(_) | Expr::Field(_)),
                    Expr::MethodCall(c) => c.method == "as_ref" && c.args.is_empty() && matches!(strip_paren(&c.receiver), Expr::Path(_) | Expr::Field(_)),
                    _ => false,
                };
                match self.arms_text(&x, place, shared, &arms, tail) {
                    Some(t) => self.put(e.span(), format!("match {} {{ {} }}", x, t)),
                    None => self.c.problem("unsupported: match guard"),
                }
            }
            Expr::Match(m) => {
                self.visit_expr(&m.expr);
                for a in &m.arms {
                    if let Some((_, g)) = &a.guard {
                        self.visit_expr(g);
                    }
                    self.tail = tail;
                    self.visit_expr(&a.body);
                }
            }
            _ => visit::visit_expr(self, e),
        }
    }
}

/// does the receiver build an iterator?
fn iter_chain(e: &syn::Expr) -> bool {
    match strip_paren(e) {
        syn::Expr::Range(_) => true,
        syn::Expr::MethodCall(m) => {
            let n = m.method.to_string();
            ["iter", "into_iter", "iter_mut", "drain", "chars", "bytes", "lines", "split", "keys", "values", "rev", "enumerate", "zip", "take", "skip", "chain"].contains(&n.as_str())
                || (["map", "filter", "cloned", "copied"].contains(&n.as_str()) && iter_chain(&m.receiver))
        }
        _ => false,
    }
}

#[derive(Default)]
struct HasTry(bool);
impl<'ast> Visit<'ast> for HasTry {
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_async(&mut self, _: &'ast syn::ExprAsync) {}
}

/// `X::new()`, `X::default()`, literals: values without effects
fn plain_value(e: &syn::Expr) -> bool {
    match strip_paren(e) {
        syn::Expr::Lit(_) | syn::Expr::Path(_) => true,
        syn::Expr::Macro(m) => mac_name(&m.mac) == "vec" && m.mac.tokens.is_empty(),
        syn::Expr::Call(c) => {
            c.args.iter().all(plain_value)
                && matches!(&*c.func, syn::Expr::Path(p) if p.path.segments.last().map(|s| s.ident == "new" || s.ident == "default" || s.ident == "from").unwrap_or(false))
        }
        syn::Expr::Array(a) => a.elems.iter().all(plain_value),
        syn::Expr::Reference(r) => plain_value(&r.expr),
        syn::Expr::Field(f) => plain_value(&f.base),
        _ => false,
    }
}

impl<'b, 'a> V<'b, 'a> {
    /// the body of a function argument applied to `vx_x` (or to nothing)
    fn applied(&mut self, f: &syn::Expr, arg: Option<&str>) -> Option<String> {
        match strip_paren(f) {
            syn::Expr::Closure(c) => {
                let mut h = HasTry::default();
                h.visit_expr(&c.body);
                if h.0 || c.asyncness.is_some() {
                    return None;
                }
                let b = self.sub(&c.body);
                match (arg, c.inputs.len()) {
                    (None, 0) => Some(format!("{{ {} }}", b)),
                    (Some(x), 1) => {
                        let l = match &c.inputs[0] {
                            syn::Pat::Wild(_) => String::new(),
                            syn::Pat::Reference(r) => format!("let {} = *{};", self.f().slice(r.pat.span()), x),
                            p => format!("let {} = {};", self.f().slice(p.span()), x),
                        };
                        Some(format!("{{ {} {} }}", l, b))
                    }
                    _ => None,
                }
            }
            syn::Expr::Path(p) => {
                let t = self.f().slice(p.span()).to_string();
                let n = p.path.segments.last().unwrap().ident.to_string();
                if self.c.g.free_helpers.contains_key(&n) {
                    return None;
                }
                let w = self.c.g.contracts.effect_names.contains(&n);
                Some(match (arg, w) {
                    (None, false) => format!("{}()", t),
                    (None, true) => format!("{}(Tracked(w))", t),
                    (Some(x), false) => format!("{}({})", t, x),
                    (Some(x), true) => format!("{}({}, Tracked(w))", t, x),
                })
            }
            _ => None,
        }
    }

    /// closures of Option, Result and bool combinators run in place
    fn combinator(&mut self, m: &syn::ExprMethodCall, name: &str) -> Option<String> {
        let takes = match name {
            "map" | "and_then" | "unwrap_or_else" | "ok_or_else" | "map_err" | "filter" | "is_some_and" | "is_ok_and" | "is_none_or" | "then" | "or_else" | "then_some" | "for_each" | "contains" | "inspect_err" | "get_or_insert_with" => 1,
            "map_or" | "map_or_else" => 2,
            "unwrap_or_default" => 0,
            "or_insert" | "or_insert_with" => 1,
            "or_default" => 0,
            _ => return None,
        };
        if m.args.len() != takes {
            return None;
        }
        if ["or_insert", "or_insert_with", "or_default"].contains(&name) {
            let r = match strip_paren(&m.receiver) {
                syn::Expr::MethodCall(r) if r.method == "entry" && r.args.len() == 1 => r,
                _ => return None,
            };
            let map = self.sub(&r.receiver);
            let k = self.sub(&r.args[0]);
            self.c.edit("entry API -> shim");
            return Some(match name {
                "or_default" => format!("({}).vx_or_default({})", map, k),
                "or_insert" => {
                    let v = self.sub(&m.args[0]);
                    format!("({}).vx_or_insert({}, {})", map, k, v)
                }
                _ => {
                    let pure = match strip_paren(&m.args[0]) {
                        syn::Expr::Closure(c) => plain_value(&c.body),
                        syn::Expr::Path(_) => true,
                        _ => false,
                    };
                    if !pure {
                        self.c.problem("unsupported: or_insert_with");
                        return None;
                    }
                    let v = self.applied(&m.args[0], None)?;
                    format!("({}).vx_or_insert({}, {})", map, k, v)
                }
            });
        }
        if name == "contains" {
            // [a, b].contains(&x)
            let arr = match strip_paren(&m.receiver) {
                syn::Expr::Array(a) => a.clone(),
                syn::Expr::Reference(r) => match strip_paren(&r.expr) {
                    syn::Expr::Array(a) => a.clone(),
                    _ => return None,
                },
                syn::Expr::Macro(x) if mac_name(&x.mac) == "vec" => {
                    let el = x.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok()?;
                    if !el.iter().all(plain_value) {
                        return None;
                    }
                    let x = self.sub(&m.args[0]);
                    let v: Vec<String> = el.iter().map(|e| format!("*({}) == {}", x, self.sub(e))).collect();
                    self.c.edit("[..].contains -> disjunction");
                    return Some(format!("({})", if v.is_empty() { "false".into() } else { v.join(" || ") }));
                }
                _ => return None,
            };
            if !arr.elems.iter().all(plain_value) || place(&m.args[0]).is_none() {
                return None;
            }
            let x = match strip_paren(&m.args[0]) {
                syn::Expr::Reference(r) => self.sub(&r.expr),
                a => format!("*{}", self.sub(a)),
            };
            let v: Vec<String> = arr.elems.iter().map(|e| format!("{} == {}", x, self.sub(e))).collect();
            self.c.edit("[..].contains -> disjunction");
            return Some(format!("({})", if v.is_empty() { "false".into() } else { v.join(" || ") }));
        }
        if name == "for_each" {
            let c = match strip_paren(&m.args[0]) {
                syn::Expr::Closure(c) if c.inputs.len() == 1 => c,
                _ => return None,
            };
            let mut h = HasTry::default();
            h.visit_expr(&c.body);
            if h.0 {
                return None;
            }
            let src = self.iter_expr(&m.receiver);
            let t = self.for_parts(&c.inputs[0], src, &c.body);
            return Some(t);
        }
        if iter_chain(&m.receiver) {
            return None;
        }
        let fun = matches!(strip_paren(m.args.last().unwrap_or(&m.receiver)), syn::Expr::Closure(_) | syn::Expr::Path(_));
        if !fun && !["then_some", "unwrap_or_default"].contains(&name) {
            return None;
        }
        let r = self.sub(&m.receiver);
        let done = match name {
            "get_or_insert_with" => {
                let b = self.applied(&m.args[0], None)?;
                format!("{{ if ({r}).is_none() {{ {r} = Some({b}); }} ({r}).as_mut().unwrap() }}")
            }
            "map" => {
                let b = self.applied(&m.args[0], Some("vx_x"))?;
                format!("match ({r}).vx_split() {{ (vx_k, Some(vx_x)) => vx_k.vx_join(Some({b})), (vx_k, None) => vx_k.vx_join(None) }}")
            }
            "and_then" => {
                let b = self.applied(&m.args[0], Some("vx_x"))?;
                format!("match ({r}).vx_split() {{ (_, Some(vx_x)) => {b}, (vx_k, None) => vx_k.vx_join(None) }}")
            }
            "or_else" => {
                let zero = matches!(strip_paren(&m.args[0]), syn::Expr::Closure(c) if c.inputs.is_empty());
                if !zero {
                    return None;
                }
                let b = self.applied(&m.args[0], None)?;
                format!("match {r} {{ Some(vx_x) => Some(vx_x), None => {b} }}")
            }
            "map_or" => {
                let d = self.sub(&m.args[0]);
                let b = self.applied(&m.args[1], Some("vx_x"))?;
                format!("match ({r}).vx_split() {{ (_, vx_o) => {{ let vx_d = {d}; match vx_o {{ Some(vx_x) => {b}, None => vx_d }} }} }}")
            }
            "map_or_else" => {
                let zero = matches!(strip_paren(&m.args[0]), syn::Expr::Closure(c) if c.inputs.is_empty());
                let b = self.applied(&m.args[1], Some("vx_x"))?;
                if zero {
                    let d = self.applied(&m.args[0], None)?;
                    format!("match {r} {{ Some(vx_x) => {b}, None => {d} }}")
                } else {
                    let d = self.applied(&m.args[0], Some("vx_x"))?;
                    format!("match {r} {{ Ok(vx_x) => {b}, Err(vx_x) => {d} }}")
                }
            }
            "unwrap_or_else" => match strip_paren(&m.args[0]) {
                syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                    let b = self.applied(&m.args[0], Some("vx_x"))?;
                    format!("match {r} {{ Ok(vx_x) => vx_x, Err(vx_x) => {b} }}")
                }
                _ => {
                    let b = self.applied(&m.args[0], None)?;
                    format!("match {r} {{ Some(vx_x) => vx_x, None => {b} }}")
                }
            },
            "unwrap_or_default" => format!("match ({r}).vx_split() {{ (_, Some(vx_x)) => vx_x, _ => Default::default() }}"),
            "ok_or_else" => {
                let b = self.applied(&m.args[0], None)?;
                format!("match {r} {{ Some(vx_x) => Ok(vx_x), None => Err({b}) }}")
            }
            "map_err" => {
                let b = self.applied(&m.args[0], Some("vx_x"))?;
                format!("match {r} {{ Ok(vx_x) => Ok(vx_x), Err(vx_x) => Err({b}) }}")
            }
            "inspect_err" => {
                let b = self.applied(&m.args[0], Some("(&vx_x)"))?;
                format!("match {r} {{ Ok(vx_x) => Ok(vx_x), Err(vx_x) => {{ {b}; Err(vx_x) }} }}")
            }
            "filter" => {
                let b = self.applied(&m.args[0], Some("(&vx_x)"))?;
                format!("match {r} {{ Some(vx_x) => if {b} {{ Some(vx_x) }} else {{ None }}, None => None }}")
            }
            "is_some_and" | "is_ok_and" | "is_none_or" => {
                let b = self.applied(&m.args[0], Some("vx_x"))?;
                format!("match ({r}).vx_split() {{ (_, Some(vx_x)) => {b}, _ => {} }}", name == "is_none_or")
            }
            "then" => {
                let b = self.applied(&m.args[0], None)?;
                format!("if {r} {{ Some({b}) }} else {{ None }}")
            }
            "then_some" => {
                let b = self.sub(&m.args[0]);
                format!("{{ let vx_b: bool = {r}; let vx_v = {b}; if vx_b {{ Some(vx_v) }} else {{ None }} }}")
            }
            _ => return None,
        };
        self.c.edit("combinator closure run in place");
        Some(format!("({})", done))
    }

    fn for_parts(&mut self, p: &syn::Pat, src: String, body: &syn::Expr) -> String {
        let n = self.c.loop_count;
        self.c.loop_kinds.push("for".into());
        self.c.loop_count += 1;
        self.c.edit("for -> loop over an iterator shim");
        let it = format!("it{}", n);
        let pat = self.f().slice(p.span()).to_string();
        let mut names = PatNames(vec![]);
        names.visit_pat(p);
        self.enter_loop(n, &names.0);
        let body = self.sub(body);
        self.c.loop_bottoms.pop();
        let (pre, t) = self.loop_text("loop", &names.0, Some(&it), format!("{{{};}}", body), n);
        let t = t.replacen('\u{1}', &format!("let {} = match {}.next() {{ Some(vx_x) => vx_x, None => break }};\n", pat, it), 1);
        format!("{{ let mut {} = {};\nlet ghost vx_e{} = {}.elems();\n{}{} }}", it, src, n, it, pre, t)
    }

    fn visit_tail_block(&mut self, b: &syn::Block, tail: bool) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            if i + 1 == n {
                if let syn::Stmt::Expr(e, None) = s {
                    if !matches!(e, syn::Expr::Macro(_)) {
                        self.tail = tail;
                        self.visit_expr(e);
                        continue;
                    }
                }
            }
            self.visit_stmt(s);
        }
    }

    fn run_later(&mut self, m: &syn::ExprMethodCall, c: &syn::ExprClosure) -> Option<String> {
        // The callback must do exactly one thing: call a method of the actor with the context.
        if c.inputs.len() != 2 {
            return None;
        }
        let nm = |p: &syn::Pat| match p {
            syn::Pat::Ident(i) => Some(i.ident.to_string()),
            _ => None,
        };
        let (a, x) = (nm(&c.inputs[0])?, nm(&c.inputs[1])?);
        let call = match &*c.body {
            syn::Expr::Block(b) => {
                let st: Vec<&syn::Stmt> = b
                    .block
                    .stmts
                    .iter()
                    .filter(|s| !matches!(s, syn::Stmt::Macro(m) if LOG_MACROS.contains(&mac_name(&m.mac).as_str())))
                    .collect();
                if st.len() != 1 {
                    return None;
                }
                match st[0] {
                    syn::Stmt::Expr(e, _) => e,
                    _ => return None,
                }
            }
            e => e,
        };
        let mc = match call {
            syn::Expr::MethodCall(mc) => mc,
            _ => return None,
        };
        let r = &mc.receiver;
        let arg = mc.args.first()?;
        if mc.args.len() != 1
            || quote::quote!(#r).to_string() != a
            || quote::quote!(#arg).to_string() != x
        {
            return None;
        }
        self.c.edit("run_later callback named");
        let recv = self.sub(&m.receiver);
        let d = self.sub(&m.args[0]);
        Some(format!("{}.vx_run_later_{}({}, Tracked(w))", recv, mc.method, d))
    }
}
