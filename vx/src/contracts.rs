//! Parser for the contract files (contracts/*.vx).
//!
//! Line oriented.  A section starts at column 0, clause text is indented.
//!
//!   file <path relative to the repo> mod <module>     start of a source file
//!   use <tokens>                                      put into the module's header
//!   drop <item key> : <reason>                        item is not extracted (listed in the evidence)
//!   file_effects <names>                              methods that get the ghost world in this file only
//!   static <NAME> : <expression>                      a lazily initialised static is read through this stand-in
//!   type_map <type> => <type>                         field type replaced by its stand-in
//!   enum_debug <Enum>                                 mechanical spec/exec Debug name table for a field-less enum
//!   trait_extra <Trait>                               following indented lines go into the trait definition
//!   impl_extra <Impl key>                             following indented lines go into the impl
//!   item_attr <item key>                              following indented lines go before the item
//!   fn <key> [effect] [trusted] [ret=<name>] [optional]
//!     requires / ensures / attr / body / loop <n> <kind|kind>
//!   in a loop, `@[for] ...`, `@[while,num0] ...`, `@[!num0] ...` apply only to loops of that kind / if there is (no) such local
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug, Default)]
pub struct Clause {
    pub labels: Vec<String>,
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct LoopSpec {
    pub invariants: Vec<Clause>,
    pub decreases: Vec<Clause>,
    pub pre: String,
    pub top: String,
    pub bottom: String,
    pub post: String,
    pub kind: String,
}

#[derive(Clone, Debug, Default)]
pub struct AsyncSpec {
    pub pre: String,
    pub post: String,
    pub ghost: String,
}

#[derive(Clone, Debug, Default)]
pub struct FnContract {
    pub key: String,
    pub effect: bool,
    pub asyncs: Vec<AsyncSpec>,
    pub specfn: bool,
    pub trusted: bool,
    pub optional: bool,
    /// the characters of the string literals matter
    pub strlits: bool,
    pub ret: String,
    pub attrs: Vec<String>,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub body_top: String,
    pub body_bottom: String,
    pub loops: Vec<LoopSpec>,
    pub props: Vec<String>,
    pub loc: String,
}

#[derive(Clone, Debug, Default)]
pub struct FileSpec {
    pub path: String,
    pub module: String,
    pub uses: Vec<String>,
    pub drops: Vec<(String, String)>,
    pub enum_debug: Vec<String>,
    pub trait_extra: BTreeMap<String, String>,
    pub impl_extra: BTreeMap<String, String>,
    pub item_attr: BTreeMap<String, String>,
    pub fns: BTreeMap<String, FnContract>,
    pub impl_bounds: BTreeMap<String, String>,
    pub effects: HashSet<String>,
    pub statics: BTreeMap<String, String>,
    pub type_map: Vec<(String, String)>,
}

#[derive(Clone, Debug, Default)]
pub struct Contracts {
    pub stored: Vec<(String, String, String)>,
    pub files: Vec<FileSpec>,
    pub effect_names: HashSet<String>,
}

fn split_labels(s: &str) -> (Vec<String>, String) {
    let t = s.trim_start();
    if let Some(rest) = t.strip_prefix('[') {
        if let Some(end) = rest.find(']') {
            let lab = &rest[..end];
            if lab.split(',').all(|x| {
                let x = x.trim();
                x.len() >= 3 && x.starts_with('C') && x[1..].chars().all(|c| c.is_ascii_digit())
            }) {
                return (
                    lab.split(',').map(|x| x.trim().to_string()).collect(),
                    rest[end + 1..].trim_start().to_string(),
                );
            }
        }
    }
    (vec![], t.to_string())
}

pub fn parse(text: &str, origin: &str, out: &mut Contracts) {
    #[derive(PartialEq, Clone)]
    enum Sec {
        None,
        Extra(String, u8),
        Fn(String),
    }
    #[derive(PartialEq, Clone, Copy, Debug)]
    enum Sub {
        None,
        Requires,
        Ensures,
        BodyTop,
        BodyBottom,
        LInv,
        LDec,
        LPre,
        LTop,
        LBottom,
        LPost,
        APre,
        APost,
        AGhost,
    }
    let mut sec = Sec::None;
    let mut sub = Sub::None;
    for (ln, raw) in text.lines().enumerate() {
        let line = raw.trim_end();
        if line.trim().is_empty() || line.trim_start().starts_with("##") {
            continue;
        }
        let die = |m: &str| -> ! { panic!("{}:{}: {}: {}", origin, ln + 1, m, line) };
        if !line.starts_with(' ') {
            let mut it = line.split_whitespace();
            let kw = it.next().unwrap();
            let rest = line[kw.len()..].trim();
            sub = Sub::None;
            match kw {
                "file" => {
                    let parts: Vec<_> = rest.split_whitespace().collect();
                    if parts.len() != 3 || parts[1] != "mod" {
                        die("bad file line");
                    }
                    out.files.push(FileSpec {
                        path: parts[0].into(),
                        module: parts[2].into(),
                        ..Default::default()
                    });
                    sec = Sec::None;
                }
                "effects" => {
                    for n in rest.split_whitespace() {
                        out.effect_names.insert(n.to_string());
                    }
                }
                "file_effects" => {
                    for n in rest.split_whitespace() {
                        out.files.last_mut().unwrap().effects.insert(n.to_string());
                    }
                }
                "static" => {
                    let (a, b) = rest.split_once(" : ").unwrap_or_else(|| die("bad static"));
                    out.files.last_mut().unwrap().statics.insert(a.trim().into(), b.trim().into());
                }
                "type_map" => {
                    let (a, b) = rest.split_once(" => ").unwrap_or_else(|| die("bad type_map"));
                    out.files.last_mut().unwrap().type_map.push((a.trim().into(), b.trim().into()));
                }
                "use" => out.files.last_mut().unwrap().uses.push(rest.to_string()),
                "drop" => {
                    let (k, r) = rest.split_once(" : ").unwrap_or((rest, ""));
                    out.files
                        .last_mut()
                        .unwrap()
                        .drops
                        .push((k.trim().into(), r.trim().into()));
                }
                "stored" => {
                    // stored TYPE props=.. : the serde attributes that the round-trip assumption is about
                    let (a, b) = rest.split_once(" : ").unwrap_or_else(|| die("bad stored"));
                    let (ty, props) = a.split_once(" props=").unwrap_or_else(|| die("bad stored"));
                    out.stored.push((ty.trim().into(), props.trim().into(), b.trim().into()));
                }
                "enum_debug" => out.files.last_mut().unwrap().enum_debug.push(rest.into()),
                "trait_extra" => sec = Sec::Extra(rest.into(), 0),
                "impl_extra" => sec = Sec::Extra(rest.into(), 1),
                "item_attr" => sec = Sec::Extra(rest.into(), 2),
                "impl_bounds" => sec = Sec::Extra(rest.into(), 3),
                "fn" => {
                    // key may contain spaces: flags come after " | "
                    let (key, flags) = rest.split_once(" | ").unwrap_or((rest, ""));
                    let mut c = FnContract {
                        key: key.trim().into(),
                        ret: "r".into(),
                        loc: format!("{}:{}", origin, ln + 1),
                        ..Default::default()
                    };
                    let mut seff = false;
                    for f in flags.split_whitespace() {
                        match f {
                            "effect" => c.effect = true,
                            "seffect" => {
                                c.effect = true;
                                seff = true;
                            }
                            "specfn" => c.specfn = true,
                            "trusted" => c.trusted = true,
                            "optional" => c.optional = true,
                            "strlits" => c.strlits = true,
                            f if f.starts_with("ret=") => c.ret = f[4..].into(),
                            f if f.starts_with("props=") => {
                                c.props = f[6..].split(',').map(|s| s.to_string()).collect()
                            }
                            _ => die("unknown flag"),
                        }
                    }
                    let fs = out.files.last_mut().unwrap();
                    if c.effect {
                        let name = c.key.rsplit('.').next().unwrap().to_string();
                        out.effect_names.insert(if seff { c.key.replace('.', "::") } else { name });
                    }
                    if fs.fns.insert(c.key.clone(), c.clone()).is_some() {
                        die("duplicate fn");
                    }
                    sec = Sec::Fn(c.key);
                }
                _ => die("unknown keyword"),
            }
            continue;
        }
        let fs = out.files.last_mut().unwrap();
        match &sec {
            Sec::None => die("indented line outside a section"),
            Sec::Extra(k, n) => {
                let m = match n {
                    0 => &mut fs.trait_extra,
                    1 => &mut fs.impl_extra,
                    2 => &mut fs.item_attr,
                    _ => &mut fs.impl_bounds,
                };
                let e = m.entry(k.clone()).or_default();
                e.push_str(line);
                e.push('\n');
            }
            Sec::Fn(k) => {
                let c = fs.fns.get_mut(k).unwrap();
                let t = line.trim();
                let first = t.split_whitespace().next().unwrap();
                let rest = t[first.len()..].trim().to_string();
                let mut consumed = true;
                match (first, rest.is_empty()) {
                    ("requires", true) => sub = Sub::Requires,
                    ("ensures", true) => sub = Sub::Ensures,
                    ("body_top", true) => sub = Sub::BodyTop,
                    ("body_bottom", true) => sub = Sub::BodyBottom,
                    ("attr", false) => c.attrs.push(rest.clone()),
                    ("loop", false) if rest.split(' ').next().unwrap().parse::<usize>().is_ok() => {
                        let n: usize = rest.split(' ').next().unwrap().parse().unwrap();
                        while c.loops.len() <= n {
                            c.loops.push(LoopSpec::default());
                        }
                        if n + 1 != c.loops.len() {
                            die("loops out of order");
                        }
                        // `@[tags] text` lines apply only to loops of that kind, or if a local of that role exists
                        c.loops[n].kind = rest.split(' ').nth(1).unwrap_or("").into();
                        sub = Sub::None;
                    }
                    ("async", false) if rest.parse::<usize>().is_ok() => {
                        c.asyncs.push(AsyncSpec::default());
                        sub = Sub::None;
                    }
                    ("task_pre", true) => sub = Sub::APre,
                    ("task_post", true) => sub = Sub::APost,
                    ("task_ghost", true) => sub = Sub::AGhost,
                    ("invariant", true) => sub = Sub::LInv,
                    ("decreases", true) => sub = Sub::LDec,
                    ("pre", true) => sub = Sub::LPre,
                    ("top", true) => sub = Sub::LTop,
                    ("bottom", true) => sub = Sub::LBottom,
                    ("post", true) => sub = Sub::LPost,
                    _ => consumed = false,
                }
                if consumed {
                    continue;
                }
                let add = |v: &mut Vec<Clause>| {
                    if let Some(r) = t.strip_prefix("- ") {
                        let (labels, text) = split_labels(r);
                        v.push(Clause { labels, text });
                    } else {
                        let l = v.last_mut().unwrap_or_else(|| die("clause must start with '- '"));
                        l.text.push_str("\n        ");
                        l.text.push_str(t);
                    }
                };
                let app = |s: &mut String| {
                    s.push_str(t);
                    s.push('\n');
                };
                match sub {
                    Sub::Requires => add(&mut c.requires),
                    Sub::Ensures => add(&mut c.ensures),
                    Sub::BodyTop => app(&mut c.body_top),
                    Sub::BodyBottom => app(&mut c.body_bottom),
                    Sub::None => die("text outside a subsection"),
                    Sub::APre => app(&mut c.asyncs.last_mut().unwrap().pre),
                    Sub::APost => app(&mut c.asyncs.last_mut().unwrap().post),
                    Sub::AGhost => app(&mut c.asyncs.last_mut().unwrap().ghost),
                    s => {
                        let l = c.loops.last_mut().unwrap();
                        match s {
                            Sub::LInv => add(&mut l.invariants),
                            Sub::LDec => add(&mut l.decreases),
                            Sub::LPre => app(&mut l.pre),
                            Sub::LTop => app(&mut l.top),
                            Sub::LBottom => app(&mut l.bottom),
                            Sub::LPost => app(&mut l.post),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        }
    }
}
