//! Parser for the contract files (contracts/*.vc).
use std::collections::BTreeMap;

#[derive(Debug, Default, Clone)]
pub struct LoopSpec {
    pub inv: String,
    pub dec: String,
    pub before: String,
    pub begin: String,
    pub end: String,
    pub after: String,
    pub iter: String,
}

#[derive(Debug, Clone)]
pub struct Hook {
    pub kind: String,
    pub name: String,
    pub n: usize,
    pub text: String,
}

#[derive(Debug, Default, Clone)]
pub struct FnSpec {
    pub name: String,
    pub nth: usize,
    pub op: bool,
    pub ret: String,
    pub requires: String,
    pub ensures: String,
    pub decreases: String,
    pub attr: String,
    pub entry: String,
    pub exit: String,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub closures: BTreeMap<usize, String>,
    pub hooks: Vec<Hook>,
    pub subs: Vec<(String, String)>,
    pub external: bool,
    pub free: String,
    pub opcalls: bool,
    pub index: bool,
    pub props: Vec<String>,
    pub sig: String,
}

#[derive(Debug, Clone)]
pub enum Entry {
    Raw(String, Vec<String>),
    Type { name: String, attrs: String, subs: Vec<(String, String)> },
    DeriveClone { name: String },
    DeriveEq { name: String, add: String },
    Const { name: String, contract: String, table: bool, props: Vec<String> },
    Fn(FnSpec),
    Trait { name: String, add: String, fns: Vec<FnSpec>, subs: Vec<(String, String)> },
    Impl { key: String, add: String, fns: Vec<FnSpec>, subs: Vec<(String, String)> },
    Declare { name: String, name_props: Vec<String>, add: String, entry: String },
    MacroFn { name: String, kind: String },
}

#[derive(Debug, Clone)]
pub struct Module {
    pub name: String,
    pub file: String,
    pub props: Vec<String>,
    /// macros whose invocations (or one invocation with the given arguments) are expanded behind the source
    pub expand: Vec<(String, Option<String>)>,
    pub entries: Vec<Entry>,
}

fn words(s: &str) -> Vec<String> {
    s.split_whitespace().map(|x| x.to_string()).collect()
}

pub fn parse(text: &str, fname: &str) -> Result<Vec<Module>, String> {
    // split into directives
    let mut dirs: Vec<(usize, String, String, String)> = vec![]; // line, name, args, block
    for (ln, line) in text.lines().enumerate() {
        let t = line.trim_start();
        if t.starts_with("@@") {
            continue; // comment
        }
        if t.starts_with('@') {
            let rest = &t[1..];
            let (n, a) = match rest.find(char::is_whitespace) {
                Some(p) => (rest[..p].to_string(), rest[p..].trim().to_string()),
                None => (rest.to_string(), String::new()),
            };
            dirs.push((ln + 1, n, a, String::new()));
        } else if let Some(d) = dirs.last_mut() {
            d.3.push_str(line);
            d.3.push('\n');
        } else if !t.is_empty() && !t.starts_with("//") {
            return Err(format!("{fname}:{}: text before first directive", ln + 1));
        }
    }
    let mut mods: Vec<Module> = vec![];
    // container: 0 none, 1 trait/impl open
    let mut open = false;
    let mut cur_loop: Option<usize> = None;
    for (ln, n, a, b) in dirs {
        let err = |m: &str| Err(format!("{fname}:{ln}: {m}"));
        if n == "module" {
            let w = words(&a);
            mods.push(Module {
                name: w[0].clone(),
                file: w[1].clone(),
                props: w[2..].to_vec(),
                expand: vec![],
                entries: vec![],
            });
            open = false;
            if !b.trim().is_empty() {
                mods.last_mut().unwrap().entries.push(Entry::Raw(b, vec![]));
            }
            continue;
        }
        let m = match mods.last_mut() {
            Some(m) => m,
            None => return err("no module"),
        };
        let mprops = m.props.clone();
        macro_rules! lastfn {
            () => {{
                match m.entries.last_mut() {
                    Some(Entry::Fn(f)) => f,
                    Some(Entry::Trait { fns, .. }) | Some(Entry::Impl { fns, .. })
                        if fns.last().is_some() =>
                    {
                        fns.last_mut().unwrap()
                    }
                    _ => return err("no function open"),
                }
            }};
        }
        match n.as_str() {
            "raw" => {
                open = false;
                m.entries.push(Entry::Raw(b, words(&a)))
            }
            "type" => {
                open = false;
                m.entries.push(Entry::Type { name: a, attrs: b, subs: vec![] })
            }
            "derive_clone" => {
                open = false;
                m.entries.push(Entry::DeriveClone { name: a })
            }
            "derive_eq" => {
                open = false;
                m.entries.push(Entry::DeriveEq { name: a, add: b })
            }
            "const" => {
                open = false;
                let w = words(&a);
                m.entries.push(Entry::Const {
                    name: w[0].clone(),
                    table: w.get(1).map(|x| x == "table").unwrap_or(false),
                    contract: b,
                    props: mprops,
                })
            }
            "trait" => {
                open = true;
                m.entries.push(Entry::Trait { name: a, add: b, fns: vec![], subs: vec![] })
            }
            "impl" => {
                open = true;
                m.entries.push(Entry::Impl { key: a, add: b, fns: vec![], subs: vec![] })
            }
            "declare" => {
                open = false;
                let w = words(&a);
                m.entries.push(Entry::Declare { name: w[0].clone(), name_props: w[1..].to_vec(), add: b, entry: String::new() })
            }
            "macrofn" => {
                open = false;
                let w = words(&a);
                m.entries.push(Entry::MacroFn { name: w[0].clone(), kind: w[1].clone() });
                if !b.trim().is_empty() { m.entries.push(Entry::Raw(b, vec![])) }
            }
            "expand" => {
                open = false;
                m.expand.push((a, None));
                if !b.trim().is_empty() { m.entries.push(Entry::Raw(b, vec![])) }
            }
            "expandwith" => {
                open = false;
                let w = words(&a);
                m.expand.push((w[0].clone(), Some(a[w[0].len()..].trim().to_string())));
                if !b.trim().is_empty() { m.entries.push(Entry::Raw(b, vec![])) }
            }
            "end" => open = false,
            "fn" | "opfn" => {
                let w = words(&a);
                let mut f = FnSpec { name: w[0].clone(), props: mprops, ret: "r".into(), ..Default::default() };
                if n == "opfn" {
                    f.op = true;
                    f.nth = w.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
                    open = false;
                }
                cur_loop = None;
                if open {
                    match m.entries.last_mut() {
                        Some(Entry::Trait { fns, .. }) | Some(Entry::Impl { fns, .. }) => fns.push(f),
                        _ => return err("bad container"),
                    }
                } else {
                    m.entries.push(Entry::Fn(f));
                }
            }
            "props" => {
                let w = words(&a);
                lastfn!().props = w;
            }
            "addprops" => {
                let w = words(&a);
                lastfn!().props.extend(w);
            }
            "ret" => lastfn!().ret = a,
            "requires" => lastfn!().requires = b,
            "ensures" => lastfn!().ensures = b,
            "decreases" => lastfn!().decreases = if a.is_empty() { b } else { a },
            "attr" => lastfn!().attr = b,
            "entry" => match m.entries.last_mut() {
                Some(Entry::Declare { entry, .. }) => *entry = b,
                _ => lastfn!().entry = b,
            },
            "exit" => lastfn!().exit = b,
            "external" => lastfn!().external = true,
            "free" => lastfn!().free = a,
            "opcalls" => lastfn!().opcalls = true,
            "index" => lastfn!().index = true,
            "sig" => lastfn!().sig = b,
            "sub" => {
                let (x, y) = match a.split_once("=>>") {
                    Some((x, y)) => (x.trim().to_string(), y.trim().to_string()),
                    None => return err("sub needs =>>"),
                };
                match m.entries.last_mut() {
                    Some(Entry::Type { subs, .. }) => subs.push((x, y)),
                    Some(Entry::Trait { fns, subs, add, .. }) | Some(Entry::Impl { fns, subs, add, .. }) if fns.is_empty() => {
                        subs.push((x, y));
                        add.push_str(&b);
                    }
                    _ => lastfn!().subs.push((x, y)),
                }
            }
            "loop" => {
                let k: usize = a.parse().map_err(|_| format!("{fname}:{ln}: loop number"))?;
                cur_loop = Some(k);
                lastfn!().loops.entry(k).or_default();
            }
            "iter" | "inv" | "dec" | "before" | "begin" | "endbody" | "after" => {
                let k = match cur_loop {
                    Some(k) => k,
                    None => return err("no loop"),
                };
                let l = lastfn!().loops.entry(k).or_default();
                match n.as_str() {
                    "iter" => l.iter = a,
                    "inv" => l.inv = b,
                    "dec" => l.dec = if a.is_empty() { b } else { a },
                    "before" => l.before = b,
                    "begin" => l.begin = b,
                    "endbody" => l.end = b,
                    _ => l.after = b,
                }
            }
            "closure" => {
                let k: usize = a.parse().map_err(|_| format!("{fname}:{ln}: closure number"))?;
                lastfn!().closures.insert(k, b);
            }
            "hook" => {
                let w = words(&a);
                if w.is_empty() {
                    return err("hook");
                }
                lastfn!().hooks.push(Hook {
                    kind: w[0].clone(),
                    name: w.get(1).cloned().unwrap_or_default(),
                    n: w.get(2).and_then(|x| x.parse().ok()).unwrap_or(0),
                    text: b,
                });
            }
            _ => return err(&format!("unknown directive @{n}")),
        }
    }
    Ok(mods)
}
