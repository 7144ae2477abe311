//! macro_rules! of the crate: list macros as recursive functions over the token list,
//! and expansion of `declare_algebra!` invocations.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum Pat {
    Tok(String),
    Frag(String, String),
    Rep(Vec<Pat>, Option<String>, char),
    Grp(Delimiter, Vec<Pat>),
}

#[derive(Clone, Debug)]
struct Arm {
    pat: Vec<Pat>,
    body: Vec<TokenTree>,
}

#[derive(Default)]
pub struct Macros {
    m: BTreeMap<String, Vec<Arm>>,
}

#[derive(Clone, Debug)]
enum Bind {
    One(Vec<TokenTree>),
    Many(Vec<BTreeMap<String, Bind>>),
}

type Env = BTreeMap<String, Bind>;

fn tts(t: TokenStream) -> Vec<TokenTree> {
    t.into_iter().collect()
}

fn is_p(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

fn parse_pat(t: &[TokenTree]) -> Result<Vec<Pat>, String> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        match &t[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match t.get(i + 1) {
                Some(TokenTree::Ident(n)) if is_p(t.get(i + 2), ':') => {
                    let k = t.get(i + 3).ok_or("pattern")?.to_string();
                    out.push(Pat::Frag(n.to_string(), k));
                    i += 4;
                }
                Some(TokenTree::Group(g)) => {
                    let inner = parse_pat(&tts(g.stream()))?;
                    let (sep, op, n) = rep_tail(&t[i + 2..])?;
                    out.push(Pat::Rep(inner, sep, op));
                    i += 2 + n;
                }
                _ => return Err("pattern".into()),
            },
            TokenTree::Group(g) => {
                out.push(Pat::Grp(g.delimiter(), parse_pat(&tts(g.stream()))?));
                i += 1;
            }
            x => {
                out.push(Pat::Tok(x.to_string()));
                i += 1;
            }
        }
    }
    Ok(out)
}

/// separator and operator of a repetition, and how many tokens they take
fn rep_tail(t: &[TokenTree]) -> Result<(Option<String>, char, usize), String> {
    let op = |x: &TokenTree| match x {
        TokenTree::Punct(p) if "+*?".contains(p.as_char()) => Some(p.as_char()),
        _ => None,
    };
    match t.first() {
        Some(x) if op(x).is_some() => Ok((None, op(x).unwrap(), 1)),
        Some(x) => match t.get(1).and_then(|y| op(y)) {
            Some(c) => Ok((Some(x.to_string()), c, 2)),
            None => Err("repetition".into()),
        },
        None => Err("repetition".into()),
    }
}

fn matches(p: &[Pat], t: &[TokenTree]) -> Option<Env> {
    if p.is_empty() {
        return if t.is_empty() { Some(Env::new()) } else { None };
    }
    match &p[0] {
        Pat::Tok(s) => {
            if t.first().map(|x| x.to_string()) == Some(s.clone()) {
                matches(&p[1..], &t[1..])
            } else {
                None
            }
        }
        Pat::Grp(d, inner) => match t.first() {
            Some(TokenTree::Group(g)) if g.delimiter() == *d => {
                let mut e = matches(inner, &tts(g.stream()))?;
                e.extend(matches(&p[1..], &t[1..])?);
                Some(e)
            }
            _ => None,
        },
        Pat::Frag(n, k) => {
            let ends: Vec<usize> = match k.as_str() {
                "expr" => {
                    let e = t.iter().position(|x| is_p(Some(x), ',')).unwrap_or(t.len());
                    if e == 0 { vec![] } else { vec![e] }
                }
                "ident" => if matches!(t.first(), Some(TokenTree::Ident(_))) { vec![1] } else { vec![] },
                "literal" => if matches!(t.first(), Some(TokenTree::Literal(_))) { vec![1] } else { vec![] },
                _ => if t.is_empty() { vec![] } else { vec![1] },
            };
            for e in ends {
                if let Some(mut r) = matches(&p[1..], &t[e..]) {
                    r.insert(n.clone(), Bind::One(t[..e].to_vec()));
                    return Some(r);
                }
            }
            None
        }
        Pat::Rep(inner, sep, op) => rep(inner, sep, *op, &p[1..], t, vec![]),
    }
}

fn rep(inner: &[Pat], sep: &Option<String>, op: char, rest: &[Pat], t: &[TokenTree], got: Vec<Env>) -> Option<Env> {
    // longest first
    if !(op == '?' && got.len() == 1) {
        let start = if got.is_empty() {
            Some(0)
        } else {
            match sep {
                Some(s) => if t.first().map(|x| x.to_string()) == Some(s.clone()) { Some(1) } else { None },
                None => Some(0),
            }
        };
        if let Some(s) = start {
            for e in s + 1..=t.len() {
                if let Some(env) = matches(inner, &t[s..e]) {
                    let mut g = got.clone();
                    g.push(env);
                    if let Some(r) = rep(inner, sep, op, rest, &t[e..], g) {
                        return Some(r);
                    }
                }
            }
        }
    }
    if op == '+' && got.is_empty() {
        return None;
    }
    let mut r = matches(rest, t)?;
    let mut names = vec![];
    frag_names(inner, &mut names);
    for n in names {
        let v: Vec<Env> = got.iter().map(|e| {
            let mut x = Env::new();
            if let Some(b) = e.get(&n) { x.insert(n.clone(), b.clone()); }
            x
        }).collect();
        r.insert(n, Bind::Many(v));
    }
    Some(r)
}

fn frag_names(p: &[Pat], out: &mut Vec<String>) {
    for x in p {
        match x {
            Pat::Frag(n, _) => out.push(n.clone()),
            Pat::Rep(i, _, _) | Pat::Grp(_, i) => frag_names(i, out),
            _ => {}
        }
    }
}

fn transcribe(body: &[TokenTree], env: &Env, out: &mut Vec<TokenTree>) -> Result<(), String> {
    let mut i = 0;
    while i < body.len() {
        match &body[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match body.get(i + 1) {
                Some(TokenTree::Ident(n)) if n == "crate" => {
                    // `$crate ::` is dropped, everything lives in one crate
                    i += 4;
                }
                Some(TokenTree::Ident(n)) => match env.get(&n.to_string()) {
                    Some(Bind::One(v)) => {
                        out.extend(v.clone());
                        i += 2;
                    }
                    _ => return Err(format!("macro variable ${n}")),
                },
                Some(TokenTree::Group(g)) => {
                    let inner = tts(g.stream());
                    let (sep, _, n) = rep_tail(&body[i + 2..])?;
                    let mut names = vec![];
                    used(&inner, &mut names);
                    let cnt = names.iter().find_map(|x| match env.get(x) {
                        Some(Bind::Many(v)) => Some(v.len()),
                        _ => None,
                    }).ok_or("repetition without variable")?;
                    for k in 0..cnt {
                        let mut e = env.clone();
                        for x in &names {
                            if let Some(Bind::Many(v)) = env.get(x) {
                                if let Some(b) = v.get(k).and_then(|m| m.get(x)) {
                                    e.insert(x.clone(), b.clone());
                                }
                            }
                        }
                        if k > 0 {
                            if let Some(s) = &sep {
                                out.extend(s.parse::<TokenStream>().map_err(|_| "separator")?);
                            }
                        }
                        transcribe(&inner, &e, out)?;
                    }
                    i += 2 + n;
                }
                _ => return Err("transcriber".into()),
            },
            TokenTree::Group(g) => {
                let mut v = vec![];
                transcribe(&tts(g.stream()), env, &mut v)?;
                out.push(TokenTree::Group(Group::new(g.delimiter(), v.into_iter().collect())));
                i += 1;
            }
            x => {
                out.push(x.clone());
                i += 1;
            }
        }
    }
    Ok(())
}

fn used(t: &[TokenTree], out: &mut Vec<String>) {
    for i in 0..t.len() {
        match &t[i] {
            TokenTree::Group(g) => used(&tts(g.stream()), out),
            TokenTree::Ident(n) if i > 0 && is_p(t.get(i - 1), '$') => out.push(n.to_string()),
            _ => {}
        }
    }
}

impl Macros {
    pub fn load(file: &syn::File) -> Macros {
        let mut r = Macros::default();
        for it in &file.items {
            if let syn::Item::Macro(m) = it {
                let name = match &m.ident {
                    Some(n) => n.to_string(),
                    None => continue,
                };
                if let Ok(a) = arms(&tts(m.mac.tokens.clone())) {
                    r.m.insert(name, a);
                }
            }
        }
        r
    }

    pub fn expand_once(&self, name: &str, args: &[TokenTree]) -> Result<Vec<TokenTree>, String> {
        for a in self.m.get(name).ok_or("no macro")? {
            if let Some(env) = matches(&a.pat, args) {
                let mut v = vec![];
                transcribe(&a.body, &env, &mut v)?;
                return Ok(v);
            }
        }
        Err(format!("no arm of {name}! matches"))
    }

    /// expand every known macro, to a fixed point
    pub fn expand(&self, t: &[TokenTree], depth: usize) -> Result<Vec<TokenTree>, String> {
        if depth > 400 {
            return Err("macro recursion".into());
        }
        let mut out = vec![];
        let mut i = 0;
        while i < t.len() {
            if let TokenTree::Ident(n) = &t[i] {
                if is_p(t.get(i + 1), '!') && self.m.contains_key(&n.to_string()) {
                    if let Some(TokenTree::Group(g)) = t.get(i + 2) {
                        let v = self.expand_once(&n.to_string(), &tts(g.stream()))?;
                        let v = self.expand(&v, depth + 1)?;
                        // an expansion in expression position is one operand
                        let item = is_p(t.get(i + 3), ';') || v.is_empty() || v.iter().any(|x| matches!(x, TokenTree::Ident(k) if k == "impl" || k == "fn" || k == "struct"));
                        if item {
                            out.extend(v);
                            i += 3;
                            if is_p(t.get(i), ';') {
                                i += 1;
                            }
                        } else {
                            out.push(TokenTree::Group(Group::new(Delimiter::Parenthesis, v.into_iter().collect())));
                            i += 3;
                        }
                        continue;
                    }
                }
            }
            match &t[i] {
                TokenTree::Group(g) => {
                    let v = self.expand(&tts(g.stream()), depth + 1)?;
                    out.push(TokenTree::Group(Group::new(g.delimiter(), v.into_iter().collect())));
                }
                x => out.push(x.clone()),
            }
            i += 1;
        }
        Ok(out)
    }

    /// the macro as a function of its token list
    /// kind: value (usize), accept (does it compile), marker (does it implement the trait)
    pub fn as_fn(&self, name: &str, kind: &str) -> Result<String, String> {
        let arms = self.m.get(name).ok_or(format!("macro {name} is gone"))?;
        let ret = if kind == "value" { "usize" } else { "bool" };
        let mut lead = None;
        let mut text = String::new();
        for a in arms {
            let (l, cond, rest) = list_pat(&a.pat)?;
            match &lead {
                None => lead = Some(l),
                Some(x) if *x == l => {}
                _ => return Err(format!("{name}: arms differ in their leading parameters")),
            }
            let body = match kind {
                "value" => format!("({}) as usize", self.value(&a.body, rest)?),
                _ => self.boolean(&a.body, rest, kind)?,
            };
            text.push_str(&format!("    if {cond} {{ {body} }} else\n"));
        }
        let lead = lead.unwrap_or_default();
        let p = if lead.iter().any(|x| x == "shift") { "shift: usize, " } else { "" };
        let none = if kind == "value" { "arbitrary()" } else { "false" };
        Ok(format!("pub open spec fn m_{name}({p}t: Seq<Tok>) -> {ret}\n    decreases t.len(),\n{{\n{text}    {{ {none} }}\n}}\n"))
    }

    /// the functions `impl_algebra_base!` gives the declared type, as functions of the signature
    pub fn as_decl(&self) -> Result<String, String> {
        let arms = self.m.get("impl_algebra_base").ok_or("macro impl_algebra_base is gone")?;
        if arms.len() != 1 {
            return Err("impl_algebra_base: one arm expected".into());
        }
        let b = &arms[0].body;
        let mut out = String::new();
        let mut seen = vec![];
        self.decl_walk(b, &mut out, &mut seen)?;
        for f in ["dim", "real_mask", "imag_mask", "proj_mask", "basis_dim", "fits", "pga_dim"] {
            if !seen.iter().any(|s| s == f) {
                return Err(format!("impl_algebra_base: {f} not found"));
            }
        }
        // declare_algebra! hands the same signature to order_check! and impl_algebra_base!
        let d = self.m.get("declare_algebra").ok_or("macro declare_algebra is gone")?;
        for a in d {
            let s: String = a.body.iter().cloned().collect::<TokenStream>().to_string().split_whitespace().collect();
            let whole = "[$($signature),+]";
            let direct = s.contains("order_check!($($signature),+)") && s.contains(&format!("impl_algebra_base!($name,{whole},"));
            let fwd = s.contains("declare_algebra!(") && s.contains(&format!("$name,{whole},"));
            if !direct && !fwd {
                return Err("declare_algebra: an arm does not pass the signature on".into());
            }
        }
        Ok(out)
    }

    fn decl_walk(&self, b: &[TokenTree], out: &mut String, seen: &mut Vec<String>) -> Result<(), String> {
        let id = |t: Option<&TokenTree>| match t {
            Some(TokenTree::Ident(n)) => n.to_string(),
            _ => String::new(),
        };
        let grp = |t: Option<&TokenTree>| match t {
            Some(TokenTree::Group(g)) => Some(tts(g.stream())),
            _ => None,
        };
        for i in 0..b.len() {
            let n = id(b.get(i));
            if n == "fn" {
                let f = id(b.get(i + 1));
                if ["dim", "real_mask", "imag_mask", "proj_mask"].contains(&f.as_str()) {
                    let g = b[i..].iter().find_map(|x| match x {
                        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(tts(g.stream())),
                        _ => None,
                    }).ok_or("body")?;
                    out.push_str(&format!("pub open spec fn decl_{f}(t: Seq<Tok>) -> usize {{ ({}) as usize }}\n", self.value(&g, 0)?));
                    seen.push(f);
                }
            } else if n == "ClBasis" && is_p(b.get(i + 1), '<') {
                let g = grp(b.get(i + 2)).ok_or("ClBasis argument")?;
                out.push_str(&format!("pub open spec fn decl_basis_dim(t: Seq<Tok>) -> usize {{ ({}) as usize }}\n", self.value(&g, 0)?));
                seen.push("basis_dim".into());
            } else if n == "const_assert" && is_p(b.get(i + 1), '!') {
                let g = grp(b.get(i + 2)).ok_or("const_assert")?;
                let k = g.iter().position(|x| is_p(Some(x), '<')).ok_or("const_assert")?;
                let l = match &g[..k] {
                    [TokenTree::Group(x)] => self.value(&tts(x.stream()), 0)?,
                    x => self.value(x, 0)?,
                };
                let r: String = g[k + 1..].iter().cloned().collect::<TokenStream>().to_string().split_whitespace().collect();
                let r = r.replace("$crate::types::IndexType", "IndexType");
                if !r.chars().all(|c| c.is_ascii_alphanumeric() || "*:_<>()".contains(c)) {
                    return Err("const_assert bound".into());
                }
                let r = r.replace("size_of::<IndexType>()", "8");
                out.push_str(&format!("pub open spec fn decl_fits(t: Seq<Tok>) -> bool {{ ({l}) < ({r}) }}\n"));
                seen.push("fits".into());
            } else if n == "impl_pga" && is_p(b.get(i + 1), '!') {
                let g = grp(b.get(i + 2)).ok_or("impl_pga")?;
                let d = g.iter().find_map(|x| match x {
                    TokenTree::Group(x) if x.delimiter() == Delimiter::Brace => Some(tts(x.stream())),
                    _ => None,
                }).ok_or("impl_pga dimension")?;
                out.push_str(&format!("pub open spec fn decl_pga_dim(t: Seq<Tok>) -> usize {{ ({}) as usize }}\n", self.value(&d, 0)?));
                seen.push("pga_dim".into());
            }
            if let TokenTree::Group(g) = &b[i] {
                if id(b.get(i.wrapping_sub(2))) == "impl_pga" || id(b.get(i.wrapping_sub(2))) == "const_assert" {
                    continue;
                }
                self.decl_walk(&tts(g.stream()), out, seen)?;
            }
        }
        Ok(())
    }

    fn call(&self, name: &str, args: &[TokenTree], rest: usize) -> Result<String, String> {
        let mut parts: Vec<Vec<TokenTree>> = vec![vec![]];
        for x in args {
            if is_p(Some(x), ',') && !ends_rep(parts.last().unwrap()) {
                parts.push(vec![]);
            } else {
                parts.last_mut().unwrap().push(x.clone());
            }
        }
        let mut lead = String::new();
        let mut list = None;
        for p in parts.iter().filter(|p| !p.is_empty()) {
            let s: String = p.iter().cloned().collect::<TokenStream>().to_string().split_whitespace().collect();
            if s.starts_with("$(") {
                list = Some(if rest == 0 { "t".to_string() } else { format!("t.subrange({rest}, t.len() as int)") });
            } else if s == "$name" || s.starts_with('{') {
                // type name and dimension of marker implementations
            } else if list.is_none() && lead.is_empty() {
                lead = format!("(({}) as usize), ", self.value(p, rest)?);
            } else {
                return Err(format!("{name}!: argument {s}"));
            }
        }
        Ok(format!("m_{name}({lead}{})", list.unwrap_or("Seq::<Tok>::empty()".into())))
    }

    fn value(&self, b: &[TokenTree], rest: usize) -> Result<String, String> {
        let mut o = String::new();
        let mut i = 0;
        while i < b.len() {
            match &b[i] {
                TokenTree::Punct(p) if p.as_char() == '$' => {
                    let n = b.get(i + 1).map(|x| x.to_string()).unwrap_or_default();
                    if n == "crate" {
                        i += 4;
                        continue;
                    }
                    if n != "shift" {
                        return Err(format!("macro variable ${n} in a value"));
                    }
                    o.push_str("shift");
                    i += 2;
                }
                TokenTree::Ident(n) if is_p(b.get(i + 1), '!') => {
                    match b.get(i + 2) {
                        Some(TokenTree::Group(g)) => o.push_str(&self.call(&n.to_string(), &tts(g.stream()), rest)?),
                        _ => return Err("macro call".into()),
                    }
                    i += 3;
                }
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    if !s.chars().all(|c| c.is_ascii_digit()) {
                        return Err(format!("literal {s}"));
                    }
                    o.push_str(&format!("{s}usize"));
                    i += 1;
                }
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    o.push_str(&format!("({})", self.value(&tts(g.stream()), rest)?));
                    i += 1;
                }
                TokenTree::Punct(p) if "<|+-&^".contains(p.as_char()) => {
                    if p.as_char() == '<' {
                        o.push_str(" << ");
                        i += 2;
                    } else {
                        o.push_str(&format!(" {} ", p.as_char()));
                        i += 1;
                    }
                }
                x => return Err(format!("`{x}` in a value macro")),
            }
        }
        if o.is_empty() {
            return Err("empty value".into());
        }
        Ok(o)
    }

    fn boolean(&self, b: &[TokenTree], rest: usize, kind: &str) -> Result<String, String> {
        if b.is_empty() {
            return Ok(if kind == "accept" { "true" } else { "false" }.into());
        }
        let mut i = 0;
        if is_p(b.get(0), '$') {
            i = 4;
        }
        if let (Some(TokenTree::Ident(n)), true, Some(TokenTree::Group(g))) = (b.get(i), is_p(b.get(i + 1), '!'), b.get(i + 2)) {
            if n == "compile_error" {
                return Ok("false".into());
            }
            return self.call(&n.to_string(), &tts(g.stream()), rest);
        }
        if kind == "marker" && matches!(b.get(0), Some(TokenTree::Ident(n)) if n == "impl") {
            return Ok("true".into());
        }
        Err("body of a yes/no macro".into())
    }
}

fn ends_rep(p: &[TokenTree]) -> bool {
    // the separator of `$( .. ) , +`
    p.len() >= 2 && matches!(p[p.len() - 1], TokenTree::Group(_)) && is_p(p.get(p.len() - 2), '$')
}

fn arms(t: &[TokenTree]) -> Result<Vec<Arm>, String> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let p = match &t[i] {
            TokenTree::Group(g) => parse_pat(&tts(g.stream()))?,
            _ => return Err("arm".into()),
        };
        if !is_p(t.get(i + 1), '=') || !is_p(t.get(i + 2), '>') {
            return Err("arm".into());
        }
        let body = match t.get(i + 3) {
            Some(TokenTree::Group(g)) => tts(g.stream()),
            _ => return Err("arm".into()),
        };
        out.push(Arm { pat: p, body });
        i += 4;
        if is_p(t.get(i), ';') {
            i += 1;
        }
    }
    Ok(out)
}

fn tok(s: &str) -> Option<&'static str> {
    match s {
        "+" => Some("Tok::Plus"),
        "-" => Some("Tok::Minus"),
        "0" => Some("Tok::Null"),
        _ => None,
    }
}

/// leading parameters, condition on the token list `t`, and where the repetition starts
fn list_pat(p: &[Pat]) -> Result<(Vec<String>, String, usize), String> {
    let mut elems: Vec<Vec<Pat>> = vec![vec![]];
    for x in p {
        if matches!(x, Pat::Tok(s) if s == ",") {
            elems.push(vec![]);
        } else {
            elems.last_mut().unwrap().push(x.clone());
        }
    }
    if elems.len() == 1 && elems[0].is_empty() {
        elems.clear();
    }
    let mut lead = vec![];
    let mut k = 0;
    while k < elems.len() {
        match &elems[k][..] {
            [Pat::Frag(n, kind)] if kind == "expr" || kind == "ident" => lead.push(n.clone()),
            _ => break,
        }
        k += 1;
    }
    let mut list: Vec<Vec<Pat>> = elems[k..].to_vec();
    // a bracketed list is the list
    if let [one] = &list[..] {
        if let [Pat::Grp(Delimiter::Bracket, inner)] = &one[..] {
            let (_, c, r) = list_pat(inner)?;
            return Ok((lead, c, r));
        }
    }
    let mut cond: Vec<String> = vec![];
    let mut rest = 0;
    let n = list.len();
    let mut open = false;
    let mut suffix: Vec<String> = vec![];
    for (i, e) in list.drain(..).enumerate() {
        match &e[..] {
            [Pat::Tok(s)] => {
                let t = tok(s).ok_or(format!("token {s}"))?;
                if open {
                    suffix.push(t.to_string());
                } else {
                    cond.push(format!("t[{i}] == {t}"));
                }
            }
            [Pat::Frag(_, k)] if k == "tt" && !open => {}
            [Pat::Rep(inner, Some(s), _)] if s == "," && !open => {
                open = true;
                rest = i;
                match &inner[..] {
                    [Pat::Frag(_, k)] if k == "tt" && i == n - 1 => {}
                    [Pat::Tok(s)] => {
                        let t = tok(s).ok_or(format!("token {s}"))?;
                        cond.push(format!("(forall|i: int| {rest} <= i < t.len() - {} ==> t[i] == {t})", n - 1 - i));
                    }
                    _ => return Err("repetition".into()),
                }
            }
            _ => return Err("list pattern".into()),
        }
    }
    for (j, s) in suffix.iter().enumerate() {
        cond.push(format!("t[t.len() - {}] == {s}", suffix.len() - j));
    }
    let len = if open {
        // the comma before a repetition asks for at least one element
        let min = if n == 1 && matches!(p.last(), Some(Pat::Rep(_, _, '*'))) { 0 } else { n };
        format!("t.len() >= {min}")
    } else {
        format!("t.len() == {n}")
    };
    cond.insert(0, len);
    Ok((lead, cond.join(" && "), rest))
}
