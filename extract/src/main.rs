//! Mechanical extraction of functions of /repo/src into one Verus file.
//! usage: vextract SRC_DIR CONTRACT_DIR LIB_DIR SLICE OUT.rs REPORT.json
mod macros;
mod rewrite;
mod sidecar;
use rewrite::{find_ws, rng, Editor, FnVisitor};
use sidecar::*;
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;
use syn::spanned::Spanned;
use syn::visit::Visit;

pub struct FnReport {
    key: String,
    file: String,
    line: usize,
    lines: usize,
    mode: String,
    rules: BTreeMap<&'static str, usize>,
    props: Vec<String>,
}

struct Ctx {
    macros: macros::Macros,
    slice: String,
    probe: String,
    lost: Vec<String>,
    fns: Vec<FnReport>,
    dropped: Vec<String>,
}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Free,
    Inherent,
    TraitDecl,
    TraitImpl,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn line_of(src: &str, pos: usize) -> usize {
    src[..pos].matches('\n').count() + 1
}

fn has_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string();
        s.contains("cfg") && s.contains("test") || s == "# [test]"
    })
}

/// start of the item without its attributes and doc comments
fn start_after_attrs(src: &str, attrs: &[syn::Attribute], span: (usize, usize)) -> usize {
    let mut p = attrs.iter().map(|a| rng(a.span()).1).max().unwrap_or(span.0);
    loop {
        let rest = &src[p..];
        let t = rest.trim_start();
        p += rest.len() - t.len();
        if t.starts_with("//") {
            p += t.find('\n').unwrap_or(t.len());
        } else if t.starts_with("/*") {
            p += t.find("*/").map(|x| x + 2).unwrap_or(t.len());
        } else {
            return p;
        }
    }
}

fn apply_subs(text: &str, subs: &[(String, String)], what: &str, lost: &mut Vec<String>) -> String {
    let mut t = text.to_string();
    for (a, b) in subs {
        let (a, opt) = match a.strip_prefix('?') {
            Some(x) => (x.trim(), true),
            None => (a.as_str(), false),
        };
        let f = find_ws(&t, a);
        if f.is_empty() && !opt {
            lost.push(format!("{what}: text `{a}` not found"));
        }
        for (s, e) in f.into_iter().rev() {
            t.replace_range(s..e, b);
        }
    }
    t
}

impl Ctx {
    fn in_slice(&self, props: &[String]) -> bool {
        self.slice == "ALL" || props.iter().any(|p| *p == self.slice)
    }

    /// render one function from its source text
    fn render(&mut self, key: &str, file: &str, line: usize, text0: &str, spec: &FnSpec, kind: Kind) -> String {
        let mut lost = vec![];
        // vacuity probe: a false assertion at the start or the end of every verified function
        let probed;
        let spec = match self.probe.as_str() {
            "" => spec,
            p => {
                let mut sp = spec.clone();
                if p == "entry" {
                    // after the hide headers, which have to come first
                    let (h, t): (Vec<&str>, Vec<&str>) = sp.entry.lines().partition(|l| l.trim_start().starts_with("hide("));
                    sp.entry = format!("{}\nproof {{ assert(false); }}\n{}", h.join("\n"), t.join("\n"));
                } else {
                    sp.exit = format!("{}\nproof {{ assert(false); }}\n", sp.exit);
                }
                probed = sp;
                &probed
            }
        };
        let text1 = apply_subs(text0.trim_start(), &spec.subs, key, &mut lost);
        let text = text1.as_str();
        // parse: a trait function accepts both forms
        let (attrs, sig, block, vis): (Vec<syn::Attribute>, syn::Signature, Option<syn::Block>, Option<syn::Visibility>) =
            if kind == Kind::TraitDecl {
                match syn::parse_str::<syn::TraitItemFn>(text) {
                    Ok(f) => (f.attrs, f.sig, f.default, None),
                    Err(e) => {
                        self.lost.push(format!("{key}: parse: {e}"));
                        return String::new();
                    }
                }
            } else {
                match syn::parse_str::<syn::ItemFn>(text) {
                    Ok(f) => (f.attrs, f.sig, Some(*f.block), Some(f.vis)),
                    Err(e) => {
                        self.lost.push(format!("{key}: parse: {e}"));
                        return String::new();
                    }
                }
            };
        let _ = (attrs, vis);
        let verified = self.in_slice(&spec.props) && !spec.external && block.is_some();
        let mut v = FnVisitor::new(text, spec);
        if verified {
            v.lost = lost;
        }
        // signature
        let (ss, mut se) = rng(sig.span());
        if let Some(w) = &sig.generics.where_clause {
            se = se.max(rng(w.span()).1);
        }
        if let Some(b) = &block {
            se = rng(b.span()).0;
        }
        v.visit_generics(&sig.generics);
        for i in &sig.inputs {
            if let syn::FnArg::Typed(pt) = i {
                v.visit_type(&pt.ty);
            }
            if let syn::FnArg::Receiver(r) = i {
                if let (Some(mt), None) = (&r.mutability, &r.reference) {
                    // `mut self`: a rebinding at the start of the body
                    let (a, b) = rng(mt.span());
                    v.ed.replace(a, b, "");
                    v.mutself = true;
                    *v.rules.entry("mut-self-to-rebinding").or_insert(0) += 1;
                }
            }
        }
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let (a, b) = rng(t.span());
            v.ed.before(a, format!("({}: ", spec.ret));
            v.visit_type(t);
            v.ed.after(b, ")");
        }
        let sig_rules = std::mem::take(&mut v.ed);
        let mut sigtext = {
            let mut ed = sig_rules;
            ed.edits.retain(|e| e.end <= se);
            let full = match ed.apply(&text[..se]) {
                Ok(t) => t,
                Err(e) => {
                    v.lost.push(e);
                    String::new()
                }
            };
            // drop what precedes `fn`
            let pre = text[..ss].len();
            full[pre..].to_string()
        };
        if kind == Kind::TraitDecl && block.is_none() {
            sigtext = sigtext.trim_end().trim_end_matches(';').to_string();
        }
        if !spec.sig.trim().is_empty() {
            sigtext = spec.sig.trim_end().to_string();
        }
        if kind == Kind::TraitImpl && sig.ident == "clone" {
            sigtext = sigtext.replacen("fn clone", "fn v_clone", 1);
        }
        let mut out = String::new();
        out.push_str(&format!("// @@FN {key} {file}:{line}\n"));
        out.push_str(&spec.attr);
        if block.is_some() && !verified {
            out.push_str("#[verifier::external_body]\n");
        }
        if kind == Kind::Free || kind == Kind::Inherent {
            out.push_str("pub ");
        }
        out.push_str(sigtext.trim_end());
        out.push('\n');
        if !spec.requires.trim().is_empty() && kind != Kind::TraitImpl {
            out.push_str("  requires\n");
            out.push_str(&spec.requires);
        }
        if !spec.ensures.trim().is_empty() {
            out.push_str("  ensures\n");
            out.push_str(&spec.ensures);
        }
        if !spec.decreases.trim().is_empty() {
            out.push_str(&format!("  decreases {}\n", spec.decreases.trim()));
        }
        match &block {
            None => out.push_str(";\n"),
            Some(b) if verified => {
                // body
                let (bs, be) = rng(b.span());
                if v.mutself {
                    v.ed.after(bs + 1, "\nlet mut v_self = self;");
                }
                // the hide headers have to come first
                let (h, t): (Vec<&str>, Vec<&str>) = spec.entry.lines().partition(|l| l.trim_start().starts_with("hide("));
                v.ed.after(bs + 1, format!("\n{}\nproof {{ broadcast use gbits; }}\n{}\n", h.join("\n"), t.join("\n")));
                let has_unit_tail = matches!(sig.output, syn::ReturnType::Default);
                let mut did_exit = false;
                let nst = b.stmts.len();
                for (i, s) in b.stmts.iter().enumerate() {
                    let (a, e) = rng(s.span());
                    let tail = i + 1 == nst
                        && (matches!(s, syn::Stmt::Expr(_, None)) || matches!(s, syn::Stmt::Macro(m) if m.semi_token.is_none()));
                    if tail && !has_unit_tail && !spec.exit.trim().is_empty() {
                        v.ed.before(a, format!("let {} = ", spec.ret));
                        v.cur_stmt.push((a, e, true));
                        v.visit_stmt(s);
                        v.cur_stmt.pop();
                        v.ed.after(e, format!(";\n{}\n{}", spec.exit, spec.ret));
                        did_exit = true;
                        continue;
                    }
                    let semi = matches!(s, syn::Stmt::Local(_))
                        || matches!(s, syn::Stmt::Expr(_, Some(_)))
                        || matches!(s, syn::Stmt::Macro(m) if m.semi_token.is_some())
                        || matches!(s, syn::Stmt::Expr(syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::If(_) | syn::Expr::Match(_), None) if !tail || has_unit_tail);
                    v.cur_stmt.push((a, e, semi));
                    v.visit_stmt(s);
                    v.cur_stmt.pop();
                    if tail && has_unit_tail {
                        v.ed.after(e, ";");
                    }
                }
                if !did_exit && !spec.exit.trim().is_empty() {
                    if has_unit_tail {
                        v.ed.before(be - 1, format!("\n{}", spec.exit));
                    } else if self.probe.is_empty() {
                        v.lost.push("no tail expression".into());
                    }
                }
                for (k, _) in &spec.loops {
                    if *k >= v.nloop {
                        v.lost.push(format!("loop #{k} is gone"));
                    }
                }
                for (k, _) in &spec.closures {
                    if *k >= v.nclosure {
                        v.lost.push(format!("closure #{k} is gone"));
                    }
                }
                for (i, d) in v.hooks_done.clone().iter().enumerate() {
                    if !d {
                        let h = &spec.hooks[i];
                        v.lost.push(format!("anchor {} {} #{} is gone", h.kind, h.name, h.n));
                    }
                }
                let ed = std::mem::take(&mut v.ed);
                match ed.apply(text) {
                    Ok(t) => {
                        // body part of the edited text: after the signature end
                        // re-run on the tail only: cut from the first `{` of the body
                        let tail_src_len = text.len() - bs;
                        let _ = tail_src_len;
                        out.push_str(&t[bs..]);
                        out.push('\n');
                    }
                    Err(e) => v.lost.push(e),
                }
            }
            Some(_) => out.push_str("{ unimplemented!() }\n"),
        }
        for l in &v.lost {
            self.lost.push(format!("{key}: {l}"));
        }
        self.fns.push(FnReport {
            key: key.into(),
            file: file.into(),
            line,
            lines: text0.matches('\n').count() + 1,
            mode: if block.is_none() {
                "declaration".into()
            } else if verified {
                "verified".into()
            } else if spec.external {
                "assumed".into()
            } else {
                "other-slice".into()
            },
            rules: v.rules.clone(),
            props: spec.props.clone(),
        });
        out
    }
}

/// `fn NAME<G>(..)` of a trait as `fn NAME<FREE, G>(..)`, with `Self` spelled `Self_`
fn free_method(text: &str, name: &str, free: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    for c in text.chars().chain(std::iter::once(' ')) {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else {
            out.push_str(if word == "Self" { "Self_" } else { &word });
            word.clear();
            out.push(c);
        }
    }
    let f = format!("fn {name}");
    let at = out.find(&f).map(|i| i + f.len()).unwrap_or(0);
    let rest = &out[at..];
    let tail = if let Some(r) = rest.strip_prefix('<') { format!("<{free}, {r}") } else { format!("<{free}>{rest}") };
    format!("{}{}", &out[..at], tail)
}

fn type_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => format!("&{}", type_ident(&r.elem)),
        _ => String::new(),
    }
}

fn pubify_fields(text: &str) -> Result<String, String> {
    // make all fields of a struct public and drop visibility modifiers
    let it: syn::Item = syn::parse_str(text).map_err(|e| e.to_string())?;
    let mut ed = Editor::default();
    let vis = |ed: &mut Editor, v: &syn::Visibility, at: usize| match v {
        syn::Visibility::Inherited => ed.before(at, "pub "),
        syn::Visibility::Restricted(r) => {
            let (a, b) = rng(r.span());
            ed.replace(a, b, "pub");
        }
        _ => {}
    };
    match &it {
        syn::Item::Struct(s) => {
            vis(&mut ed, &s.vis, rng(s.struct_token.span()).0);
            for f in &s.fields {
                for a in &f.attrs {
                    let (x, y) = rng(a.span());
                    ed.replace(x, y, "");
                }
                let at = f.ident.as_ref().map(|i| rng(i.span()).0).unwrap_or(rng(f.ty.span()).0);
                vis(&mut ed, &f.vis, at);
            }
        }
        syn::Item::Enum(s) => vis(&mut ed, &s.vis, rng(s.enum_token.span()).0),
        syn::Item::Type(s) => vis(&mut ed, &s.vis, rng(s.type_token.span()).0),
        syn::Item::Trait(s) => vis(&mut ed, &s.vis, rng(s.trait_token.span()).0),
        _ => {}
    }
    ed.apply(text)
}

fn seq_literal(e: &syn::Expr, elem: &str) -> Option<String> {
    match e {
        syn::Expr::Reference(r) => seq_literal(&r.expr, elem),
        syn::Expr::Array(a) => {
            let mut v = vec![];
            for x in &a.elems {
                v.push(seq_literal(x, elem)?);
            }
            Some(format!("seq![{}]", v.join(", ")))
        }
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => Some(format!("{}{elem}", i.base10_digits())),
            _ => None,
        },
        _ => None,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 7 {
        eprintln!("usage: vextract SRC CONTRACTS LIB SLICE OUT REPORT");
        std::process::exit(2);
    }
    let (srcd, cond, libd, slice, outp, repp) = (&args[1], &args[2], &args[3], &args[4], &args[5], &args[6]);
    let macros = fs::read_to_string(Path::new(srcd).join("algebra.rs")).ok().and_then(|t| syn::parse_file(&t).ok()).map(|f| macros::Macros::load(&f)).unwrap_or_default();
    let mut ctx = Ctx { macros, slice: slice.clone(), probe: std::env::var("VEXTRACT_PROBE").unwrap_or_default(), lost: vec![], fns: vec![], dropped: vec![] };
    let mut mods: Vec<Module> = vec![];
    let mut files: Vec<_> = fs::read_dir(cond).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|x| x == "vc").unwrap_or(false)).collect();
    files.sort();
    for f in &files {
        match parse(&fs::read_to_string(f).unwrap(), &f.display().to_string()) {
            Ok(m) => mods.extend(m),
            Err(e) => {
                eprintln!("{e}");
                std::process::exit(2);
            }
        }
    }
    let mut out = String::new();
    out.push_str("#![allow(unused_imports, unused_mut, unused_variables, unused_parens, unused_braces, non_camel_case_types, dead_code, unused_assignments, non_snake_case, non_upper_case_globals)]\nuse vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n");
    let mut libs: Vec<_> = fs::read_dir(libd).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|x| x == "rs").unwrap_or(false)).collect();
    libs.sort();
    let mut modnames: Vec<String> = libs.iter().map(|l| l.file_stem().unwrap().to_str().unwrap().to_string()).collect();
    for m in &mods {
        if !modnames.contains(&m.name) {
            modnames.push(m.name.clone());
        }
    }
    let uses = |me: &str| -> String {
        let mut s = String::from("use vstd::prelude::*;\nuse crate::*;\n");
        for n in &modnames {
            if n != me {
                s.push_str(&format!("use crate::{n}::*;\n"));
            }
        }
        s
    };
    for l in &libs {
        let n = l.file_stem().unwrap().to_str().unwrap();
        out.push_str(&format!("pub mod {n} {{\n{}// @@LIB {n}\n{}\n}}\n", uses(n), fs::read_to_string(l).unwrap()));
    }
    // group modules of the same name
    let mut done: Vec<String> = vec![];
    for mi in 0..mods.len() {
        let name = mods[mi].name.clone();
        if done.contains(&name) {
            continue;
        }
        done.push(name.clone());
        out.push_str(&format!("pub mod {name} {{\n{}", uses(&name)));
        for m in mods.iter().filter(|m| m.name == name) {
            let path = Path::new(srcd).join(&m.file);
            let src = match fs::read_to_string(&path) {
                Ok(s) => s,
                Err(_) => {
                    ctx.lost.push(format!("file {} is gone", m.file));
                    continue;
                }
            };
            let file: syn::File = match syn::parse_str(&src) {
                Ok(f) => f,
                Err(e) => {
                    ctx.lost.push(format!("file {}: {e}", m.file));
                    continue;
                }
            };
            let (src, file) = match expand_items(&m.expand, src, file) {
                Ok(x) => x,
                Err(e) => {
                    ctx.lost.push(format!("file {}: {e}", m.file));
                    continue;
                }
            };
            let mut taken: Vec<String> = vec![];
            for e in &m.entries {
                emit_entry(&mut ctx, m, e, &src, &file, &mut out, &mut taken);
            }
            // functions of the file that no contract names
            list_dropped(&mut ctx, &m.file, &file, &taken);
        }
        out.push_str("}\n");
    }
    out.push_str("} // verus!\nfn main() {}\n");
    fs::write(outp, &out).unwrap();
    let mut r = String::from("{\n \"lost\": [");
    r.push_str(&ctx.lost.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    r.push_str("],\n \"dropped\": [");
    r.push_str(&ctx.dropped.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    r.push_str("],\n \"functions\": [\n");
    let v: Vec<String> = ctx
        .fns
        .iter()
        .map(|f| {
            let rules: Vec<String> = f.rules.iter().map(|(k, n)| format!("{}: {}", esc(k), n)).collect();
            format!(
                "  {{\"key\": {}, \"file\": {}, \"line\": {}, \"lines\": {}, \"mode\": {}, \"props\": [{}], \"rewrites\": {{{}}}}}",
                esc(&f.key),
                esc(&f.file),
                f.line,
                f.lines,
                esc(&f.mode),
                f.props.iter().map(|p| esc(p)).collect::<Vec<_>>().join(", "),
                rules.join(", ")
            )
        })
        .collect();
    r.push_str(&v.join(",\n"));
    r.push_str("\n ]\n}\n");
    fs::write(repp, r).unwrap();
    if !ctx.lost.is_empty() {
        for l in &ctx.lost {
            eprintln!("lost anchor: {l}");
        }
        std::process::exit(3);
    }
}

fn list_dropped(ctx: &mut Ctx, fname: &str, file: &syn::File, taken: &[String]) {
    for it in &file.items {
        match it {
            syn::Item::Fn(f) if !has_cfg_test(&f.attrs) => {
                let n = f.sig.ident.to_string();
                if !taken.iter().any(|t| *t == n) {
                    ctx.dropped.push(format!("{fname}: fn {n}"));
                }
            }
            syn::Item::Impl(i) => {
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        let n = format!("{}::{}", impl_key(i), f.sig.ident);
                        if !taken.iter().any(|t| *t == n) {
                            ctx.dropped.push(format!("{fname}: {n}"));
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn impl_key(i: &syn::ItemImpl) -> String {
    match &i.trait_ {
        Some((_, p, _)) => {
            let seg = p.segments.last().unwrap();
            format!("{} for {}", seg.ident, type_ident(&i.self_ty))
        }
        None => type_ident(&i.self_ty),
    }
}

fn emit_entry(ctx: &mut Ctx, m: &Module, e: &Entry, src: &str, file: &syn::File, out: &mut String, taken: &mut Vec<String>) {
    let fname = m.file.clone();
    match e {
        Entry::Raw(t, props) => {
            // lemmas about extracted text are proved in the slices that name them
            if props.is_empty() || ctx.in_slice(props) {
                out.push_str(t);
            } else {
                for l in t.lines() {
                    if l.starts_with("pub proof fn") || l.starts_with("proof fn") {
                        out.push_str("#[verifier::external_body]\n");
                    }
                    out.push_str(l);
                    out.push('\n');
                }
            }
        }
        Entry::Type { name, attrs, subs } => {
            for it in &file.items {
                let (id, at) = match it {
                    syn::Item::Struct(s) => (s.ident.to_string(), &s.attrs),
                    syn::Item::Enum(s) => (s.ident.to_string(), &s.attrs),
                    syn::Item::Type(s) => (s.ident.to_string(), &s.attrs),
                    syn::Item::Trait(s) => (s.ident.to_string(), &s.attrs),
                    _ => continue,
                };
                if id == *name {
                    let (a, b) = rng(it.span());
                    let a = start_after_attrs(src, at, (a, b));
                    let t = apply_subs(src[a..b].trim(), subs, name, &mut ctx.lost);
                    match pubify_fields(&t) {
                        Ok(t) => {
                            out.push_str(&format!("// @@TYPE {name} {fname}:{}\n{attrs}{t}\n", line_of(src, a)));
                        }
                        Err(e) => ctx.lost.push(format!("type {name}: {e}")),
                    }
                    return;
                }
            }
            ctx.lost.push(format!("{fname}: type {name} is gone"));
        }
        Entry::DeriveEq { name, add } => {
            for it in &file.items {
                if let syn::Item::Struct(s) = it {
                    if s.ident == name && s.attrs.iter().any(|a| {
                        let t = quote::quote!(#a).to_string();
                        t.contains("derive") && t.contains("PartialEq")
                    }) {
                        let g = &s.generics.params;
                        let names: Vec<String> = s.generics.type_params().map(|p| p.ident.to_string()).collect();
                        let fields: Vec<String> = s.fields.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                        out.push_str(&format!(
                            "// @@FN {name}::eq(derived) {fname}:{}\nimpl<{}> PartialEq for {name}<{}> {{\n{add} fn eq(&self, other: &Self) -> (b: bool) {{ {} }}\n}}\n",
                            line_of(src, rng(s.span()).0),
                            quote::quote!(#g),
                            names.join(", "),
                            fields.iter().map(|f| format!("VEq::v_eq(&self.{f}, &other.{f})")).collect::<Vec<_>>().join(" && ")
                        ));
                        return;
                    }
                }
            }
            ctx.lost.push(format!("{fname}: derive(PartialEq) on {name} is gone"));
        }
        Entry::DeriveClone { name } => {
            for it in &file.items {
                if let syn::Item::Struct(s) = it {
                    if s.ident == name {
                        let has = s.attrs.iter().any(|a| {
                            let t = quote::quote!(#a).to_string();
                            t.contains("derive") && t.contains("Clone")
                        });
                        if !has {
                            break;
                        }
                        let params: Vec<String> = s
                            .generics
                            .type_params()
                            .map(|p| {
                                let b = &p.bounds;
                                let bt = quote::quote!(#b).to_string();
                                if bt.is_empty() { format!("{}: Clone", p.ident) } else { format!("{}: {} + Clone", p.ident, bt) }
                            })
                            .collect();
                        let names: Vec<String> = s.generics.type_params().map(|p| p.ident.to_string()).collect();
                        let fields: Vec<String> = s.fields.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                        out.push_str(&format!(
                            "// @@FN {name}::clone(derived) {fname}:{}\nimpl<{}> Clone for {name}<{}> {{\n fn v_clone(&self) -> (r: Self) {{ {name} {{ {} }} }}\n}}\n",
                            line_of(src, rng(s.span()).0),
                            params.join(", "),
                            names.join(", "),
                            fields.iter().map(|f| format!("{f}: Clone::v_clone(&self.{f})")).collect::<Vec<_>>().join(", ")
                        ));
                        return;
                    }
                }
            }
            ctx.lost.push(format!("{fname}: derive(Clone) on {name} is gone"));
        }
        Entry::Const { name, contract, table, props } => {
            for it in &file.items {
                if let syn::Item::Const(c) = it {
                    if c.ident == name {
                        let (ts, te) = rng(c.ty.span());
                        let (es, ee) = rng(c.expr.span());
                        // give elided lifetimes their name
                        let ty = src[ts..te].replace("&[", "&'static [");
                        if *table {
                            match seq_literal(&c.expr, "u64") {
                                Some(s) => out.push_str(&format!("pub open spec fn {name}_tab() -> Seq<Seq<u64>> {{ {s} }}\n")),
                                None => ctx.lost.push(format!("{fname}: const {name} is not a literal table")),
                            }
                        }
                        let verified = ctx.in_slice(props);
                        out.push_str(&format!(
                            "// @@FN {name} {fname}:{}\n{}pub exec const {name}: {ty}\n ensures\n{contract}\n{{ {} }}\n",
                            line_of(src, es),
                            if verified { "" } else { "#[verifier::external_body]\n" },
                            &src[es..ee]
                        ));
                        ctx.fns.push(FnReport {
                            key: name.clone(),
                            file: fname.clone(),
                            line: line_of(src, es),
                            lines: src[es..ee].matches('\n').count() + 1,
                            mode: if verified { "verified".into() } else { "other-slice".into() },
                            rules: BTreeMap::new(),
                            props: props.clone(),
                        });
                        return;
                    }
                }
            }
            ctx.lost.push(format!("{fname}: const {name} is gone"));
        }
        Entry::Fn(spec) if spec.op => emit_op(ctx, m, spec, src, file, out, taken),
        Entry::Fn(spec) => {
            for it in &file.items {
                if let syn::Item::Fn(f) = it {
                    if f.sig.ident == spec.name && !has_cfg_test(&f.attrs) {
                        let (a, b) = rng(f.span());
                        let a = start_after_attrs(src, &f.attrs, (a, b));
                        let key = format!("{}::{}", m.name, spec.name);
                        let t = ctx.render(&key, &fname, line_of(src, a), &src[a..b], spec, Kind::Free);
                        out.push_str(&t);
                        taken.push(spec.name.clone());
                        return;
                    }
                }
            }
            ctx.lost.push(format!("{fname}: fn {} is gone", spec.name));
        }
        Entry::Trait { name, add, fns, subs } => {
            for it in &file.items {
                if let syn::Item::Trait(t) = it {
                    if t.ident == name {
                        let (a, b) = rng(t.span());
                        let a = start_after_attrs(src, &t.attrs, (a, b));
                        let brace = rng(t.brace_token.span.open()).0;
                        let head = apply_subs(src[a..brace].trim(), subs, name, &mut ctx.lost);
                        let head = if head.starts_with("pub(") { format!("pub {}", &head[head.find(')').unwrap() + 1..]) } else if head.starts_with("pub") { head } else { format!("pub {head}") };
                        out.push_str(&format!("{head} {{\n{add}"));
                        let mut after = String::new();
                        for spec in fns {
                            let mut found = false;
                            for x in &t.items {
                                if let syn::TraitItem::Fn(f) = x {
                                    if f.sig.ident == spec.name {
                                        let (a, b) = rng(f.span());
                                        let a = start_after_attrs(src, &f.attrs, (a, b));
                                        let key = format!("{}::{}::{}", m.name, name, spec.name);
                                        if spec.free.is_empty() {
                                            let r = ctx.render(&key, &fname, line_of(src, a), &src[a..b], spec, Kind::TraitDecl);
                                            out.push_str(&r);
                                        } else {
                                            // a default method as a free function over the implementing type
                                            let t = free_method(&src[a..b], &spec.name, &spec.free);
                                            let r = ctx.render(&key, &fname, line_of(src, a), &t, spec, Kind::Free);
                                            after.push_str(&r);
                                        }
                                        found = true;
                                    }
                                }
                            }
                            if !found {
                                ctx.lost.push(format!("{fname}: {}::{} is gone", name, spec.name));
                            }
                        }
                        out.push_str("}\n");
                        out.push_str(&after);
                        return;
                    }
                }
            }
            ctx.lost.push(format!("{fname}: trait {name} is gone"));
        }
        Entry::Impl { key, add, fns, subs } => {
            // key may carry a #n suffix selecting one of several blocks
            let (k, sel) = match key.split_once('#') {
                Some((k, n)) => (k.trim().to_string(), n.trim().parse::<usize>().ok()),
                None => (key.clone(), None),
            };
            let mut found = vec![false; fns.len()];
            let mut nblk = 0;
            let mut first = true;
            let mut any = false;
            for it in &file.items {
                if let syn::Item::Impl(i) = it {
                    if has_cfg_test(&i.attrs) || impl_key(i) != k {
                        continue;
                    }
                    let my = nblk;
                    nblk += 1;
                    if let Some(s) = sel {
                        if s != my {
                            continue;
                        }
                    }
                    any = true;
                    let names: Vec<String> = i.items.iter().filter_map(|x| if let syn::ImplItem::Fn(f) = x { Some(f.sig.ident.to_string()) } else { None }).collect();
                    if !fns.is_empty() && !fns.iter().any(|f| names.contains(&f.name)) {
                        continue;
                    }
                    let (a, b) = rng(i.span());
                    let a = start_after_attrs(src, &i.attrs, (a, b));
                    let brace = rng(i.brace_token.span.open()).0;
                    let head = apply_subs(src[a..brace].trim(), subs, key, &mut ctx.lost);
                    let inherent = i.trait_.is_none() || !head.contains(" for ");
                    out.push_str(&format!("{head} {{\n"));
                    if first {
                        out.push_str(add);
                        first = false;
                    }
                    for x in &i.items {
                        match x {
                            syn::ImplItem::Type(t) if !inherent => {
                                let (a, b) = rng(t.span());
                                out.push_str(&format!("{}\n", &src[a..b]));
                            }
                            syn::ImplItem::Fn(f) => {
                                if let Some(p) = fns.iter().position(|s| f.sig.ident == s.name) {
                                    let spec = &fns[p];
                                    found[p] = true;
                                    let (a, b) = rng(f.span());
                                    let a = start_after_attrs(src, &f.attrs, (a, b));
                                    let fk = format!("{}::{}::{}", m.name, key.replace(' ', "_"), spec.name);
                                    let kind = if inherent { Kind::Inherent } else { Kind::TraitImpl };
                                    // naming the implementation's own spec functions keeps their definitions in reach
                                    let mut spec = spec.clone();
                                    if !inherent && f.sig.receiver().is_some() {
                                        for w in add.split("spec fn ").skip(1) {
                                            if let Some((n, _)) = w.split_once("(&self)") {
                                                spec.entry = format!("proof {{ let _g = self.{n}(); }}\n{}", spec.entry);
                                            }
                                        }
                                    }
                                    let r = ctx.render(&fk, &fname, line_of(src, a), &src[a..b], &spec, kind);
                                    out.push_str(&r);
                                    taken.push(format!("{}::{}", k, spec.name));
                                }
                            }
                            _ => {}
                        }
                    }
                    out.push_str("}\n");
                }
            }
            if !any {
                ctx.lost.push(format!("{fname}: impl {key} is gone"));
            }
            for (p, f) in found.iter().enumerate() {
                if !f {
                    ctx.lost.push(format!("{fname}: {key}::{} is gone", fns[p].name));
                }
            }
        }
        Entry::MacroFn { name, kind } => {
            let r = if kind == "decl" { ctx.macros.as_decl() } else { ctx.macros.as_fn(name, kind) };
            match r {
                Ok(t) => {
                    out.push_str(&t);
                    ctx.fns.push(FnReport {
                        key: format!("macro {name}!"),
                        file: fname.clone(),
                        line: file.items.iter().find_map(|i| match i {
                            syn::Item::Macro(x) if x.ident.as_ref().map(|y| y == name).unwrap_or(false) => Some(line_of(src, rng(x.span()).0)),
                            _ => None,
                        }).unwrap_or(0),
                        lines: 0,
                        mode: "macro".into(),
                        rules: BTreeMap::new(),
                        props: m.props.clone(),
                    });
                }
                Err(e) => ctx.lost.push(format!("{fname}: {e}")),
            }
        }
        Entry::Declare { name, name_props, add, entry } => {
            for it in &file.items {
                if let syn::Item::Macro(x) = it {
                    if x.mac.path.segments.last().unwrap().ident != "declare_algebra" || !x.mac.tokens.to_string().split(',').next().unwrap_or("").split_whitespace().any(|w| w == name) {
                        continue;
                    }
                    let inv: Vec<proc_macro2::TokenTree> = { let t = &x.mac.tokens; let e: proc_macro2::TokenStream = quote::quote!(declare_algebra!(#t);); e.into_iter().collect() };
                    let sig = inv.iter().find_map(|g| if let proc_macro2::TokenTree::Group(g) = g { g.stream().into_iter().find_map(|y| match y {
                        proc_macro2::TokenTree::Group(b) => Some(b.stream().to_string().split(',').map(|w| match w.trim() { "+" => "Tok::Plus", "-" => "Tok::Minus", "0" => "Tok::Null", _ => "?" }).collect::<Vec<_>>().join(", ")),
                        _ => None }) } else { None }).unwrap_or("?".into());
                    // the declared generator names: the second list of the declaration
                    let names = inv.iter().find_map(|g| if let proc_macro2::TokenTree::Group(g) = g { g.stream().into_iter().filter_map(|y| match y {
                        proc_macro2::TokenTree::Group(b) => Some(b.stream().into_iter().filter_map(|z| match z { proc_macro2::TokenTree::Literal(l) => Some(format!("{l}@")), _ => None }).collect::<Vec<_>>().join(", ")),
                        _ => None }).nth(1) } else { None }).unwrap_or_default();
                    if sig.contains('?') {
                        ctx.lost.push(format!("{fname}: signature of {name}"));
                        return;
                    }
                    let line = line_of(src, rng(x.span()).0);
                    let ex = match ctx.macros.expand(&inv, 0) {
                        Ok(v) => v.into_iter().collect::<proc_macro2::TokenStream>(),
                        Err(e) => { ctx.lost.push(format!("{fname}: declare_algebra!({name}): {e}")); return; }
                    };
                    let parsed: syn::File = match syn::parse2(ex) {
                        Ok(f) => f,
                        Err(e) => { ctx.lost.push(format!("{fname}: expansion of declare_algebra!({name}): {e}")); return; }
                    };
                    out.push_str(&format!("pub struct {name} {{}}\npub open spec fn {name}_sig() -> Seq<Tok> {{ seq![{sig}] }}\n"));
                    if !names.is_empty() {
                        out.push_str(&format!("pub open spec fn {name}_names() -> Seq<Seq<char>> {{ seq![{names}] }}\n"));
                    }
                    for i in &parsed.items {
                        if let syn::Item::Impl(i) = i {
                            let tr = i.trait_.as_ref().unwrap().1.segments.last().unwrap();
                            let trs = quote::quote!(#tr).to_string();
                            if tr.ident == "ClAlgebraBase" {
                                out.push_str(&format!("impl ClAlgebraBase for {name} {{\n{add}"));
                                for x in &i.items {
                                    if let syn::ImplItem::Fn(f) = x {
                                        let id = &f.sig.ident;
                                        let b = &f.block;
                                        let head = if id == "axis_name" { "(n: usize) -> String" } else { "() -> usize" };
                                        let text = format!("fn {id}{head}\n{}", quote::quote!(#b));
                                        let props = if id == "axis_name" { name_props.clone() } else { m.props.clone() };
                                        let spec = FnSpec { name: id.to_string(), ret: "r".into(), props, entry: entry.clone(), ..Default::default() };
                                        let r = ctx.render(&format!("{}::{name}::{id}", m.name), &fname, line, &text, &spec, Kind::TraitImpl);
                                        out.push_str(&r);
                                    }
                                }
                                out.push_str("}\n");
                            } else {
                                out.push_str(&format!("impl {trs} for {name} {{}}\n"));
                            }
                        }
                    }
                    return;
                }
            }
            ctx.lost.push(format!("{fname}: declare_algebra!({name}) is gone"));
        }
    }
}

/// append the expansion of item macros of the file to its text
fn expand_items(what: &[(String, Option<String>)], mut src: String, file: syn::File) -> Result<(String, syn::File), String> {
    if what.is_empty() {
        return Ok((src, file));
    }
    let macros = macros::Macros::load(&file);
    for (name, args) in what {
        let mut calls = vec![];
        if let Some(a) = args {
            calls.push(syn::parse_str::<proc_macro2::TokenStream>(a).map_err(|e| e.to_string())?);
        } else {
            for it in &file.items {
                if let syn::Item::Macro(x) = it {
                    if x.ident.is_none() && x.mac.path.segments.last().unwrap().ident == name.as_str() {
                        calls.push(x.mac.tokens.clone());
                    }
                }
            }
        }
        if calls.is_empty() {
            return Err(format!("no use of {name}!"));
        }
        for c in calls {
            let v = macros.expand_once(name, &c.into_iter().collect::<Vec<_>>())?;
            src.push_str(&format!("\n// expansion of {name}!\n{}\n", v.into_iter().collect::<proc_macro2::TokenStream>()));
        }
    }
    let file = syn::parse_str(&src).map_err(|e| format!("expansion: {e}"))?;
    Ok((src, file))
}

/// `#[opimps::impl_ops(Tr)] fn f(self: L, rhs: R) -> O {..}` expands to one impl per
/// owned/borrowed combination with the same body.
fn emit_op(ctx: &mut Ctx, m: &Module, spec: &FnSpec, src: &str, file: &syn::File, out: &mut String, taken: &mut Vec<String>) {
    let mut n = 0;
    for it in &file.items {
        let f = match it {
            syn::Item::Fn(f) => f,
            _ => continue,
        };
        let mut tr = None;
        let mut uni = false;
        let mut single = false;
        for a in &f.attrs {
            let p = a.path().segments.last().unwrap().ident.to_string();
            if p.starts_with("impl_") && (p.ends_with("_op") || p.ends_with("_ops")) {
                if let syn::Meta::List(l) = &a.meta {
                    tr = Some(l.tokens.to_string().split("::").last().unwrap().trim().to_string());
                }
                uni = p.contains("uni");
                single = p.ends_with("_op");
            }
        }
        if tr.as_deref() != Some(spec.name.as_str()) {
            continue;
        }
        if n != spec.nth {
            n += 1;
            continue;
        }
        taken.push(f.sig.ident.to_string());
        let tr = tr.unwrap();
        let low = tr.to_lowercase();
        let (lt, rt) = {
            let mut ins = f.sig.inputs.iter();
            let l = match ins.next() {
                Some(syn::FnArg::Receiver(r)) => r.ty.clone(),
                _ => {
                    ctx.lost.push(format!("{}: operator {tr} receiver", m.file));
                    return;
                }
            };
            let r = match ins.next() {
                Some(syn::FnArg::Typed(t)) => Some((t.ty.clone(), t.pat.clone())),
                _ => None,
            };
            (l, r)
        };
        let ltx = { let (a, b) = rng(lt.span()); src[a..b].to_string() };
        let otx = match &f.sig.output {
            syn::ReturnType::Type(_, t) => { let (a, b) = rng(t.span()); src[a..b].to_string() }
            _ => "()".into(),
        };
        let gtx: String = { let g = &f.sig.generics.params; if g.is_empty() { String::new() } else { let (a, b) = rng(g.span()); src[a..b].to_string() } };
        let wtx = match &f.sig.generics.where_clause { Some(w) => { let (a, b) = rng(w.span()); src[a..b].to_string() } None => String::new() };
        let (ba, bb) = rng(f.block.span());
        let body = &src[ba..bb];
        let line = line_of(src, rng(f.sig.span()).0);
        let combos: Vec<(bool, bool)> = if uni { if single { vec![(false, false)] } else { vec![(false, false), (true, false)] } } else if single { vec![(false, false)] } else { vec![(false, false), (true, false), (false, true), (true, true)] };
        for (i, (lr, rr)) in combos.iter().enumerate() {
            let f64fix = |s: &str| -> String { if s.trim() == "f64" { "F64".into() } else { s.to_string() } };
            let mut lts: Vec<String> = vec![];
            if *lr { lts.push("'va".into()); }
            if *rr { lts.push("'vb".into()); }
            let l2 = if *lr { format!("&'va {ltx}") } else { ltx.clone() };
            let mut gens = lts.join(", ");
            if !gens.is_empty() && !gtx.is_empty() { gens.push_str(", "); }
            gens.push_str(&gtx);
            let (rty, rname) = match &rt {
                Some((t, p)) => {
                    let (a, b) = rng(t.span());
                    let t = f64fix(&src[a..b]);
                    let (a, b) = rng(p.span());
                    (if *rr { format!("&'vb {t}") } else { t }, src[a..b].to_string())
                }
                None => (String::new(), String::new()),
            };
            let tgen = if rt.is_some() { format!("<{rty}>") } else { String::new() };
            let key = format!("{}::{}#{}/{}", m.name, tr, spec.nth, i);
            let argd = if rt.is_some() { format!(", {rname}: {rty}") } else { String::new() };
            let ftext = format!("fn {}(self{argd}) -> {otx}\n{body}", f.sig.ident);
            let mut sp = spec.clone();
            // `self`/`rhs` stand for the values; dereference borrowed ones in clauses
            let fix = |s: &str| -> String {
                let mut t = s.to_string();
                t = t.replace("$self", if *lr { "(*self)" } else { "self" });
                t = t.replace("$rhs", if *rr { "(*rhs)" } else { "rhs" });
                t
            };
            sp.ensures = fix(&spec.ensures);
            sp.requires = String::new();
            sp.entry = fix(&spec.entry);
            sp.exit = fix(&spec.exit);
            for (_, l) in sp.loops.iter_mut() {
                l.inv = fix(&l.inv);
                l.begin = fix(&l.begin);
                l.end = fix(&l.end);
                l.before = fix(&l.before);
                l.after = fix(&l.after);
            }
            for h in sp.hooks.iter_mut() {
                h.text = fix(&h.text);
            }
            for (_, c) in sp.closures.iter_mut() {
                *c = fix(c);
            }
            let req = fix(&spec.requires);
            let req = if req.trim().is_empty() { "true".to_string() } else { req.trim().trim_end_matches(',').split(",\n").map(|x| format!("({})", x.trim())).collect::<Vec<_>>().join(" && ") };
            let r = ctx.render(&key, &m.file, line, &ftext, &sp, Kind::TraitImpl);
            out.push_str(&format!("impl<{gens}> {tr}{tgen} for {l2}\n{wtx} {{\n type Output = {otx};\n{r}}}\n"));
            let sargs = if rt.is_some() { format!("self, rhs: {rty}") } else { "self".into() };
            out.push_str(&format!(
                "impl<{gens}> {tr}SpecImpl{tgen} for {l2}\n{wtx} {{\n open spec fn obeys_{low}_spec() -> bool {{ false }}\n open spec fn {low}_req({sargs}) -> bool {{ {req} }}\n open spec fn {low}_spec({sargs}) -> {otx} {{ arbitrary() }}\n}}\n"
            ));
        }
        return;
    }
    ctx.lost.push(format!("{}: operator {} #{} is gone", m.file, spec.name, spec.nth));
}
