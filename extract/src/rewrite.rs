//! Text edits on one function: the source text is kept, contracts are inserted and the
//! listed dialect rewrites are applied at syntax-tree positions.
use crate::sidecar::{FnSpec, LoopSpec};
use proc_macro2::Span;
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone)]
pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub class: u8,
    pub text: String,
}

#[derive(Default)]
pub struct Editor {
    pub edits: Vec<Edit>,
}

impl Editor {
    pub fn before(&mut self, pos: usize, t: impl Into<String>) {
        self.edits.push(Edit { start: pos, end: pos, class: 1, text: t.into() });
    }
    pub fn after(&mut self, pos: usize, t: impl Into<String>) {
        self.edits.push(Edit { start: pos, end: pos, class: 0, text: t.into() });
    }
    pub fn replace(&mut self, a: usize, b: usize, t: impl Into<String>) {
        self.edits.push(Edit { start: a, end: b, class: 2, text: t.into() });
    }
    pub fn apply(mut self, src: &str) -> Result<String, String> {
        self.edits.sort_by_key(|e| (e.start, e.class)); // stable
        let mut out = String::new();
        let mut p = 0;
        for e in &self.edits {
            if e.start < p {
                // swallowed by an enclosing replacement
                if e.start == e.end {
                    continue;
                }
                return Err("overlapping rewrites".into());
            }
            out.push_str(&src[p..e.start]);
            out.push_str(&e.text);
            p = e.end;
        }
        out.push_str(&src[p..]);
        Ok(out)
    }
}

pub fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

pub struct FnVisitor<'a> {
    pub src: &'a str,
    pub spec: &'a FnSpec,
    pub ed: Editor,
    pub nloop: usize,
    pub nclosure: usize,
    pub nreturn: usize,
    pub lets: BTreeMap<String, usize>,
    pub calls: BTreeMap<String, usize>,
    pub hooks_done: Vec<bool>,
    pub rules: BTreeMap<&'static str, usize>,
    pub lost: Vec<String>,
    pub cur_stmt: Vec<(usize, usize, bool)>,
    pub mutself: bool,
}

pub fn strip_paren(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => strip_paren(&p.expr),
        syn::Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

fn is_int_lit(e: &syn::Expr) -> bool {
    matches!(strip_paren(e), syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Int(_)))
}

impl<'a> FnVisitor<'a> {
    pub fn new(src: &'a str, spec: &'a FnSpec) -> Self {
        FnVisitor {
            src,
            spec,
            ed: Editor::default(),
            nloop: 0,
            nclosure: 0,
            nreturn: 0,
            lets: BTreeMap::new(),
            calls: BTreeMap::new(),
            hooks_done: vec![false; spec.hooks.len()],
            rules: BTreeMap::new(),
            lost: vec![],
            cur_stmt: vec![],
            mutself: false,
        }
    }
    fn rule(&mut self, r: &'static str) {
        *self.rules.entry(r).or_insert(0) += 1;
    }
    fn text(&self, s: Span) -> &'a str {
        let (a, b) = rng(s);
        &self.src[a..b]
    }
    fn ref_operand(e: &syn::Expr) -> bool {
        match strip_paren(e) {
            syn::Expr::Reference(_) => true,
            syn::Expr::Binary(b) if Self::arith(&b.op).is_some() => {
                Self::ref_operand(&b.left) || Self::ref_operand(&b.right)
            }
            _ => false,
        }
    }
    fn arith(op: &syn::BinOp) -> Option<&'static str> {
        match op {
            syn::BinOp::Add(_) => Some("Add::add"),
            syn::BinOp::Sub(_) => Some("Sub::sub"),
            syn::BinOp::Mul(_) => Some("Mul::mul"),
            syn::BinOp::Div(_) => Some("Div::div"),
            _ => None,
        }
    }
    fn hook_call(&mut self, name: &str) {
        let k = *self.calls.get(name).unwrap_or(&0);
        self.calls.insert(name.to_string(), k + 1);
        for i in 0..self.spec.hooks.len() {
            let h = &self.spec.hooks[i];
            if h.name == name && h.n == k && (h.kind == "call" || h.kind == "beforecall") {
                if let Some((a, b, semi)) = self.cur_stmt.last().copied() {
                    if h.kind == "call" {
                        if !semi {
                            self.lost.push(format!("call {name} #{k} is not in a statement"));
                        } else {
                            self.ed.after(b, format!("\n{}", h.text));
                        }
                    } else {
                        self.ed.before(a, format!("{}\n", h.text));
                    }
                    self.hooks_done[i] = true;
                }
            }
        }
    }
    fn hook_let(&mut self, name: &str, end: usize) {
        let k = *self.lets.get(name).unwrap_or(&0);
        self.lets.insert(name.to_string(), k + 1);
        for i in 0..self.spec.hooks.len() {
            let h = &self.spec.hooks[i];
            if h.name == name && h.n == k && h.kind == "let" {
                self.ed.after(end, format!("\n{}", h.text));
                self.hooks_done[i] = true;
            }
        }
    }
    fn pat_names(p: &syn::Pat, out: &mut Vec<String>) {
        match p {
            syn::Pat::Ident(i) => out.push(i.ident.to_string()),
            syn::Pat::Type(t) => Self::pat_names(&t.pat, out),
            syn::Pat::Tuple(t) => t.elems.iter().for_each(|e| Self::pat_names(e, out)),
            _ => {}
        }
    }
    fn inv_text(l: &LoopSpec, extra: &str, dec: &str) -> String {
        let mut s = String::new();
        if !l.inv.trim().is_empty() || !extra.is_empty() {
            s.push_str("\n invariant\n");
            s.push_str(extra);
            s.push_str(l.inv.trim_end());
            s.push('\n');
        }
        let d = if l.dec.trim().is_empty() { dec } else { l.dec.trim() };
        if !d.is_empty() {
            s.push_str(" decreases ");
            s.push_str(d);
            s.push('\n');
        }
        s
    }
    fn loop_spec(&mut self, k: usize) -> LoopSpec {
        match self.spec.loops.get(&k) {
            Some(l) => l.clone(),
            None => {
                self.lost.push(format!("loop #{k} has no invariant"));
                LoopSpec::default()
            }
        }
    }
    fn is_native_range(e: &syn::Expr) -> bool {
        matches!(strip_paren(e), syn::Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, syn::RangeLimits::HalfOpen(_)))
    }
}

impl<'a, 'ast> Visit<'ast> for FnVisitor<'a> {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for s in &b.stmts {
            let (a, e) = rng(s.span());
            let semi = matches!(s, syn::Stmt::Local(_))
                || matches!(s, syn::Stmt::Expr(_, Some(_)))
                || matches!(s, syn::Stmt::Macro(m) if m.semi_token.is_some())
                || matches!(s, syn::Stmt::Expr(syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Loop(_), None) if !std::ptr::eq(s, b.stmts.last().unwrap()));
            self.cur_stmt.push((a, e, semi));
            self.visit_stmt(s);
            self.cur_stmt.pop();
        }
    }

    fn visit_local(&mut self, l: &'ast syn::Local) {
        visit::visit_local(self, l);
        let mut names = vec![];
        Self::pat_names(&l.pat, &mut names);
        let (_, e) = rng(l.span());
        for n in names {
            self.hook_let(&n, e);
        }
    }

    fn visit_item(&mut self, i: &'ast syn::Item) {
        // an inner constant becomes a let binding
        if let syn::Item::Const(c) = i {
            self.rule("inner-const-to-let");
            let (a, b) = rng(c.const_token.span());
            self.ed.replace(a, b, "let");
            visit::visit_expr(self, &c.expr);
            visit::visit_type(self, &c.ty);
        } else if let syn::Item::Use(_) = i {
            let (a, b) = rng(i.span());
            self.ed.replace(a, b, "");
        } else {
            self.lost.push("inner item".into());
        }
    }

    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        let k = self.nloop;
        self.nloop += 1;
        let l = self.loop_spec(k);
        let (fs, fe) = rng(f.span());
        let (bs, be) = rng(f.body.span());
        if Self::is_native_range(&f.expr) {
            // native for over a range
            let ghostname = if l.iter.is_empty() { String::new() } else { format!("{}: ", l.iter) };
            self.ed.before(fs, format!("{{ {}\n", l.before));
            if !ghostname.is_empty() {
                let (es, _) = rng(f.expr.span());
                self.ed.before(es, ghostname);
            }
            // strip the pattern `_`
            if let syn::Pat::Wild(w) = &*f.pat {
                let (a, b) = rng(w.span());
                self.ed.replace(a, b, format!("_v{k}"));
            }
            if let syn::Expr::Range(r) = strip_paren(&f.expr) {
                visit::visit_expr_range(self, r);
            }
            let inv = Self::inv_text(&l, "", "");
            self.ed.before(bs, inv);
            self.ed.after(bs + 1, format!("\nproof {{ broadcast use gbits; }}\n{}", l.begin));
            self.visit_block(&f.body);
            self.ed.before(be - 1, format!("\n{}", l.end));
            self.ed.after(fe, format!("\n{} }}", l.after));
        } else {
            self.rule("for-to-iterator-protocol");
            let it = if l.iter.is_empty() { format!("it{k}") } else { l.iter.clone() };
            let (es, ee) = rng(f.expr.span());
            self.ed.replace(fs, es, format!("{{ let mut {it} = "));
            self.visit_expr(&f.expr);
            let inv = Self::inv_text(
                &l,
                &format!("  0 <= {it}.pos() <= {it}.all().len(), {it}.all() == vall_{it},\n"),
                &format!("{it}.all().len() - {it}.pos()"),
            );
            self.ed.after(ee, format!(";\n let ghost vall_{it} = {it}.all();\n{}\nwhile {it}.has_next(){inv}", l.before));
            let pat = self.text(f.pat.span()).to_string();
            self.ed.after(bs + 1, format!("\n let {pat} = {it}.take_next();\nproof {{ broadcast use gbits; }}\n{}", l.begin));
            self.visit_block(&f.body);
            self.ed.before(be - 1, format!("\n{}", l.end));
            self.ed.after(fe, format!("\n{} }}", l.after));
        }
    }

    fn visit_expr_range(&mut self, r: &'ast syn::ExprRange) {
        if let (Some(s), Some(e), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
            self.rule("range-to-iterator");
            let (ms, me) = rng(r.span());
            let (ss, se) = rng(s.span());
            let (es, ee) = rng(e.span());
            if ms != ss || me != ee {
                self.lost.push("range expression".into());
            }
            self.ed.before(ms, "v_range(");
            self.visit_expr(s);
            self.ed.replace(se, es, ", ");
            self.visit_expr(e);
            self.ed.after(ee, ")");
        } else {
            self.lost.push("range expression".into());
        }
    }

    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        let k = self.nloop;
        self.nloop += 1;
        let l = self.loop_spec(k);
        let (fs, fe) = rng(w.span());
        let (bs, be) = rng(w.body.span());
        self.ed.before(fs, format!("{{ {}\n", l.before));
        self.visit_expr(&w.cond);
        let inv = Self::inv_text(&l, "", "");
        self.ed.before(bs, inv);
        self.ed.after(bs + 1, format!("\nproof {{ broadcast use gbits; }}\n{}", l.begin));
        self.visit_block(&w.body);
        self.ed.before(be - 1, format!("\n{}", l.end));
        self.ed.after(fe, format!("\n{} }}", l.after));
    }

    fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) {
        let k = self.nloop;
        self.nloop += 1;
        let l = self.loop_spec(k);
        let (bs, be) = rng(w.body.span());
        let inv = Self::inv_text(&l, "", "");
        self.ed.before(bs, inv);
        self.ed.after(bs + 1, format!("\nproof {{ broadcast use gbits; }}\n{}", l.begin));
        self.visit_block(&w.body);
        self.ed.before(be - 1, format!("\n{}", l.end));
    }

    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let k = self.nclosure;
        self.nclosure += 1;
        let (cs, ce) = rng(c.span());
        let (bs, _) = rng(c.body.span());
        match self.spec.closures.get(&k) {
            None => {
                self.lost.push(format!("closure #{k} has no contract"));
                visit::visit_expr_closure(self, c);
            }
            Some(h) => {
                self.rule("closure-contract-and-parameter-binding");
                let mv = if c.capture.is_some() { "move " } else { "" };
                let mut binds = String::new();
                for (i, p) in c.inputs.iter().enumerate() {
                    let pn = if c.inputs.len() == 1 { "p".to_string() } else { format!("p{i}") };
                    if let syn::Pat::Wild(_) = p {
                        continue;
                    }
                    binds.push_str(&format!("let {} = {pn}; ", self.text(p.span())));
                }
                self.ed.replace(cs, bs, format!("{mv}{} {{ {binds}", h.trim_end()));
                self.visit_expr(&c.body);
                self.ed.after(ce, " }");
            }
        }
    }

    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        if let Some(f) = Self::arith(&b.op) {
            let conv = (self.spec.opcalls && !is_int_lit(&b.left) && !is_int_lit(&b.right))
                || Self::ref_operand(&b.left)
                || Self::ref_operand(&b.right);
            if conv {
                self.rule("operator-to-trait-call");
                let (ls, _) = rng(b.left.span());
                let (_, re) = rng(b.right.span());
                let (os, oe) = rng(b.op.span());
                self.ed.before(ls, format!("{f}("));
                self.visit_expr(&b.left);
                self.ed.replace(os, oe, ",");
                self.visit_expr(&b.right);
                self.ed.after(re, ")");
                return;
            }
        }
        // comparison with a tuple of three
        let cmp = match b.op {
            syn::BinOp::Eq(_) => Some("v_eq3"),
            syn::BinOp::Ne(_) => Some("v_ne3"),
            _ => None,
        };
        let three = |e: &syn::Expr| matches!(e, syn::Expr::Tuple(t) if t.elems.len() == 3);
        if let (Some(f), true) = (cmp, three(&b.left) || three(&b.right)) {
            self.rule("tuple-comparison-to-call");
            let (ls, _) = rng(b.left.span());
            let (_, re) = rng(b.right.span());
            let (os, oe) = rng(b.op.span());
            self.ed.before(ls, format!("{f}("));
            self.visit_expr(&b.left);
            self.ed.replace(os, oe, ",");
            self.visit_expr(&b.right);
            self.ed.after(re, ")");
            return;
        }
        // compound assignment
        let comp = match b.op {
            syn::BinOp::AddAssign(_) => Some("Add::add"),
            syn::BinOp::SubAssign(_) => Some("Sub::sub"),
            syn::BinOp::MulAssign(_) => Some("Mul::mul"),
            syn::BinOp::DivAssign(_) => Some("Div::div"),
            _ => None,
        };
        if let (Some(f), true, false) = (comp, self.spec.opcalls, is_int_lit(&b.right)) {
            self.rule("compound-assignment-to-trait-call");
            let lt = self.text(b.left.span()).to_string();
            let (os, oe) = rng(b.op.span());
            let (_, re) = rng(b.right.span());
            self.ed.replace(os, oe, format!("= {f}({lt}, "));
            self.visit_expr(&b.right);
            self.ed.after(re, ")");
            return;
        }
        visit::visit_expr_binary(self, b);
    }

    fn visit_expr_index(&mut self, x: &'ast syn::ExprIndex) {
        if !self.spec.index {
            visit::visit_expr_index(self, x);
            return;
        }
        // READ of X[i]  ->  (*X.v_at(i))
        self.rule("index-to-method");
        let (xs, xe) = rng(x.span());
        let (_, re) = rng(x.expr.span());
        let (is, ie) = rng(x.index.span());
        self.ed.before(xs, "(*");
        self.visit_expr(&x.expr);
        self.ed.replace(re, is, ".v_at(");
        self.visit_expr(&x.index);
        self.ed.replace(ie, xe, "))");
    }

    fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
        if self.spec.index {
            if let syn::Expr::Index(x) = strip_paren(&a.left) {
                // X[i] = e  ->  { let v_tmp = e; X.v_set(i, v_tmp) }
                self.rule("index-to-method");
                let (s, e) = rng(a.span());
                let (xs, xe) = rng(x.expr.span());
                let (is, ie) = rng(x.index.span());
                let (rs, _) = rng(a.right.span());
                let lhs = self.src[xs..xe].to_string();
                let idx = self.src[is..ie].to_string();
                self.ed.replace(s, rs, "{ let v_tmp = ");
                self.visit_expr(&a.right);
                self.ed.after(e, format!("; {lhs}.v_set({idx}, v_tmp) }}"));
                return;
            }
        }
        visit::visit_expr_assign(self, a);
    }

    fn visit_expr_unary(&mut self, u: &'ast syn::ExprUnary) {
        if let syn::UnOp::Neg(n) = &u.op {
            if !matches!(strip_paren(&u.expr), syn::Expr::Lit(l) if !matches!(l.lit, syn::Lit::Float(_))) {
                self.rule("operator-to-trait-call");
                let (a, b) = rng(n.span());
                let (_, e) = rng(u.expr.span());
                self.ed.replace(a, b, "Neg::neg(");
                self.visit_expr(&u.expr);
                self.ed.after(e, ")");
                return;
            }
        }
        visit::visit_expr_unary(self, u);
    }

    fn visit_expr_lit(&mut self, l: &'ast syn::ExprLit) {
        if let syn::Lit::Float(f) = &l.lit {
            let d = f.base10_digits().trim_end_matches('0').trim_end_matches('.').to_string();
            let d = if d.is_empty() { "0".to_string() } else { d };
            self.rule("float-literal-to-exact-constant");
            let (a, b) = rng(l.span());
            if d.chars().all(|c| c.is_ascii_digit()) {
                // 1.0 -> "1", but 10. -> "10"
                let whole = f.base10_digits().split('.').next().unwrap().to_string();
                self.ed.replace(a, b, format!("v_f64({whole})"));
            } else {
                // 2.5e-3 -> 25 / 10000
                let t = f.base10_digits().to_lowercase();
                let (m, x) = t.split_once('e').unwrap_or((&t, "0"));
                let (w, fr) = m.split_once('.').unwrap_or((m, ""));
                match x.parse::<i64>() {
                    Ok(x) if x.abs() < 400 => {
                        let x = x - fr.len() as i64;
                        let z = "0".repeat(x.unsigned_abs() as usize);
                        let n = format!("{w}{fr}");
                        let n = n.trim_start_matches('0');
                        let n = if n.is_empty() { "0" } else { n };
                        let q = if x >= 0 { format!("{n}{z}real") } else { format!("{n}real / 1{z}real") };
                        self.ed.replace(a, b, format!("v_f64r(Ghost({q}))"));
                    }
                    _ => self.lost.push(format!("float literal {}", f.base10_digits())),
                }
            }
        }
    }

    fn visit_type_path(&mut self, t: &'ast syn::TypePath) {
        for (name, exact) in [("f64", "F64"), ("f32", "F32")] {
            if t.qself.is_none() && t.path.is_ident(name) {
                self.rule("f64-to-exact-field");
                let (a, b) = rng(t.span());
                self.ed.replace(a, b, exact);
                return;
            }
        }
        visit::visit_type_path(self, t);
    }

    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        if let syn::Type::Path(t) = &*c.ty {
            if t.qself.is_none() && (t.path.is_ident("f64") || t.path.is_ident("f32")) {
                // X as f64  ->  v_to_f64(X)
                self.rule("cast-to-exact-field");
                let (a, b) = rng(c.span());
                let (es, ee) = rng(c.expr.span());
                self.ed.before(a, if t.path.is_ident("f64") { "v_to_f64(" } else { "v_to_f32(" });
                if a != es {
                    self.lost.push("cast".into());
                }
                self.visit_expr(&c.expr);
                self.ed.replace(ee, b, ")");
                return;
            }
        }
        visit::visit_expr_cast(self, c);
    }

    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if self.mutself && p.path.is_ident("self") {
            let (a, b) = rng(p.span());
            self.ed.replace(a, b, "v_self");
            return;
        }
        if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "f64" {
            self.rule("f64-to-exact-field");
            let (a, b) = rng(p.path.segments[0].span());
            self.ed.replace(a, b, "F64");
            return;
        }
        visit::visit_expr_path(self, p);
    }

    fn visit_type_impl_trait(&mut self, t: &'ast syn::TypeImplTrait) {
        let mut done = false;
        for b in &t.bounds {
            if let syn::TypeParamBound::Trait(tb) = b {
                let seg = tb.path.segments.last().unwrap();
                if seg.ident == "Iterator" || seg.ident == "IntoIterator" {
                    if let syn::PathArguments::AngleBracketed(ab) = &seg.arguments {
                        for ga in &ab.args {
                            if let syn::GenericArgument::AssocType(at) = ga {
                                self.rule("impl-iterator-to-concrete-iterator");
                                let (ts, te) = rng(t.span());
                                let (is, ie) = rng(at.ty.span());
                                self.ed.replace(ts, is, "CIter<");
                                self.visit_type(&at.ty);
                                self.ed.replace(ie, te, ">");
                                done = true;
                            }
                        }
                    }
                }
            }
        }
        if !done {
            visit::visit_type_impl_trait(self, t);
        }
    }

    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let n = m.method.to_string();
        // (a..b).rev() outside native support
        if n == "rev" && m.args.is_empty() {
            if let syn::Expr::Range(r) = strip_paren(&m.receiver) {
                if let (Some(s), Some(e)) = (&r.start, &r.end) {
                    self.rule("range-rev-to-iterator");
                    let (ms, me) = rng(m.span());
                    let (ss, se) = rng(s.span());
                    let (es, ee) = rng(e.span());
                    self.ed.replace(ms, ss, "v_range_rev(");
                    self.visit_expr(s);
                    self.ed.replace(se, es, ", ");
                    self.visit_expr(e);
                    self.ed.replace(ee, me, ")");
                    return;
                }
            }
        }
        let renamed = match n.as_str() {
            "cloned" => Some("v_cloned"),
            "clone" => Some("v_clone"),
            "all" => Some("v_all"),
            "contains" => Some("v_contains"),
            "ok" => Some("v_ok"),
            "or" => Some("v_or"),
            "ilog2" => Some("v_ilog2"),
            "sum" => Some("v_sum"),
            "collect" => Some("v_collect"),
            "to_string" => Some("v_to_string"),
            _ => None,
        };
        if (n == "for_each" || n == "map_inplace") && m.args.len() == 1 {
            if let syn::Expr::Closure(c) = &m.args[0] {
                // EXPR.for_each(|PAT| BODY)  ->  for PAT in EXPR { BODY }
                // EXPR.map_inplace(|PAT| BODY)  ->  for PAT in EXPR.iter_mut() { BODY }
                let over = if n == "for_each" { "" } else { ".iter_mut()" };
                self.rule(if n == "for_each" { "for_each-to-loop" } else { "map_inplace-to-loop" });
                let k = self.nloop;
                self.nloop += 1;
                let l = self.loop_spec(k);
                let it = if l.iter.is_empty() { format!("it{k}") } else { l.iter.clone() };
                let (ms, me) = rng(m.span());
                let (rs, re) = rng(m.receiver.span());
                let (bs, be) = rng(c.body.span());
                if ms != rs {
                    self.lost.push("for_each receiver".into());
                }
                self.ed.before(ms, format!("{{ let mut {it} = "));
                self.visit_expr(&m.receiver);
                let inv = Self::inv_text(
                    &l,
                    &format!("  0 <= {it}.pos() <= {it}.all().len(), {it}.all() == vall_{it},\n"),
                    &format!("{it}.all().len() - {it}.pos()"),
                );
                let pat = c.inputs.first().map(|p| self.text(p.span()).to_string()).unwrap_or_default();
                self.ed.replace(
                    re,
                    bs,
                    format!(
                        "{over};\n let ghost vall_{it} = {it}.all();\n{}\nwhile {it}.has_next(){inv} {{ let {pat} = {it}.take_next();\n{}",
                        l.before, l.begin
                    ),
                );
                self.visit_expr(&c.body);
                self.ed.replace(be, me, format!("\n{} }}\n{} }}", l.end, l.after));
                return;
            }
        }
        self.visit_expr(&m.receiver);
        if let Some(r) = renamed {
            self.rule("method-renamed-to-stub");
            let (a, b) = rng(m.method.span());
            self.ed.replace(a, b, r);
        }
        if let Some(t) = &m.turbofish {
            self.visit_angle_bracketed_generic_arguments(t);
        }
        for a in &m.args {
            self.visit_expr(a);
        }
        self.hook_call(&n);
    }

    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        visit::visit_expr_call(self, c);
        if let syn::Expr::Path(p) = &*c.func {
            let n = p.path.segments.last().unwrap().ident.to_string();
            self.hook_call(&n);
        }
    }

    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        let k = self.nreturn;
        self.nreturn += 1;
        for i in 0..self.spec.hooks.len() {
            let h = &self.spec.hooks[i];
            if h.kind == "return" && h.name.parse::<usize>().ok() == Some(k) {
                if let Some((a, _, _)) = self.cur_stmt.last().copied() {
                    self.ed.before(a, format!("{}\n", h.text));
                    self.hooks_done[i] = true;
                }
            }
        }
        visit::visit_expr_return(self, r);
    }

    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        self.do_macro(&m.mac, true);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        self.do_macro(&m.mac, false);
    }
}

impl<'a> FnVisitor<'a> {
    fn do_macro(&mut self, m: &syn::Macro, stmt: bool) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let (a, b) = rng(m.span());
        match n.as_str() {
            "unreachable" | "panic" => {
                self.rule("panic-to-unreachable-obligation");
                self.ed.replace(a, b, if stmt { "v_unreachable::<()>()" } else { "v_unreachable()" });
            }
            "debug_assert" => {
                self.rule("debug_assert-to-obligation");
                let t = m.tokens.to_string();
                self.ed.replace(a, b, format!("v_debug_assert({t})"));
            }
            "const_assert" | "const_assert_eq" => {
                self.rule("compile-time-assertion-dropped");
                self.ed.replace(a, b, "()");
            }
            "format" => {
                self.rule("format-to-call");
                let parser = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                use syn::parse::Parser;
                let list: Vec<syn::Expr> = parser.parse2(m.tokens.clone()).map(|l| l.into_iter().collect()).unwrap_or_default();
                let lit = match list.first() {
                    Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) if list.len() == 2 => s.value(),
                    _ => String::new(),
                };
                let hole = [("{}", "v_fmt_d"), ("{:e}", "v_fmt_e"), ("{:E}", "v_fmt_u")].into_iter().find(|(h, _)| lit.contains(h) && lit.matches(['{', '}']).count() == 2);
                match hole {
                    Some((h, f)) => {
                        let (pre, suf) = lit.split_once(h).unwrap();
                        let x = self.text(list[1].span());
                        let t = if pre.is_empty() && suf.is_empty() { format!("{f}(&{x})") } else { format!("v_wrap({pre:?}, {f}(&{x}), {suf:?})") };
                        self.ed.replace(a, b, t);
                    }
                    None => self.lost.push("format! macro".into()),
                }
            }
            "s" => {
                self.rule("slice-macro-to-tuple");
                let parser = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                use syn::parse::Parser;
                let t = m.tokens.clone();
                match parser.parse2(t) {
                    Ok(list) => {
                        let mut parts = vec![];
                        for e in list {
                            if let syn::Expr::Range(r) = &e {
                                if let (Some(x), Some(y), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                                    parts.push(format!("({}, {})", self.text(x.span()), self.text(y.span())));
                                    continue;
                                }
                            }
                            self.lost.push("slice argument".into());
                        }
                        let t = if parts.len() == 1 { parts.pop().unwrap() } else { format!("({})", parts.join(", ")) };
                        self.ed.replace(a, b, t);
                    }
                    Err(_) => self.lost.push("s! macro".into()),
                }
            }
            _ => self.lost.push(format!("macro {n}!")),
        }
    }
}

/// find `pat` in `text`, ignoring white space; returns byte ranges
pub fn find_ws(text: &str, pat: &str) -> Vec<(usize, usize)> {
    let p: Vec<char> = pat.chars().filter(|c| !c.is_whitespace()).collect();
    let t: Vec<(usize, char)> = text.char_indices().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        if p.is_empty() || t[i].1 != p[0] {
            i += 1;
            continue;
        }
        let (mut j, mut k) = (i, 0);
        while j < t.len() && k < p.len() {
            if t[j].1.is_whitespace() {
                j += 1;
                continue;
            }
            if t[j].1 != p[k] {
                break;
            }
            j += 1;
            k += 1;
        }
        if k == p.len() {
            let end = if j < t.len() { t[j].0 } else { text.len() };
            // do not swallow trailing white space
            let last = t[j - 1].0 + t[j - 1].1.len_utf8();
            out.push((t[i].0, last.min(end)));
            i = j;
        } else {
            i += 1;
        }
    }
    out
}
