//! mutate <src dir> <skip file> <list file>: rewrites the sources in place so that every mutant
//! lies dormant behind `crate::mutant(n)` and is woken by the environment variable MUTANT=n.
//! Mutants never change the number of lines; the skip file names those that do not compile.
use proc_macro2::Span;
use std::collections::HashSet;
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Edit { from: (usize, usize), to: (usize, usize), kind: &'static str, /* text before, text after */ pre: String, post: String }

struct V<'a> { src: &'a [Vec<char>], edits: Vec<Edit>, depth_const: usize }

impl V<'_> {
    fn text(&self, s: Span) -> String {
        let (a, b) = (s.start(), s.end());
        let mut o = String::new();
        for l in a.line..=b.line {
            let line = &self.src[l - 1];
            let f = if l == a.line { a.column } else { 0 };
            let t = if l == b.line { b.column } else { line.len() };
            o.extend(&line[f..t]);
            if l != b.line { o.push(' '); }
        }
        o
    }
    fn add(&mut self, s: Span, kind: &'static str, pre: &str, post: &str) {
        if pre.contains("//") || pre.replace("mutant(@)", "").contains('@') { return }
        let (a, b) = (s.start(), s.end());
        self.edits.push(Edit { from: (a.line, a.column), to: (b.line, b.column), kind, pre: pre.into(), post: post.into() });
    }
}

fn has_let(e: &syn::Expr) -> bool {
    struct L(bool);
    impl<'a> Visit<'a> for L { fn visit_expr_let(&mut self, _: &'a syn::ExprLet) { self.0 = true } fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {} fn visit_block(&mut self, _: &'a syn::Block) {} }
    let mut l = L(false); l.visit_expr(e); l.0
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| { let t = quote::quote!(#a).to_string(); t.contains("test") })
}

impl<'a> Visit<'a> for V<'_> {
    fn visit_item_const(&mut self, _: &'a syn::ItemConst) {}
    fn visit_item_static(&mut self, _: &'a syn::ItemStatic) {}
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) { if !is_test(&m.attrs) { visit::visit_item_mod(self, m) } }
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) { if !is_test(&f.attrs) && f.sig.constness.is_none() { visit::visit_item_fn(self, f) } }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) { if f.sig.constness.is_none() { visit::visit_impl_item_fn(self, f) } }
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        if let Some((_, p, _)) = &i.trait_ { let t = p.segments.last().unwrap().ident.to_string(); if t == "Debug" || t == "Display" { return } }
        visit::visit_item_impl(self, i)
    }
    fn visit_type(&mut self, _: &'a syn::Type) {}
    fn visit_pat(&mut self, _: &'a syn::Pat) {}
    fn visit_expr_repeat(&mut self, _: &'a syn::ExprRepeat) {}
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        if let syn::Stmt::Expr(e, Some(_)) = s {
            match e {
                syn::Expr::MethodCall(_) | syn::Expr::Call(_) | syn::Expr::Await(_) | syn::Expr::Try(_) | syn::Expr::Assign(_) | syn::Expr::Break(_) | syn::Expr::Continue(_) | syn::Expr::Return(_) =>
                    self.add(s.span(), "del", "if !crate::mutant(@) { ", " }"),
                syn::Expr::Binary(_) => self.add(s.span(), "del", "if !crate::mutant(@) { ", " }"),
                _ => {}
            }
        }
        visit::visit_stmt(self, s)
    }
    fn visit_expr_if(&mut self, i: &'a syn::ExprIf) {
        if !has_let(&i.cond) { self.add(i.cond.span(), "neg", "((", ") ^ crate::mutant(@))"); }
        else if let syn::Expr::Let(_) = &*i.cond { }
        visit::visit_expr_if(self, i)
    }
    fn visit_expr_while(&mut self, i: &'a syn::ExprWhile) {
        if !has_let(&i.cond) { self.add(i.cond.span(), "whilefalse", "((", ") && !crate::mutant(@))"); }
        visit::visit_expr_while(self, i)
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        if let Some((_, g)) = &a.guard {
            if !has_let(g) { self.add(g.span(), "guard", "((", ") ^ crate::mutant(@))"); }
        }
        visit::visit_arm(self, a)
    }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        use syn::BinOp::*;
        if !(has_let(&b.left) || has_let(&b.right)) {
            let alts: &[&str] = match b.op {
                Lt(_) => &["<="], Le(_) => &["<"], Gt(_) => &[">="], Ge(_) => &[">"],
                Eq(_) => &["!="], Ne(_) => &["=="],
                And(_) => &["L", "R"], Or(_) => &["L", "R"],
                Add(_) => &["-"], Sub(_) => &["+"], Mul(_) => &["/"], Div(_) => &["*"], Rem(_) => &["/"],
                _ => &[],
            };
            let (l, r) = (self.text(b.left.span()), self.text(b.right.span()));
            for a in alts {
                let e = match *a { "L" => format!("({l})"), "R" => format!("({r})"), op => format!("(({l}) {op} ({r}))") };
                let _ = &e;
                self.add(b.span(), if *a == "L" { "left" } else if *a == "R" { "right" } else { "op" }, &format!("(if crate::mutant(@) {{ {e} }} else {{ "), " })");
            }
        }
        visit::visit_expr_binary(self, b)
    }
    fn visit_expr_lit(&mut self, l: &'a syn::ExprLit) {
        match &l.lit {
            syn::Lit::Int(i) => {
                let t = i.to_string();
                self.add(l.span(), "int", &format!("(if crate::mutant(@) {{ {t} + 1 }} else {{ "), " })");
            }
            syn::Lit::Bool(b) => { let o = !b.value; self.add(l.span(), "bool", &format!("(if crate::mutant(@) {{ {o} }} else {{ "), " })"); }
            _ => {}
        }
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        let name = m.method.to_string();
        let alt = match name.as_str() { "min" => "max", "max" => "min", "is_some" => "is_none", "is_none" => "is_some", "is_ok" => "is_err", "is_err" => "is_ok", "pop_front" => "pop_back", "push_back" => "push_front", "saturating_sub" => "saturating_add", "first" => "last", "wrapping_add" => "wrapping_sub", _ => "" };
        if !alt.is_empty() {
            let recv = self.text(m.receiver.span());
            let args: Vec<_> = m.args.iter().map(|a| self.text(a.span())).collect();
            let e = format!("({recv}).{alt}({})", args.join(", "));
            self.add(m.span(), "method", &format!("(if crate::mutant(@) {{ {e} }} else {{ "), " })");
        }
        visit::visit_expr_method_call(self, m)
    }
    fn visit_expr_unary(&mut self, u: &'a syn::ExprUnary) {
        if let syn::UnOp::Not(_) = u.op {
            let e = self.text(u.expr.span());
            self.add(u.span(), "not", &format!("(if crate::mutant(@) {{ {e} }} else {{ "), " })");
        }
        visit::visit_expr_unary(self, u)
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (dir, skip, list) = (&a[1], &a[2], &a[3]);
    let skip: HashSet<u32> = std::fs::read_to_string(skip).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
    let mut files = vec![];
    fn walk(d: &std::path::Path, o: &mut Vec<std::path::PathBuf>) {
        let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect(); v.sort();
        for p in v { if p.is_dir() { if p.file_name().unwrap() != "tests" { walk(&p, o) } } else if p.extension().is_some_and(|e| e == "rs") { o.push(p) } }
    }
    walk(dir.as_ref(), &mut files);
    let mut n = 0u32;
    let mut out = String::new();
    for p in files {
        let s = std::fs::read_to_string(&p).unwrap();
        let f = syn::parse_file(&s).unwrap();
        let lines: Vec<Vec<char>> = s.lines().map(|l| l.chars().collect()).collect();
        let mut v = V { src: &lines, edits: vec![], depth_const: 0 };
        let _ = v.depth_const;
        v.visit_file(&f);
        // insertions: (line, col, order) -> text; at one place closers come before openers;
        // outer openers first, outer closers last
        let mut ins: Vec<((usize, usize), (u8, i64, i64), String)> = vec![];
        for (i, e) in v.edits.iter().enumerate() {
            n += 1;
            let orig = { let l: String = lines[e.from.0 - 1].iter().collect(); l.trim().to_string() };
            let sk = skip.contains(&n);
            if !sk {
                writeln!(out, "{n}\t{}\t{}:{}:{}\t{}\t{orig}", p.display(), e.from.0, e.to.0, e.from.1, e.kind).unwrap();
                let id = n.to_string();
                let end = (e.to.0 * 10000 + e.to.1) as i64;
                let start = (e.from.0 * 10000 + e.from.1) as i64;
                ins.push((e.from, (1, -end, i as i64), e.pre.replace('@', &id)));
                ins.push((e.to, (0, -start, -(i as i64)), e.post.replace('@', &id)));
            }
        }
        ins.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
        let mut res = String::new();
        let mut k = 0;
        for (li, l) in lines.iter().enumerate() {
            for c in 0..=l.len() {
                while k < ins.len() && ins[k].0 == (li + 1, c) { res.push_str(&ins[k].2); k += 1; }
                if c < l.len() { res.push(l[c]); }
            }
            res.push('\n');
        }
        if p.file_name().unwrap() == "lib.rs" && p.parent().unwrap().ends_with("src") {
            res.push_str("#[doc(hidden)] #[inline(always)] pub fn mutant(n: u32) -> bool { static M: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(u32::MAX); let mut m = M.load(std::sync::atomic::Ordering::Relaxed); if m == u32::MAX { m = std::env::var(\"MUTANT\").ok().and_then(|x| x.parse().ok()).unwrap_or(0); M.store(m, std::sync::atomic::Ordering::Relaxed); } m == n }\n");
        }
        std::fs::write(&p, res).unwrap();
    }
    std::fs::write(list, out).unwrap();
    println!("{n} mutants");
}
