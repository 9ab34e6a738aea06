//! mutagen SRC_DIR: rewrites every .rs file below SRC_DIR so that the mutant numbered by the environment
//! variable MUTANT is active, and prints the list of mutants. Used on scratch copies only (tools/mutants.py).
use proc_macro2::Span;
use quote::{quote, ToTokens};
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    n: u32,
    file: String,
    func: Vec<String>,
    list: Vec<String>,
    on: bool,
}
impl M {
    fn id(&mut self, sp: Span, what: String) -> u32 {
        self.n += 1;
        let w: String = what.split_whitespace().collect::<Vec<_>>().join(" ");
        self.list.push(format!("{}\t{}:{}\t{}\t{}", self.n, self.file, sp.start().line, self.func.join("::"), w));
        self.n
    }
}
fn skip(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| { let s = a.to_token_stream().to_string(); s.contains("cfg (test)") || s.contains("cfg(test)") })
}
impl VisitMut for M {
    fn visit_item_mod_mut(&mut self, i: &mut ItemMod) {
        if !skip(&i.attrs) { visit_mut::visit_item_mod_mut(self, i) }
    }
    fn visit_item_macro_mut(&mut self, _: &mut ItemMacro) {}
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
    fn visit_impl_item_const_mut(&mut self, _: &mut ImplItemConst) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) {
        if i.sig.constness.is_some() || skip(&i.attrs) { return }
        let on = std::mem::replace(&mut self.on, true);
        self.func.push(i.sig.ident.to_string());
        visit_mut::visit_item_fn_mut(self, i);
        self.func.pop();
        self.on = on;
    }
    fn visit_impl_item_fn_mut(&mut self, i: &mut ImplItemFn) {
        if i.sig.constness.is_some() { return }
        let on = std::mem::replace(&mut self.on, true);
        self.func.push(i.sig.ident.to_string());
        visit_mut::visit_impl_item_fn_mut(self, i);
        self.func.pop();
        self.on = on;
    }
    fn visit_trait_item_fn_mut(&mut self, i: &mut TraitItemFn) {
        let on = std::mem::replace(&mut self.on, true);
        self.func.push(i.sig.ident.to_string());
        visit_mut::visit_trait_item_fn_mut(self, i);
        self.func.pop();
        self.on = on;
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        self.func.push(i.self_ty.to_token_stream().to_string());
        visit_mut::visit_item_impl_mut(self, i);
        self.func.pop();
    }
    fn visit_expr_repeat_mut(&mut self, i: &mut ExprRepeat) { self.visit_expr_mut(&mut i.expr) }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        if !self.on { return }
        for s in &mut b.stmts {
            let Stmt::Expr(e, Some(_)) = s else { continue };
            if matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) | Expr::Macro(_)) { continue }
            let k = self.id(e.span(), format!("delete statement: {}", quote!(#e)));
            let e2 = e.clone();
            *e = parse_quote!(if !crate::__m(#k) { #e2; });
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let sp = e.span();
        let orig = e.to_token_stream().to_string();
        match e {
            Expr::Lit(l) if self.on => {
                if let Lit::Int(i) = &l.lit {
                    let v: u128 = i.base10_parse().unwrap_or(0);
                    let suf = i.suffix();
                    let l0 = l.clone();
                    let up = Lit::Int(LitInt::new(&format!("{}{suf}", v + 1), sp));
                    let k = self.id(sp, format!("{v} -> {}", v + 1));
                    if v > 0 {
                        let dn = Lit::Int(LitInt::new(&format!("{}{suf}", v - 1), sp));
                        let k2 = self.id(sp, format!("{v} -> {}", v - 1));
                        *e = parse_quote!((if crate::__m(#k) { #up } else if crate::__m(#k2) { #dn } else { #l0 }));
                    } else {
                        *e = parse_quote!((if crate::__m(#k) { #up } else { #l0 }));
                    }
                } else if let Lit::Bool(b) = &l.lit {
                    let k = self.id(sp, format!("{} -> {}", b.value, !b.value));
                    let l0 = l.clone();
                    *e = parse_quote!((crate::__m(#k) ^ #l0));
                }
                return;
            }
            Expr::Macro(_) => return,
            // left side of an assignment
            Expr::Assign(a) => { self.visit_expr_mut(&mut a.right); return }
            Expr::Let(l) => { self.visit_expr_mut(&mut l.expr); return }
            _ => (),
        }
        let has_let = orig.contains("let ");
        visit_mut::visit_expr_mut(self, e);
        if !self.on { return }
        match e {
            Expr::Binary(b) => {
                use BinOp::*;
                let alts: &[&str] = match b.op {
                    Add(_) => &["-"], Sub(_) => &["+"], Mul(_) => &["+"], Div(_) => &["*"], Rem(_) => &["/"],
                    And(_) => &["||"], Or(_) => &["&&"], BitAnd(_) => &["|"], BitOr(_) => &["&", "^"], BitXor(_) => &["|"],
                    Shl(_) => &[">>"], Shr(_) => &["<<"],
                    Eq(_) => &["!="], Ne(_) => &["=="],
                    Lt(_) => &["<=", ">"], Le(_) => &["<", ">="], Gt(_) => &[">=", "<"], Ge(_) => &[">", "<="],
                    _ => &[],
                };
                let alts = if orig.contains("ReadFormat") && matches!(b.op, Sub(_)) { &["|"] } else { alts };
                if has_let || alts.is_empty() { return }
                let (l, r, op) = (b.left.clone(), b.right.clone(), b.op);
                let mut out: Expr = parse_quote!((#l) #op (#r));
                for a in alts {
                    let ob: BinOp = parse_str(a).unwrap();
                    let k = self.id(sp, format!("{} to {a}: {orig}", op.to_token_stream()));
                    out = parse_quote!((if crate::__m(#k) { (#l) #ob (#r) } else { #out }));
                }
                *e = out;
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => {
                let i = u.expr.clone();
                let k = self.id(sp, format!("drop negation: {orig}"));
                *e = parse_quote!((if crate::__m(#k) { #i } else { !(#i) }));
            }
            Expr::If(i) if !has_let || !i.cond.to_token_stream().to_string().contains("let ") => {
                let c = i.cond.clone();
                let (a, b) = (self.id(sp, format!("condition true: {}", orig.split('{').next().unwrap())), self.id(sp, format!("condition false: {}", orig.split('{').next().unwrap())));
                i.cond = parse_quote!((crate::__m(#a) || !crate::__m(#b) && (#c)));
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.path.is_ident("Some") && !orig.contains('?') {
                        let k = self.id(sp, format!("None for {orig}"));
                        let c = c.clone();
                        *e = parse_quote!((if crate::__m(#k) { None } else { #c }));
                    }
                }
            }
            Expr::Match(m) => {
                let n = m.arms.len();
                if n < 2 || !matches!(m.arms[n - 1].pat, Pat::Wild(_) | Pat::Ident(_)) || m.arms[n - 1].guard.is_some() { return }
                if m.arms[n - 1].pat.to_token_stream().to_string() == "None" { m.arms[n - 1].pat = parse_quote!(_) }
                for a in &mut m.arms[..n - 1] {
                    let k = self.id(a.span(), format!("drop arm: {}", a.pat.to_token_stream()));
                    let g: Expr = match &a.guard { Some((_, g)) => parse_quote!(!crate::__m(#k) && (#g)), None => parse_quote!(!crate::__m(#k)) };
                    a.guard = Some((Default::default(), Box::new(g)));
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let alt = match name.as_str() {
                    "min" => "max", "max" => "min", "saturating_sub" => "wrapping_sub", "wrapping_sub" => "saturating_sub",
                    "checked_mul" => "checked_add", "is_some" => "is_none", "is_none" => "is_some", "is_empty" => return,
                    "next" => "next_back", "next_back" => "next", "nth" => "nth_back", "nth_back" => "nth", 
                    "from" => "to", "to" => "from", "take" => "skip", "skip" => "take", "all" => "any", "any" => "all",
                    "swap_bytes" => "to_le", "old" => "new", "position" => "rposition",
                    _ => return,
                };
                if ["next", "take", "skip", "nth", "next_back", "nth_back", "from", "to", "old", "position"].contains(&name.as_str()) { return }
                let m0 = m.clone();
                let mut m1 = m.clone();
                m1.method = Ident::new(alt, m.method.span());
                let k = self.id(sp, format!("{name} -> {alt}: {orig}"));
                *e = parse_quote!((if crate::__m(#k) { #m1 } else { #m0 }));
            }
            _ => (),
        }
    }
}
fn main() {
    let root = std::env::args().nth(1).expect("directory");
    let mut files = vec![];
    let mut todo = vec![std::path::PathBuf::from(&root)];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() { todo.push(p) } else if p.extension().is_some_and(|x| x == "rs") { files.push(p) }
        }
    }
    files.sort();
    let mut m = M { n: 0, file: String::new(), func: vec![], list: vec![], on: false };
    for p in files {
        let rel = p.strip_prefix(&root).unwrap().display().to_string();
        if rel.contains("test") { continue }
        m.file = rel.clone();
        let mut f = parse_file(&std::fs::read_to_string(&p).unwrap()).unwrap();
        m.visit_file_mut(&mut f);
        let mut s = quote!(#f).to_string();
        if rel == "lib.rs" {
            s = format!("#![allow(arithmetic_overflow, unused, unused_parens, clippy::all)]\n{s}");
            s += "\n#[doc(hidden)] #[inline] pub fn __m(k: u32) -> bool { use std::sync::atomic::*; static N: AtomicU32 = AtomicU32::new(u32::MAX);
                let mut n = N.load(Ordering::Relaxed); if n == u32::MAX { n = std::env::var(\"MUTANT\").ok().and_then(|s| s.parse().ok()).unwrap_or(0); N.store(n, Ordering::Relaxed); } n == k }\n";
        }
        std::fs::write(&p, s).unwrap();
    }
    for l in m.list { println!("{l}") }
}
