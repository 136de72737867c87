//! Development tool: rewrites the sources of a copy of ibig so that each of many small faults can be
//! switched on at run time (`crate::mutant::on(k)`).  Used to find what the generators never reach.
//! mutate <src dir> <first id file list> : prints one line per fault.
use quote::{quote, ToTokens};
use std::collections::HashSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    next: usize,
    file: String,
    func: Vec<String>,
    skip: HashSet<usize>,
    list: Vec<String>,
}

impl M {
    /// A new fault; None if it is known not to compile.
    fn id(&mut self, line: usize, what: String) -> Option<usize> {
        let k = self.next;
        self.next += 1;
        if self.skip.contains(&k) {
            return None;
        }
        self.list.push(format!("{} {}:{} {} {}", k, self.file, line, self.func.join("::"), what.replace('\n', " ")));
        Some(k)
    }
}

fn line(t: &impl ToTokens) -> usize {
    t.to_token_stream().into_iter().next().map_or(0, |x| x.span().start().line)
}

fn swaps(op: &BinOp) -> Vec<BinOp> {
    macro_rules! ops { ($($t:tt)*) => { vec![$(parse_quote!($t)),*] } }
    match op {
        BinOp::Lt(_) => ops!(<= >=),
        BinOp::Le(_) => ops!(< >),
        BinOp::Gt(_) => ops!(>= <=),
        BinOp::Ge(_) => ops!(> <),
        BinOp::Eq(_) => ops!(!=),
        BinOp::Ne(_) => ops!(==),
        BinOp::Add(_) => ops!(- |),
        BinOp::Sub(_) => ops!(+),
        BinOp::Mul(_) => ops!(+),
        BinOp::Div(_) => ops!(* %),
        BinOp::Rem(_) => ops!(/),
        BinOp::Shl(_) => ops!(>>),
        BinOp::Shr(_) => ops!(<<),
        BinOp::BitAnd(_) => ops!(| ^),
        BinOp::BitOr(_) => ops!(& ^),
        BinOp::BitXor(_) => ops!(| &),
        BinOp::And(_) => ops!(||),
        BinOp::Or(_) => ops!(&&),
        BinOp::AddAssign(_) => ops!(-=),
        BinOp::SubAssign(_) => ops!(+=),
        BinOp::MulAssign(_) => ops!(+=),
        BinOp::DivAssign(_) => ops!(*=),
        BinOp::ShlAssign(_) => ops!(>>=),
        BinOp::ShrAssign(_) => ops!(<<=),
        BinOp::BitAndAssign(_) => ops!(|= ^=),
        BinOp::BitOrAssign(_) => ops!(&= ^=),
        BinOp::BitXorAssign(_) => ops!(|= &=),
        _ => vec![],
    }
}

impl VisitMut for M {
    fn visit_item_mut(&mut self, i: &mut Item) {
        match i {
            Item::Const(_) | Item::Static(_) | Item::Macro(_) => {}
            Item::Mod(m) => {
                if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) {
                    return;
                }
                visit_mut::visit_item_mut(self, i)
            }
            Item::Impl(m) => {
                let what = format!(
                    "{}{}",
                    m.trait_.as_ref().map_or(String::new(), |t| format!("{} for ", t.1.to_token_stream())),
                    m.self_ty.to_token_stream()
                )
                .replace(' ', "");
                self.func.push(what);
                visit_mut::visit_item_mut(self, i);
                self.func.pop();
            }
            _ => visit_mut::visit_item_mut(self, i),
        }
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        if f.sig.constness.is_some() || f.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) {
            return;
        }
        self.func.push(f.sig.ident.to_string());
        self.visit_block_mut(&mut f.block);
        self.func.pop();
    }
    fn visit_impl_item_mut(&mut self, i: &mut ImplItem) {
        if let ImplItem::Fn(f) = i {
            if f.sig.constness.is_some() {
                return;
            }
            self.func.push(f.sig.ident.to_string());
            self.visit_block_mut(&mut f.block);
            self.func.pop();
        }
    }
    fn visit_trait_item_mut(&mut self, i: &mut TraitItem) {
        if let TraitItem::Fn(f) = i {
            if let Some(b) = &mut f.default {
                self.func.push(f.sig.ident.to_string());
                self.visit_block_mut(b);
                self.func.pop();
            }
        }
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
    fn visit_generic_argument_mut(&mut self, _: &mut GenericArgument) {}

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        let pristine = s.clone();
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Expr(e, Some(_)) = &pristine {
            let deletable = match e {
                Expr::Call(_) | Expr::MethodCall(_) | Expr::Assign(_) => true,
                Expr::Binary(b) => matches!(
                    b.op,
                    BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
                        | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitXorAssign(_) | BinOp::MulAssign(_)
                ),
                _ => false,
            };
            if deletable {
                if let Some(k) = self.id(line(&pristine), format!("delete: {}", pristine.to_token_stream())) {
                    let t = s.clone();
                    *s = parse_quote!(if !crate::mutant::on(#k) { #t });
                }
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let pristine = e.clone();
        let ln = line(&pristine);
        match e {
            Expr::Repeat(r) => self.visit_expr_mut(&mut r.expr),
            Expr::Const(_) => {}
            Expr::Let(l) => self.visit_expr_mut(&mut l.expr),
            _ => visit_mut::visit_expr_mut(self, e),
        }
        match &pristine {
            Expr::Binary(b) => {
                let mut out: Expr = e.clone();
                for op in swaps(&b.op) {
                    let (l, r) = (&b.left, &b.right);
                    if let Some(k) = self.id(
                        ln,
                        format!("{} -> {}", pristine.to_token_stream(), op.to_token_stream()),
                    ) {
                        out = parse_quote!((if crate::mutant::on(#k) { #l #op #r } else { #out }));
                    }
                }
                *e = out;
            }
            Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) => {
                if let Ok(v) = n.base10_parse::<u128>() {
                    let mut out: Expr = e.clone();
                    for w in [Some(v + 1), v.checked_sub(1)].into_iter().flatten() {
                        let t: Expr = parse_str(&format!("{}{}", w, n.suffix())).unwrap();
                        if let Some(k) = self.id(ln, format!("{} -> {}", n, w)) {
                            out = parse_quote!((if crate::mutant::on(#k) { #t } else { #out }));
                        }
                    }
                    *e = out;
                }
            }
            Expr::Lit(ExprLit { lit: Lit::Bool(v), .. }) => {
                if let Some(k) = self.id(ln, format!("{} -> {}", v.value, !v.value)) {
                    *e = parse_quote!((crate::mutant::on(#k) ^ #v));
                }
            }
            Expr::Unary(u) => match u.op {
                UnOp::Not(_) | UnOp::Neg(_) => {
                    let x = &u.expr;
                    if let Some(k) = self.id(ln, format!("{} -> {}", pristine.to_token_stream(), x.to_token_stream())) {
                        let out = e.clone();
                        *e = parse_quote!((if crate::mutant::on(#k) { #x } else { #out }));
                    }
                }
                _ => {}
            },
            Expr::If(i) if !has_let(&i.cond) => {
                let s = i.cond.to_token_stream().to_string();
                if let Some(k) = self.id(ln, format!("if {} -> true", s)) {
                    if let Expr::If(x) = e {
                        let c = x.cond.clone();
                        *x.cond = parse_quote!((crate::mutant::on(#k) || #c));
                    }
                }
                if let Some(k) = self.id(ln, format!("if {} -> false", s)) {
                    if let Expr::If(x) = e {
                        let c = x.cond.clone();
                        *x.cond = parse_quote!((!crate::mutant::on(#k) && #c));
                    }
                }
            }
            Expr::Path(p) => {
                let s = p.to_token_stream().to_string();
                let other = match s.as_str() {
                    "Positive" => "Negative",
                    "Negative" => "Positive",
                    _ => return,
                };
                let o: Expr = parse_str(other).unwrap();
                if let Some(k) = self.id(ln, format!("{} -> {}", s, other)) {
                    *e = parse_quote!((if crate::mutant::on(#k) { #o } else { #p }));
                }
            }
            Expr::MethodCall(c) if c.args.len() == 1 => {
                let (from, r) = (c.method.to_string(), &c.receiver);
                let a = &c.args[0];
                let alt: Vec<Expr> = match from.as_str() {
                    "min" => vec![parse_quote!(#r.max(#a))],
                    "max" => vec![parse_quote!(#r.min(#a))],
                    "wrapping_add" => vec![parse_quote!(#r.wrapping_sub(#a))],
                    "wrapping_sub" => vec![parse_quote!(#r.wrapping_add(#a))],
                    "overflowing_add" => vec![parse_quote!(#r.overflowing_sub(#a))],
                    "overflowing_sub" => vec![parse_quote!(#r.overflowing_add(#a))],
                    _ => return,
                };
                for x in alt {
                    if let Some(k) = self.id(ln, format!("{} -> {}", pristine.to_token_stream(), x.to_token_stream())) {
                        let out = e.clone();
                        *e = parse_quote!((if crate::mutant::on(#k) { #x } else { #out }));
                    }
                }
            }
            _ => {}
        }
    }
}

fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}

fn files(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut l: Vec<_> = std::fs::read_dir(d).unwrap().map(|x| x.unwrap().path()).collect();
    l.sort();
    for p in l {
        if p.is_dir() {
            files(&p, out)
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, dst) = (std::path::Path::new(&a[1]), std::path::Path::new(&a[2]));
    let skip = std::fs::read_to_string(&a[3]).unwrap_or_default();
    let mut m = M {
        next: 1,
        file: String::new(),
        func: vec![],
        skip: skip.split_whitespace().map(|x| x.parse().unwrap()).collect(),
        list: vec![],
    };
    let mut l = vec![];
    files(src, &mut l);
    for p in l {
        let rel = p.strip_prefix(src).unwrap().to_path_buf();
        m.file = rel.display().to_string();
        let text = std::fs::read_to_string(&p).unwrap();
        let mut f = parse_file(&text).unwrap();
        m.visit_file_mut(&mut f);
        let mut t = quote!(#f).to_string();
        if m.file == "lib.rs" {
            t += "\n#[doc(hidden)] pub mod mutant { pub static ID: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\
                  #[inline(always)] pub fn on(k: usize) -> bool { ID.load(core::sync::atomic::Ordering::Relaxed) == k } }\n";
        }
        std::fs::create_dir_all(dst.join(&rel).parent().unwrap()).unwrap();
        std::fs::write(dst.join(&rel), t).unwrap();
    }
    println!("{}", m.list.join("\n"));
}
