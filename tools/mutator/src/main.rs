//! mutator DIR.. : rewrites the sources under each crate directory so that every mutation is compiled in and one is
//! switched on at run time by MUT=<number>. Prints "number file line kind text". SKIP=<file of numbers> leaves out
//! mutations. Only ever run on scratch copies.
use proc_macro2::Span;
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

struct F<'a> {
    src: &'a str,
    starts: Vec<usize>,
    edits: Vec<(usize, i32, String)>,      // insertions (position, order, text)
    cuts: Vec<(usize, usize)>,             // removed ranges
    n: &'a mut u32,
    skip: &'a HashSet<u32>,
    file: String,
    infn: u32,
    out: Vec<String>,
    ord: i32,
}
const M: &str = "crate::mut_on";
impl F<'_> {
    fn at(&self, lc: proc_macro2::LineColumn) -> usize {
        let s = self.starts[lc.line - 1];
        let line = &self.src[s..];
        s + line.char_indices().nth(lc.column).map(|x| x.0).unwrap_or(line.len())
    }
    fn rng(&self, s: Span) -> (usize, usize) {
        (self.at(s.start()), self.at(s.end()))
    }
    fn id(&mut self, s: Span, kind: &str) -> Option<u32> {
        *self.n += 1;
        let k = *self.n;
        if self.skip.contains(&k) {
            return None;
        }
        let (a, b) = self.rng(s);
        let t: String = self.src[a..b].split_whitespace().collect::<Vec<_>>().join(" ").chars().take(110).collect();
        self.out.push(format!("{k}\t{}\t{}\t{kind}\t{t}", self.file, s.start().line));
        Some(k)
    }
    // opening text goes after earlier openings at the same place; closing text before earlier closings
    fn open(&mut self, p: usize, t: String) {
        self.ord += 1;
        let o = self.ord;
        self.edits.push((p, 1_000_000 + o, t));
    }
    fn close(&mut self, p: usize, t: String) {
        self.ord += 1;
        let o = self.ord;
        self.edits.push((p, -o, t));
    }
    fn has_let(e: &Expr) -> bool {
        struct L(bool);
        impl<'a> Visit<'a> for L {
            fn visit_expr_let(&mut self, _: &'a ExprLet) {
                self.0 = true
            }
        }
        let mut l = L(false);
        l.visit_expr(e);
        l.0
    }
    fn macro_args(&mut self, m: &Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if !["vec", "ensure", "ensure_eq", "assert"].contains(&name.as_str()) {
            return;
        }
        if let Ok(p) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            for (i, e) in p.iter().enumerate() {
                if name != "vec" && i > 0 {
                    break;
                }
                if name == "ensure" {
                    self.cond(e);
                }
                let x: Expr = e.clone();
                self.visit_expr(&x);
            }
        }
    }
    fn cond(&mut self, c: &Expr) {
        if Self::has_let(c) {
            return;
        }
        let (a, b) = self.rng(c.span());
        let t = self.id(c.span(), "cond-true");
        let f = self.id(c.span(), "cond-false");
        let (o, cl) = match (t, f) {
            (Some(t), Some(f)) => (format!("({M}({t}) || !{M}({f}) && ("), "))".to_string()),
            (Some(t), None) => (format!("({M}({t}) || ("), "))".to_string()),
            (None, Some(f)) => (format!("(!{M}({f}) && ("), "))".to_string()),
            _ => return,
        };
        self.open(a, o);
        self.close(b, cl);
    }
}
impl<'a> Visit<'a> for F<'_> {
    fn visit_item_mod(&mut self, i: &'a ItemMod) {
        if i.ident == "tests" || i.attrs.iter().any(|a| a.path().is_ident("cfg")) {
            return;
        }
        visit::visit_item_mod(self, i)
    }
    fn visit_item_const(&mut self, _: &'a ItemConst) {}
    fn visit_item_static(&mut self, _: &'a ItemStatic) {}
    fn visit_impl_item_const(&mut self, _: &'a ImplItemConst) {}
    fn visit_attribute(&mut self, _: &'a Attribute) {}
    fn visit_type(&mut self, _: &'a Type) {}
    fn visit_pat(&mut self, _: &'a Pat) {}
    fn visit_item_fn(&mut self, i: &'a ItemFn) {
        if i.sig.constness.is_some() || i.attrs.iter().any(|a| a.path().is_ident("cfg") || a.path().is_ident("test")) {
            return;
        }
        self.infn += 1;
        visit::visit_item_fn(self, i);
        self.infn -= 1;
    }
    fn visit_impl_item_fn(&mut self, i: &'a ImplItemFn) {
        if i.sig.constness.is_some() || ["fmt", "key", "prefix", "parse_elems"].iter().any(|x| i.sig.ident == x) {
            return;
        }
        self.infn += 1;
        visit::visit_impl_item_fn(self, i);
        self.infn -= 1;
    }
    fn visit_expr_repeat(&mut self, i: &'a ExprRepeat) {
        self.visit_expr(&i.expr)
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        self.macro_args(m)
    }
    fn visit_stmt(&mut self, s: &'a Stmt) {
        let del = match s {
            Stmt::Expr(e, Some(_)) => matches!(e, Expr::MethodCall(_) | Expr::Call(_) | Expr::Try(_) | Expr::Assign(_)) || matches!(e, Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_))),
            Stmt::Macro(_) => false,
            _ => false,
        };
        if del && self.infn > 0 {
            if let Some(k) = self.id(s.span(), "delete") {
                let (a, b) = self.rng(s.span());
                self.open(a, format!("if !{M}({k}) {{ "));
                self.close(b, " }".into());
            }
        }
        visit::visit_stmt(self, s)
    }
    fn visit_expr_if(&mut self, i: &'a ExprIf) {
        if self.infn > 0 {
            self.cond(&i.cond);
        }
        visit::visit_expr_if(self, i)
    }
    fn visit_expr_unary(&mut self, i: &'a ExprUnary) {
        visit::visit_expr_unary(self, i)
    }
    fn visit_expr_binary(&mut self, i: &'a ExprBinary) {
        let (a, _) = self.rng(i.left.span());
        let (o0, o1) = self.rng(i.op.span());
        let (_, b) = self.rng(i.right.span());
        let cmp = match i.op {
            BinOp::Lt(_) => Some(("<", "<=")),
            BinOp::Le(_) => Some(("<=", "<")),
            BinOp::Gt(_) => Some((">", ">=")),
            BinOp::Ge(_) => Some((">=", ">")),
            BinOp::Eq(_) => Some(("==", "!=")),
            BinOp::Ne(_) => Some(("!=", "==")),
            _ => None,
        };
        let ar = match i.op {
            BinOp::Add(_) => Some(("+", "-")),
            BinOp::Sub(_) => Some(("-", "+")),
            BinOp::Mul(_) => Some(("*", "/")),
            BinOp::Div(_) => Some(("/", "*")),
            BinOp::Rem(_) => Some(("%", "/")),
            _ => None,
        };
        if self.infn > 0 {
            if let Some((x, y)) = cmp {
                if let Some(k) = self.id(i.span(), &format!("{x} to {y}")) {
                    self.open(a, "(match (&(".into());
                    self.cuts.push((o0, o1));
                    self.close(o0, "), &(".into());
                    self.close(b, format!(")) {{ (l, r) => if {M}({k}) {{ l {y} r }} else {{ l {x} r }} }})"));
                }
            } else if let Some((x, y)) = ar {
                if let Some(k) = self.id(i.span(), &format!("{x} to {y}")) {
                    self.open(a, "(match ((".into());
                    self.cuts.push((o0, o1));
                    self.close(o0, "), (".into());
                    self.close(b, format!(")) {{ (l, r) => if {M}({k}) {{ l {y} r }} else {{ l {x} r }} }})"));
                }
            } else if matches!(i.op, BinOp::And(_) | BinOp::Or(_)) && !Self::has_let(&Expr::Binary(i.clone())) {
                let and = matches!(i.op, BinOp::And(_));
                if let Some(k) = self.id(i.span(), if and { "&& to ||" } else { "|| to &&" }) {
                    self.open(a, "(match (".into());
                    self.cuts.push((o0, o1));
                    self.close(o0, format!(") {{ l => if l {} {M}({k}) {{ l }} else {{ (", if and { "==" } else { "!=" }));
                    self.close(b, ") } })".into());
                }
            }
        }
        visit::visit_expr_binary(self, i)
    }
    fn visit_expr_method_call(&mut self, i: &'a ExprMethodCall) {
        let m = i.method.to_string();
        let (a, b) = self.rng(i.span());
        let (m0, m1) = self.rng(i.method.span());
        if self.infn > 0 {
            if ["is_some", "is_none", "is_zero", "is_empty", "contains", "any", "all", "has", "is_native_token"].contains(&m.as_str()) {
                if let Some(k) = self.id(i.span(), &format!("negate {m}")) {
                    self.open(a, format!("({M}({k}) != ("));
                    self.close(b, "))".into());
                }
            }
            let other = match m.as_str() {
                "min" => "max",
                "max" => "min",
                "checked_add" => "checked_sub",
                "checked_sub" => "checked_add",
                "saturating_sub" => "saturating_add",
                "checked_mul" => "checked_div",
                "to_uint_floor" => "to_uint_ceil",
                "to_uint_ceil" => "to_uint_floor",
                "checked_mul_floor" => "checked_mul_ceil",
                "checked_mul_ceil" => "checked_mul_floor",
                "mul_floor" => "mul_ceil",
                "mul_ceil" => "mul_floor",
                "checked_mul_uint128" => "",
                _ => "",
            };
            if !other.is_empty() && i.args.len() <= 1 && i.turbofish.is_none() {
                if let Some(k) = self.id(i.span(), &format!("{m} to {other}")) {
                    let (r0, r1) = self.rng(i.receiver.span());
                    // recv . method ( args )  =>  (match ((recv), (args)) { (l, r) => if on { l.other(r) } else { l.method(r) } })
                    self.open(r0, "(match ((".into());
                    let (p0, _) = self.rng(i.paren_token.span.open());
                    self.cuts.push((r1, m0));
                    self.cuts.push((m0, m1));
                    if i.args.is_empty() {
                        self.cuts.push((p0, b));
                        self.close(r1, format!("),) {{ (l,) => if {M}({k}) {{ l.{other}() }} else {{ l.{m}() }} }})"));
                    } else {
                        self.cuts.push((p0, p0 + 1));
                        self.close(r1, "), (".into());
                        let (c0, c1) = self.rng(i.paren_token.span.close());
                        let last = self.rng(i.args.last().unwrap().span()).1;
                        self.cuts.push((last, c1));
                        let _ = c0;
                        self.close(c1, format!(")) {{ (l, r) => if {M}({k}) {{ l.{other}(r) }} else {{ l.{m}(r) }} }})"));
                    }
                }
            }
        }
        visit::visit_expr_method_call(self, i)
    }
    fn visit_expr_lit(&mut self, i: &'a ExprLit) {
        if self.infn == 0 {
            return;
        }
        if let Lit::Int(n) = &i.lit {
            let v: u128 = n.base10_parse().unwrap_or(0);
            let o = if v == 1 { 0 } else { v + 1 };
            if let Some(k) = self.id(i.span(), &format!("{v} to {o}")) {
                let (a, b) = self.rng(i.span());
                let sfx = n.suffix().to_string();
                self.open(a, format!("(if {M}({k}) {{ {o}{sfx} }} else {{ "));
                self.close(b, " })".into());
            }
        }
        if let Lit::Bool(x) = &i.lit {
            if let Some(k) = self.id(i.span(), &format!("not {}", x.value)) {
                let (a, b) = self.rng(i.span());
                self.open(a, format!("({M}({k}) != "));
                self.close(b, ")".into());
            }
        }
    }
}
fn walk(d: &Path, v: &mut Vec<PathBuf>) {
    let mut l: Vec<_> = std::fs::read_dir(d).unwrap().map(|x| x.unwrap().path()).collect();
    l.sort();
    for p in l {
        if p.is_dir() {
            walk(&p, v)
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            v.push(p)
        }
    }
}
const ON: &str = r#"
#[doc(hidden)]
pub fn mut_on(k: u32) -> bool {
    use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};
    static CUR: AtomicU32 = AtomicU32::new(u32::MAX);
    static SEEN: [AtomicU64; 512] = [const { AtomicU64::new(0) }; 512];
    let mut c = CUR.load(Relaxed);
    if c == u32::MAX {
        c = std::env::var("MUT").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
        CUR.store(c, Relaxed);
    }
    if c == 999_999 && SEEN[k as usize / 64].fetch_or(1 << (k % 64), Relaxed) >> (k % 64) & 1 == 0 {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(std::env::var("MUTREACH").unwrap()).unwrap();
        f.write_all(format!("{k}\n").as_bytes()).unwrap();
    }
    c == k
}
"#;
fn main() {
    let skip: HashSet<u32> = std::env::var("SKIP").ok().and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
    let mut n = 0;
    for d in std::env::args().skip(1) {
        let mut fs = vec![];
        walk(&Path::new(&d).join("src"), &mut fs);
        for f in fs {
            let name = f.to_string_lossy().to_string();
            if name.contains("test") || name.contains("mock") || name.contains("/bin/") {
                continue;
            }
            let src = std::fs::read_to_string(&f).unwrap();
            let ast = match parse_file(&src) {
                Ok(x) => x,
                Err(e) => {
                    eprintln!("{name}: {e}");
                    continue;
                }
            };
            let mut starts = vec![0];
            starts.extend(src.match_indices('\n').map(|x| x.0 + 1));
            let mut v = F { src: &src, starts, edits: vec![], cuts: vec![], n: &mut n, skip: &skip, file: name.clone(), infn: 0, out: vec![], ord: 0 };
            v.visit_file(&ast);
            for l in &v.out {
                println!("{l}");
            }
            let (mut ed, cuts) = (v.edits, v.cuts);
            ed.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
            let mut o = String::new();
            let mut e = ed.into_iter().peekable();
            let cut = |p: usize| cuts.iter().any(|c| c.0 <= p && p < c.1);
            for (p, ch) in src.char_indices() {
                while e.peek().map(|x| x.0 <= p).unwrap_or(false) {
                    o += &e.next().unwrap().2;
                }
                if !cut(p) {
                    o.push(ch);
                }
            }
            for x in e {
                o += &x.2;
            }
            if name.ends_with("src/lib.rs") {
                o += ON;
            }
            std::fs::write(&f, o).unwrap();
        }
    }
}
