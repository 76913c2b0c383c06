//! Lowering of one function body from /repo to Verus text.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use quote::ToTokens;
use syn::*;

/// The contract and proof text that accompanies one extracted function.
#[derive(Clone, Default, Debug)]
pub struct Spec {
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    pub at: BTreeMap<String, String>,
    pub closures: BTreeMap<String, String>,
    pub attrs: Vec<String>,
}

#[derive(Clone, Default, Debug)]
pub struct Opts {
    pub sub: HashMap<String, String>,
    pub native: bool,
    pub cmp: bool,
    pub byref: BTreeSet<String>,
    pub vseq: BTreeSet<String>,
    pub collect: HashMap<usize, String>,
    pub accty: HashMap<usize, String>,
    pub letty: HashMap<String, String>,
    pub sumty: Option<String>,
    pub dropfields: BTreeSet<String>,
    pub lit: Option<String>,
    pub litops: Option<String>,
    /// type of the literal in vec![literal; n]
    pub replit: Option<String>,
    pub vidx: BTreeSet<String>,
    pub keep_lt: bool,
    pub retname: String,
    pub unwrap: bool,
    pub calls: HashMap<String, String>,
    /// variables that let-bound closures may capture, with their types
    pub captures: Vec<(String, String)>,
}

pub struct Low<'a> {
    pub o: &'a Opts,
    pub s: &'a Spec,
    pub nloop: usize,
    pub nif: usize,
    pub nret: usize,
    pub ntmp: usize,
    pub skel: String,
    pub binds: Vec<String>,
    pub lets: HashMap<String, usize>,
    pub callc: HashMap<String, usize>,
    pub refs: BTreeSet<String>,
    pub hoisted: Vec<String>,
    pub hoist_names: HashMap<String, String>,
    pub hoist_args: HashMap<String, Vec<String>>,
    pub fname: String,
    pub used: BTreeSet<String>,
    pub ret_ty: Option<String>,
}

type R<T> = std::result::Result<T, String>;

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

pub fn err<T, X: ToTokens>(what: &str, x: &X) -> R<T> {
    let mut s = toks(x);
    s.truncate(120);
    Err(format!("{}: {}", what, s))
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

fn int_lit(e: &Expr) -> bool {
    match strip(e) {
        Expr::Lit(l) => matches!(l.lit, Lit::Int(_)),
        Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && int_lit(&u.expr),
        _ => false,
    }
}

#[derive(Clone)]
enum Source {
    Range { lo: Option<Expr>, hi: Option<Expr>, incl: bool },
    Ref(Expr),
    Owned(Expr),
}

#[derive(Clone)]
enum Stage {
    Map(Expr),
    Filter(Expr),
    Enumerate,
    Skip(Expr),
    Take(Expr),
    Cloned,
    FlatMap(Expr),
    TakeWhile(Expr),
    Rev,
}

impl<'a> Low<'a> {
    pub fn ty(&self, t: &Type) -> R<String> {
        let whole = toks(t).replace(' ', "");
        if let Some(s) = self.o.sub.get(&whole) {
            return Ok(s.clone());
        }
        Ok(match t {
            Type::Path(p) => self.path(&p.path, false)?,
            Type::Reference(r) => {
                let m = if r.mutability.is_some() { "mut " } else { "" };
                let inner = match &*r.elem {
                    Type::Slice(s) => format!("Vec<{}>", self.ty(&s.elem)?),
                    e => self.ty(e)?,
                };
                let lt = match &r.lifetime { Some(l) if self.o.keep_lt => format!("{} ", l), _ => String::new() };
                format!("&{}{}{}", lt, m, inner)
            }
            Type::Tuple(tu) => {
                let v: R<Vec<_>> = tu.elems.iter().map(|x| self.ty(x)).collect();
                let v = v?;
                if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
            }
            Type::Array(a) => format!("Vec<{}>", self.ty(&a.elem)?),
            Type::Slice(a) => format!("Vec<{}>", self.ty(&a.elem)?),
            Type::Infer(_) => "_".into(),
            Type::Paren(p) => self.ty(&p.elem)?,
            _ => return err("unsupported type", t),
        })
    }

    pub fn path(&self, p: &Path, in_expr: bool) -> R<String> {
        let whole = toks(p).replace(' ', "");
        if let Some(s) = self.o.sub.get(&whole) {
            return Ok(s.clone());
        }
        let mut out = vec![];
        for (k, seg) in p.segments.iter().enumerate() {
            let id = seg.ident.to_string();
            let name = self.o.sub.get(&id).cloned().unwrap_or(id);
            let mut s = name;
            if let PathArguments::AngleBracketed(a) = &seg.arguments {
                let mut args = vec![];
                for x in &a.args {
                    match x {
                        GenericArgument::Type(t) => {
                            let y = self.ty(t)?;
                            if !y.is_empty() { args.push(y) }
                        }
                        GenericArgument::Lifetime(_) => {}
                        _ => return err("unsupported generic argument", p),
                    }
                }
                if !args.is_empty() {
                    let sep = if in_expr { "::" } else { "" };
                    s = format!("{}{}<{}>", s, sep, args.join(", "));
                }
            }
            if s.is_empty() {
                return err("dropped path", p);
            }
            let _ = k;
            out.push(s);
        }
        // paths into modules of the crate or std are used by their last names
        while out.len() > 1 && ["std", "mem", "crate", "super", "self", "geometry", "num_traits"].contains(&out[0].as_str()) {
            out.remove(0);
        }
        Ok(out.join("::"))
    }

    fn at(&mut self, key: &str) -> String {
        if let Some(t) = self.s.at.get(key) {
            self.used.insert(key.to_string());
            return format!("{}\n", t.trim_end());
        }
        String::new()
    }

    /// A pattern, with statements that must follow the binding.
    fn pat(&mut self, p: &Pat) -> R<(String, String)> {
        Ok(match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if i.subpat.is_some() { return err("unsupported pattern", p); }
                if n != "None" { self.binds.push(n.clone()); }
                let m = if i.mutability.is_some() { "mut " } else { "" };
                let r = if i.by_ref.is_some() { "ref " } else { "" };
                (format!("{}{}{}", r, m, n), String::new())
            }
            Pat::Wild(_) => ("_".into(), String::new()),
            Pat::Type(t) => self.pat(&t.pat)?,
            Pat::Reference(r) => {
                if let Pat::Ident(i) = &*r.pat {
                    let n = i.ident.to_string();
                    self.binds.push(n.clone());
                    let m = if i.mutability.is_some() { "mut " } else { "" };
                    (format!("{}__ref", n), format!("let {}{} = *{}__ref;\n", m, n, n))
                } else {
                    return err("unsupported pattern", p);
                }
            }
            Pat::Tuple(t) => {
                let mut a = vec![];
                let mut post = String::new();
                for x in &t.elems {
                    let (s, q) = self.pat(x)?;
                    a.push(s);
                    post += &q;
                }
                if a.len() == 1 { (format!("({},)", a[0]), post) } else { (format!("({})", a.join(", ")), post) }
            }
            Pat::TupleStruct(t) => {
                let mut a = vec![];
                let mut post = String::new();
                for x in &t.elems {
                    let (s, q) = self.pat(x)?;
                    a.push(s);
                    post += &q;
                }
                (format!("{}({})", self.path(&t.path, true)?, a.join(", ")), post)
            }
            Pat::Path(q) => (self.path(&q.path, true)?, String::new()),
            Pat::Lit(l) => (toks(&l.lit), String::new()),
            Pat::Or(o) => {
                let mut a = vec![];
                for x in &o.cases {
                    let (s, q) = self.pat(x)?;
                    if !q.is_empty() { return err("unsupported pattern", p); }
                    a.push(s);
                }
                (a.join(" | "), String::new())
            }
            Pat::Paren(q) => self.pat(&q.pat)?,
            Pat::Struct(_) | Pat::Range(_) => {
                let s = toks(p);
                (s, String::new())
            }
            _ => return err("unsupported pattern", p),
        })
    }

    fn calls_in(e: &Stmt) -> Vec<String> {
        // names called in this statement, outside nested blocks
        struct V(Vec<String>);
        impl V {
            fn ex(&mut self, e: &Expr) {
                match e {
                    Expr::Call(c) => {
                        self.ex_args(&c.args);
                        if let Expr::Path(p) = &*c.func {
                            if let Some(s) = p.path.segments.last() {
                                self.0.push(s.ident.to_string());
                            }
                        }
                    }
                    Expr::MethodCall(m) => {
                        self.ex(&m.receiver);
                        self.ex_args(&m.args);
                        self.0.push(m.method.to_string());
                    }
                    Expr::Assign(a) => { self.ex(&a.left); self.ex(&a.right); self.0.push("=".into()); }
                    Expr::Binary(b) => {
                        self.ex(&b.left);
                        self.ex(&b.right);
                        if matches!(b.op, BinOp::AddAssign(_)|BinOp::SubAssign(_)|BinOp::MulAssign(_)|BinOp::DivAssign(_)|BinOp::RemAssign(_)) {
                            self.0.push("=".into());
                        }
                    }
                    Expr::Unary(u) => self.ex(&u.expr),
                    Expr::Paren(p) => self.ex(&p.expr),
                    Expr::Reference(p) => self.ex(&p.expr),
                    Expr::Field(p) => self.ex(&p.base),
                    Expr::Index(p) => { self.ex(&p.expr); self.ex(&p.index) }
                    Expr::Tuple(t) => for x in &t.elems { self.ex(x) },
                    Expr::Try(t) => self.ex(&t.expr),
                    Expr::Return(r) => if let Some(x) = &r.expr { self.ex(x) },
                    Expr::Struct(s) => for f in &s.fields { self.ex(&f.expr) },
                    Expr::Macro(m) => if let Some(s) = m.mac.path.segments.last() { self.0.push(s.ident.to_string()) },
                    _ => {}
                }
            }
            fn ex_args(&mut self, a: &punctuated::Punctuated<Expr, Token![,]>) {
                for x in a { self.ex(x) }
            }
        }
        let mut v = V(vec![]);
        match e {
            Stmt::Expr(e, _) => v.ex(e),
            Stmt::Local(l) => if let Some(i) = &l.init { v.ex(&i.expr) },
            Stmt::Macro(m) => if let Some(s) = m.mac.path.segments.last() { v.0.push(s.ident.to_string()) },
            _ => {}
        }
        v.0
    }

    pub fn block_body(&mut self, b: &Block, is_fn: bool) -> R<String> {
        let mut out = String::new();
        let n = b.stmts.len();
        for (k, st) in b.stmts.iter().enumerate() {
            let mut names = Self::calls_in(st);
            names.dedup();
            let mut keys = vec![];
            for x in names {
                let c = self.callc.entry(x.clone()).or_insert(0);
                *c += 1;
                keys.push(format!("{} {}", x, *c));
            }
            for q in &keys {
                let t = self.at(&format!("before {}", q));
                out += &t;
            }
            let last = k + 1 == n;
            let tail = last && matches!(st, Stmt::Expr(_, None));
            if tail && is_fn {
                if let Stmt::Expr(e, _) = st {
                    if self.s.at.contains_key("end") && self.ret_ty.is_some() {
                        let hint = self.ret_ty.clone();
                        let t = self.expr_h(e, hint.as_deref())?;
                        out += &format!("let {} = {};\n", self.o.retname, t);
                        for q in &keys {
                            let t = self.at(&format!("after {}", q));
                            out += &t;
                        }
                        out += &self.at("end");
                        out += &format!("{}\n", self.o.retname);
                    } else {
                        let hint = self.ret_ty.clone();
                        out += &self.expr_h(e, hint.as_deref())?;
                        out += "\n";
                        if self.ret_ty.is_none() {
                            for q in &keys {
                                let t = self.at(&format!("after {}", q));
                                out += &t;
                            }
                            out += &self.at("end");
                        }
                    }
                }
            } else {
                out += &self.stmt(st)?;
                for q in &keys {
                    let t = self.at(&format!("after {}", q));
                    out += &t;
                }
                if last && is_fn {
                    out += &self.at("end");
                }
            }
        }
        if n == 0 && is_fn {
            out += &self.at("end");
        }
        Ok(out)
    }

    fn block(&mut self, b: &Block) -> R<String> {
        Ok(format!("{{\n{}}}", self.block_body(b, false)?))
    }

    fn stmt(&mut self, s: &Stmt) -> R<String> {
        Ok(match s {
            Stmt::Local(l) => self.local(l)?,
            Stmt::Expr(Expr::ForLoop(f), _) => self.for_(f)?,
            Stmt::Expr(e, semi) => {
                let t = self.expr(e)?;
                if semi.is_some() { format!("{};\n", t) } else { format!("{}\n", t) }
            }
            Stmt::Macro(m) => {
                let t = self.mac(&m.mac, None)?;
                if m.semi_token.is_some() { format!("{};\n", t) } else { format!("{}\n", t) }
            }
            Stmt::Item(i) => return err("item inside a function", i),
        })
    }

    fn local(&mut self, l: &Local) -> R<String> {
        let hint = match &l.pat {
            Pat::Type(t) => Some(self.ty(&t.ty)?),
            _ => None,
        };
        // a non-capturing closure becomes a function of its own
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if let Expr::Closure(c) = strip(&init.expr) {
                let n = i.ident.to_string();
                return self.hoist(&n, c);
            }
        }
        let init = match &l.init {
            None => None,
            Some(i) => {
                if i.diverge.is_some() { return err("let-else", &i.expr); }
                if let (Pat::Ident(p), Expr::Reference(_)) = (&l.pat, strip(&i.expr)) {
                    self.refs.insert(p.ident.to_string());
                }
                if let (Pat::Ident(p), Expr::Path(q)) = (&l.pat, strip(&i.expr)) {
                    if self.refs.contains(&toks(q)) { self.refs.insert(p.ident.to_string()); }
                }
                Some(self.expr_h(&i.expr, hint.as_deref())?)
            }
        };
        let from = self.binds.len();
        // let (mut a, mut b) = (x, y): Verus wants plain bindings
        let (p, post) = self.pat(&l.pat)?;
        let mut out = String::from("let ");
        out += &p;
        let letty = match &l.pat { Pat::Ident(i) => self.o.letty.get(&i.ident.to_string()).cloned(), _ => None };
        if let Some(h) = letty.as_ref().or(hint.as_ref()) { out += &format!(": {}", h); }
        if let Some(i) = init { out += &format!(" = {}", i); }
        out += ";\n";
        out += &post;
        let names: Vec<String> = self.binds[from..].to_vec();
        for n in names {
            let c = self.lets.entry(n.clone()).or_insert(0);
            *c += 1;
            let k = *c;
            if k == 1 { let t = self.at(&format!("let {}", n)); out += &t; }
            let t = self.at(&format!("let {} {}", n, k));
            out += &t;
        }
        Ok(out)
    }

    fn hoist(&mut self, n: &str, c: &ExprClosure) -> R<String> {
        let fnname = format!("{}__{}", self.fname, n);
        self.binds.push(n.to_string());
        let mut ps = vec![];
        let mut pre = String::new();
        for p in &c.inputs {
            match p {
                Pat::Type(t) => {
                    let (s, post) = self.pat(&t.pat)?;
                    if matches!(&*t.ty, Type::Reference(_)) { self.refs.insert(s.clone()); }
                    ps.push(format!("{}: {}", s, self.ty(&t.ty)?));
                    pre += &post;
                }
                _ => return err("closure parameter without a type", c),
            }
        }
        let words: BTreeSet<String> = toks(&c.body).split(|c: char| !c.is_alphanumeric() && c != '_').map(|x| x.to_string()).collect();
        let mut extra = vec![];
        for (v, t) in self.o.captures.clone() {
            if words.contains(&v) && !ps.iter().any(|p| p.starts_with(&format!("{}:", v))) { ps.push(format!("{}: {}", v, t)); extra.push(v); }
        }
        if !extra.is_empty() { self.hoist_args.insert(fnname.clone(), extra); }
        let body = self.expr(&c.body)?;
        let spec = self.s.closures.get(n).cloned().unwrap_or_default();
        let (ret, contract) = match spec.find('\n') {
            Some(k) => (spec[..k].trim().to_string(), spec[k..].to_string()),
            None => (spec.trim().to_string(), String::new()),
        };
        self.hoisted.push(format!("fn {}({}) {}\n{}\n{{\n{}{}\n}}\n", fnname, ps.join(", "), ret, contract, pre, body));
        self.hoist_names.insert(n.to_string(), fnname);
        Ok(String::new())
    }

    fn mac_args(&self, m: &Macro) -> R<Vec<Expr>> {
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        match parse::Parser::parse2(p, m.tokens.clone()) {
            Ok(v) => Ok(v.into_iter().collect()),
            Err(_) => err("macro arguments", m),
        }
    }

    fn mac(&mut self, m: &Macro, hint: Option<&str>) -> R<String> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        Ok(match name.as_str() {
            "assert" | "debug_assert" => {
                let a = self.mac_args(m)?;
                let c = self.expr(&a[0])?;
                format!("vassert({})", c)
            }
            "assert_eq" | "assert_ne" => {
                let a = self.mac_args(m)?;
                let x = self.expr(&a[0])?;
                let y = self.expr(&a[1])?;
                let neg = if name == "assert_ne" { "!" } else { "" };
                if self.o.cmp { format!("vassert({}({}).veq(&({})))", neg, x, y) }
                else { format!("vassert({}({} == {}))", neg, x, y) }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => "vpanic()".into(),
            "vec" => {
                if m.tokens.is_empty() {
                    return Ok("Vec::new()".into());
                }
                struct Rep(Expr, Expr);
                impl parse::Parse for Rep {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let a = i.parse()?;
                        i.parse::<Token![;]>()?;
                        Ok(Rep(a, i.parse()?))
                    }
                }
                if let Ok(Rep(a, b)) = parse2::<Rep>(m.tokens.clone()) {
                    let inner = hint.and_then(|h| h.strip_prefix("Vec<")).and_then(|h| h.strip_suffix('>')).map(|s| s.to_string());
                    let lit = int_lit(&a);
                    let a = self.expr_h(&a, inner.as_deref())?;
                    let b = self.expr(&b)?;
                    match (&self.o.replit, lit) {
                        (Some(t), true) => format!("vrep({}::lit({}), {})", t, a, b),
                        _ => format!("vrep({}, {})", a, b),
                    }
                } else {
                    let a = self.mac_args(m)?;
                    let v: R<Vec<_>> = a.iter().map(|x| self.expr(x)).collect();
                    format!("vec![{}]", v?.join(", "))
                }
            }
            _ => return err("macro", m),
        })
    }

    fn place(&mut self, e: &Expr) -> R<String> {
        Ok(match strip(e) {
            Expr::Index(i) => {
                let b = self.place(&i.expr)?;
                match strip(&i.index) {
                    Expr::Tuple(t) => {
                        let v: R<Vec<_>> = t.elems.iter().map(|x| self.expr(x)).collect();
                        format!("(*{}.index_mut(({})))", b, v?.join(", "))
                    }
                    x => {
                        let k = self.expr(x)?;
                        if self.o.vidx.contains(&toks(&i.expr).replace(' ', "")) {
                            format!("(*{}.index_mut({}))", b, k)
                        } else {
                            format!("{}[{}]", b, k)
                        }
                    }
                }
            }
            Expr::Field(f) => format!("{}.{}", self.place(&f.base)?, toks(&f.member)),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => format!("(*{})", self.place(&u.expr)?),
            x => self.expr(x)?,
        })
    }

    pub fn expr(&mut self, e: &Expr) -> R<String> {
        self.expr_h(e, None)
    }

    fn lit_typed(&self, s: String) -> String {
        match &self.o.litops {
            Some(t) if s.chars().all(|c| c.is_ascii_digit()) => format!("{}{}", s, t),
            _ => s,
        }
    }

    fn arith(&mut self, op: &str, l: &Expr, r: &Expr) -> R<String> {
        let a = self.expr(l)?;
        let b = self.expr(r)?;
        let (sym, f) = match op {
            "+" => ("+", "vadd"), "-" => ("-", "vsub"), "*" => ("*", "vmul"), "/" => ("/", "vdiv"), "%" => ("%", "vrem"),
            _ => unreachable!(),
        };
        if self.o.litops.is_some() && (int_lit(l) || int_lit(r)) {
            return Ok(format!("({}).{}({})", self.lit_typed(a), f, self.lit_typed(b)));
        }
        if self.o.native || (self.o.lit.is_none() && (int_lit(l) || int_lit(r))) {
            return Ok(format!("({} {} {})", a, sym, b));
        }
        Ok(format!("({}).{}({})", a, f, b))
    }

    pub fn expr_h(&mut self, e: &Expr, hint: Option<&str>) -> R<String> {
        Ok(match e {
            Expr::Paren(p) => format!("({})", self.expr_h(&p.expr, hint)?),
            Expr::Group(p) => self.expr_h(&p.expr, hint)?,
            Expr::Lit(l) => match (&self.o.lit, &l.lit) {
                (Some(t), Lit::Int(i)) if i.suffix().is_empty() => format!("{}::lit({})", t, i),
                (_, Lit::Int(i)) if i.suffix().is_empty() && hint == Some("Int") => format!("Int::lit({})", i),
                (_, Lit::Int(i)) if !i.suffix().is_empty() && self.o.sub.contains_key(i.suffix()) => format!("{}::lit({})", self.o.sub[i.suffix()], i.base10_digits()),
                _ => toks(&l.lit),
            },
            Expr::Path(p) => {
                let s = self.path(&p.path, true)?;
                self.hoist_names.get(&s).cloned().unwrap_or(s)
            }
            Expr::Unary(u) => match u.op {
                UnOp::Neg(_) => {
                    if int_lit(&u.expr) || self.o.native {
                        format!("(-{})", self.expr(&u.expr)?)
                    } else {
                        format!("({}).vneg()", self.expr(&u.expr)?)
                    }
                }
                UnOp::Not(_) => format!("!({})", self.expr(&u.expr)?),
                UnOp::Deref(_) => format!("(*{})", self.expr(&u.expr)?),
                _ => return err("unary operator", e),
            },
            Expr::Binary(b) => self.binary(b)?,
            Expr::Reference(r) => {
                if let Expr::Array(a) = strip(&r.expr) {
                    let v: R<Vec<_>> = a.elems.iter().map(|x| self.expr(x)).collect();
                    let v = v?;
                    if v.is_empty() { "&Vec::new()".to_string() } else { format!("&vec![{}]", v.join(", ")) }
                } else if r.mutability.is_some() {
                    format!("&mut {}", self.place(&r.expr)?)
                } else {
                    format!("&{}", self.expr_h(&r.expr, hint.map(|h| h.trim_start_matches('&')))?)
                }
            }
            Expr::Field(f) => format!("{}.{}", self.expr(&f.base)?, toks(&f.member)),
            Expr::Index(i) => self.index(i)?,
            Expr::Tuple(t) => {
                let v: R<Vec<_>> = t.elems.iter().map(|x| self.expr(x)).collect();
                let v = v?;
                if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
            }
            Expr::Call(c) => self.call(c, hint)?,
            Expr::MethodCall(m) => self.method(m, hint)?,
            Expr::Macro(m) => self.mac(&m.mac, hint)?,
            Expr::Block(b) => self.block(&b.block)?,
            Expr::Unsafe(b) => self.block(&b.block)?,
            Expr::If(i) => self.if_(i, hint)?,
            Expr::Match(m) => {
                self.skel.push_str("M(");
                let s = self.expr(&m.expr)?;
                let mut out = format!("match {} {{\n", s);
                for a in &m.arms {
                    let (p, post) = self.pat(&a.pat)?;
                    let g = match &a.guard {
                        Some((_, g)) => format!(" if {}", self.expr(g)?),
                        None => String::new(),
                    };
                    self.skel.push(',');
                    let b = self.expr_h(&a.body, hint)?;
                    out += &format!("{}{} => {{\n{}{}\n}}\n", p, g, post, b);
                }
                out += "}";
                self.skel.push(')');
                out
            }
            Expr::While(w) => self.while_(w)?,
            Expr::Loop(l) => {
                self.nloop += 1;
                let n = self.nloop;
                self.skel.push_str("L(");
                let pre = self.at(&format!("before loop {}", n));
                let st = self.at(&format!("loop {} start", n));
                let b = self.block_body(&l.body, false)?;
                let en = self.at(&format!("loop {} end", n));
                self.skel.push(')');
                let post = self.at(&format!("after loop {}", n));
                format!("{}loop\n{}\n{{\n{}{}{}}}\n{}", pre, self.loop_spec(n, "", "", ""), st, b, en, post)
            }
            Expr::ForLoop(f) => format!("{{\n{}}}", self.for_(f)?),
            Expr::Return(r) => {
                self.nret += 1;
                let n = self.nret;
                self.skel.push('R');
                let t = self.at(&format!("ret {}", n));
                match &r.expr {
                    None => format!("{{ {} return; }}", t),
                    Some(x) => {
                        let hint = self.ret_ty.clone();
                        let v = self.expr_h(x, hint.as_deref())?;
                        if t.is_empty() { format!("return {}", v) }
                        else { format!("{{ let {} = {};\n{} return {}; }}", self.o.retname, v, t, self.o.retname) }
                    }
                }
            }
            Expr::Break(b) => {
                if b.label.is_some() || b.expr.is_some() { return err("break with a label or value", e); }
                self.skel.push('B');
                "break".into()
            }
            Expr::Continue(c) => {
                if c.label.is_some() { return err("continue with a label", e); }
                self.skel.push('C');
                "continue".into()
            }
            Expr::Try(t) => format!("{}?", self.expr(&t.expr)?),
            Expr::Cast(c) => {
                let t = self.ty(&c.ty)?;
                if self.o.litops.is_some() || self.o.calls.contains_key("as") {
                    let f = self.o.calls.get("as").cloned().unwrap_or_default();
                    if !f.is_empty() { return Ok(format!("{}({})", f, self.expr(&c.expr)?)); }
                }
                format!("({} as {})", self.expr(&c.expr)?, t)
            }
            Expr::Assign(a) => self.assign(a)?,
            Expr::Struct(s) => {
                if s.rest.is_some() { return err("struct update", e); }
                let mut out = format!("{} {{ ", self.path(&s.path, true)?);
                for f in &s.fields {
                    let n = toks(&f.member);
                    if self.o.dropfields.contains(&n) { continue; }
                    out += &format!("{}: {}, ", n, self.expr(&f.expr)?);
                }
                out + "}"
            }
            Expr::Array(a) => {
                let v: R<Vec<_>> = a.elems.iter().map(|x| self.expr(x)).collect();
                let v = v?;
                if v.is_empty() { "Vec::new()".to_string() } else { format!("vec![{}]", v.join(", ")) }
            }
            Expr::Range(r) => {
                let lo = match &r.start { Some(x) => self.expr(x)?, None => String::new() };
                let hi = match &r.end { Some(x) => self.expr(x)?, None => String::new() };
                format!("({}{}{})", lo, toks(&r.limits), hi)
            }
            Expr::Closure(c) => return err("closure", c),
            _ => return err("unsupported expression", e),
        })
    }

    fn index(&mut self, i: &ExprIndex) -> R<String> {
        match strip(&i.index) {
            Expr::Tuple(t) => {
                let b = self.expr(&i.expr)?;
                let v: R<Vec<_>> = t.elems.iter().map(|x| self.expr(x)).collect();
                Ok(format!("(*{}.index(({})))", b, v?.join(", ")))
            }
            Expr::Range(r) => {
                let b = self.expr(&i.expr)?;
                let lo = match &r.start { Some(x) => self.expr(x)?, None => "0".into() };
                let hi = match &r.end { Some(x) => self.expr(x)?, None => format!("{}.len()", b) };
                Ok(format!("(*vslice(&{}, {}, {}))", b, lo, hi))
            }
            x => {
                let b = self.expr(&i.expr)?;
                let k = self.expr(x)?;
                if self.o.vidx.contains(&toks(&i.expr).replace(' ', "")) {
                    Ok(format!("(*{}.index({}))", b, k))
                } else {
                    Ok(format!("{}[{}]", b, k))
                }
            }
        }
    }

    fn assign(&mut self, a: &ExprAssign) -> R<String> {
        if let Expr::Tuple(l) = strip(&a.left) {
            let mut out = String::from("{\n");
            let mut names = vec![];
            if let Expr::Tuple(r) = strip(&a.right) {
                for x in &r.elems {
                    self.ntmp += 1;
                    let v = self.expr(x)?;
                    out += &format!("let tmp__{} = {};\n", self.ntmp, v);
                    names.push(format!("tmp__{}", self.ntmp));
                }
            } else {
                self.ntmp += 1;
                let v = self.expr(&a.right)?;
                out += &format!("let tmp__{} = {};\n", self.ntmp, v);
                for k in 0..l.elems.len() { names.push(format!("tmp__{}.{}", self.ntmp, k)); }
            }
            for (x, n) in l.elems.iter().zip(names) {
                if matches!(x, Expr::Infer(_)) { continue; }
                out += &format!("{} = {};\n", self.place(x)?, n);
            }
            return Ok(out + "}");
        }
        let r = self.expr(&a.right)?;
        let l = self.place(&a.left)?;
        Ok(format!("{} = {}", l, r))
    }

    fn binary(&mut self, b: &ExprBinary) -> R<String> {
        use BinOp::*;
        let cmp = |s: &mut Self, f: &str, sym: &str| -> R<String> {
            let l = s.expr(&b.left)?;
            let r = s.expr(&b.right)?;
            let (l, r) = if int_lit(&b.left) || int_lit(&b.right) { (s.lit_typed(l), s.lit_typed(r)) } else { (l, r) };
            if s.o.cmp && (s.o.lit.is_some() || (!int_lit(&b.left) && !int_lit(&b.right))) {
                Ok(match f {
                    "ne" => format!("!({}).veq(&({}))", l, r),
                    "gt" => format!("({}).vlt(&({}))", r, l),
                    "le" => format!("!({}).vlt(&({}))", r, l),
                    "ge" => format!("!({}).vlt(&({}))", l, r),
                    "lt" => format!("({}).vlt(&({}))", l, r),
                    _ => format!("({}).veq(&({}))", l, r),
                })
            } else {
                Ok(format!("({} {} {})", l, sym, r))
            }
        };
        match b.op {
            Add(_) => self.arith("+", &b.left, &b.right),
            Sub(_) => self.arith("-", &b.left, &b.right),
            Mul(_) => self.arith("*", &b.left, &b.right),
            Div(_) => self.arith("/", &b.left, &b.right),
            Rem(_) => self.arith("%", &b.left, &b.right),
            And(_) => Ok(format!("({} && {})", self.expr(&b.left)?, self.expr(&b.right)?)),
            Or(_) => Ok(format!("({} || {})", self.expr(&b.left)?, self.expr(&b.right)?)),
            Eq(_) => cmp(self, "eq", "=="),
            Ne(_) => cmp(self, "ne", "!="),
            Lt(_) => cmp(self, "lt", "<"),
            Gt(_) => cmp(self, "gt", ">"),
            Le(_) => cmp(self, "le", "<="),
            Ge(_) => cmp(self, "ge", ">="),
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) => {
                let (sym, f) = match b.op {
                    AddAssign(_) => ("+", "vadd_assign"), SubAssign(_) => ("-", "vsub_assign"),
                    MulAssign(_) => ("*", "vmul_assign"), RemAssign(_) => ("%", "vrem_assign"), _ => ("/", "vdiv_assign"),
                };
                let r = self.expr(&b.right)?;
                let l = self.place(&b.left)?;
                if self.o.native || (int_lit(&b.right) && self.o.litops.is_none() && self.o.lit.is_none()) {
                    Ok(format!("{} = {} {} {}", l, l, sym, r))
                } else {
                    // Rust evaluates the right side first for the types lowered this way
                    let l = l.strip_prefix("(*").and_then(|x| x.strip_suffix(')')).filter(|x| x.contains(".index_mut(")).map(|x| x.to_string()).unwrap_or(format!("(&mut {})", l));
                    self.ntmp += 1;
                    let t = format!("tmp__{}", self.ntmp);
                    Ok(format!("{{ let {} = {}; {}.{}({}); }}", t, if int_lit(&b.right) { self.lit_typed(r) } else { r }, l, f, t))
                }
            }
            _ => err("binary operator", b),
        }
    }

    fn call(&mut self, c: &ExprCall, hint: Option<&str>) -> R<String> {
        let f = match &*c.func {
            Expr::Path(p) => self.path(&p.path, true)?,
            x => self.expr(x)?,
        };
        if f == "Vec::with_capacity" { return Ok("Vec::new()".into()); }
        if (f == "Vec::from_iter" && !self.o.calls.contains_key("Vec::from_iter")) || (f == "PhantomData::default" && !self.o.calls.contains_key(&f)) { return err("call", c); }
        let f = self.hoist_names.get(&f).cloned().unwrap_or(f);
        let f = self.o.calls.get(&f).cloned().unwrap_or(f);
        let inner = match (f.as_str(), hint) {
            ("Some", Some(h)) => h.strip_prefix("Option<").and_then(|x| x.strip_suffix('>')).map(|s| s.to_string()),
            _ => None,
        };
        let mut v = vec![];
        for x in &c.args { v.push(self.expr_h(x, inner.as_deref())?); }
        if let Some(extra) = self.hoist_args.get(&f) { v.extend(extra.iter().cloned()); }
        Ok(format!("{}({})", f, v.join(", ")))
    }

    fn if_(&mut self, i: &ExprIf, hint: Option<&str>) -> R<String> {
        self.nif += 1;
        let n = self.nif;
        self.skel.push_str("I(");
        let (cond, post) = match &*i.cond {
            Expr::Let(l) => {
                let s = self.expr(&l.expr)?;
                let (p, post) = self.pat(&l.pat)?;
                (format!("let {} = {}", p, s), post)
            }
            c => (self.expr(c)?, String::new()),
        };
        let th = self.at(&format!("then {}", n));
        let b = self.block_hint(&i.then_branch, hint)?;
        let te = self.at(&format!("then {} end", n));
        let mut out = format!("if {} {{\n{}{}{}{}}}", cond, post, th, b, te);
        match &i.else_branch {
            None => {
                let t = self.at(&format!("else {}", n));
                if !t.is_empty() { out += &format!(" else {{\n{}}}", t); }
            }
            Some((_, e)) => {
                self.skel.push('|');
                let t = self.at(&format!("else {}", n));
                let s = match &**e {
                    Expr::Block(b) => {
                        let b = self.block_hint(&b.block, hint)?;
                        let te = self.at(&format!("else {} end", n));
                        format!("{{\n{}{}{}}}", t, b, te)
                    }
                    x => {
                        let y = self.expr_h(x, hint)?;
                        if t.is_empty() { y } else { format!("{{\n{}{}\n}}", t, y) }
                    }
                };
                out += &format!(" else {}", s);
            }
        }
        self.skel.push(')');
        Ok(out)
    }

    fn block_hint(&mut self, b: &Block, hint: Option<&str>) -> R<String> {
        if let (1, Some(Stmt::Expr(e, None))) = (b.stmts.len(), b.stmts.last()) {
            if !matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
                // keep the positions of the statement
                let names = Self::calls_in(&b.stmts[0]);
                let mut pre = String::new();
                for x in names {
                    let c = self.callc.entry(x.clone()).or_insert(0);
                    *c += 1;
                    let k = *c;
                    let t = self.at(&format!("before {} {}", x, k));
                    pre += &t;
                }
                return Ok(format!("{}{}\n", pre, self.expr_h(e, hint)?));
            }
        }
        self.block_body(b, false)
    }

    /// Loop clauses: automatic ones followed by the unit's own text.
    fn loop_spec(&mut self, n: usize, inv: &str, ens: &str, dec: &str) -> String {
        let user = self.s.loops.get(&n).cloned().unwrap_or_default();
        self.used.insert(format!("loop {}", n));
        // split the user's text at top-level keywords at line starts
        let mut parts: BTreeMap<&str, String> = BTreeMap::new();
        let mut cur = "invariant";
        for line in user.lines() {
            let t = line.trim_start();
            let mut rest = line;
            for k in ["invariant_except_break", "invariant", "ensures", "decreases"] {
                if t == k || t.starts_with(&format!("{} ", k)) {
                    cur = k;
                    rest = &t[k.len()..];
                    break;
                }
            }
            let e = parts.entry(cur).or_default();
            *e += rest;
            *e += "\n";
        }
        let mut out = String::new();
        // a searching loop (find, position, all, any) goes on only while nothing was found
        let auto = ens.split(" ==>").next().filter(|_| !ens.is_empty()).map(|c| format!("{},\n", c)).unwrap_or_default();
        let ux = parts.get("invariant_except_break").cloned().unwrap_or_default();
        if !auto.is_empty() || !ux.trim().is_empty() { out += &format!("invariant_except_break\n{}{}\n", auto, ux); }
        let ui = parts.get("invariant").cloned().unwrap_or_default();
        if !inv.is_empty() || !ui.trim().is_empty() {
            out += &format!("invariant\n{}{}\n", inv, ui);
        }
        let ue = parts.get("ensures").cloned().unwrap_or_default();
        if !ens.is_empty() || !ue.trim().is_empty() {
            out += &format!("ensures\n{}{}\n", ens, ue);
        }
        match parts.get("decreases") {
            Some(t) => out += &format!("decreases {}\n", t.trim()),
            None if !dec.is_empty() => out += &format!("decreases {}\n", dec),
            None => {}
        }
        out
    }

    fn while_(&mut self, w: &ExprWhile) -> R<String> {
        if w.label.is_some() { return err("label", w); }
        self.nloop += 1;
        let n = self.nloop;
        self.skel.push_str("L(");
        let pre = self.at(&format!("before loop {}", n));
        let out;
        let st = self.at(&format!("loop {} start", n));
        if let Expr::Let(l) = &*w.cond {
            let s = self.expr(&l.expr)?;
            let (p, post) = self.pat(&l.pat)?;
            let b = self.block_body(&w.body, false)?;
            let en = self.at(&format!("loop {} end", n));
            let sp = self.loop_spec(n, "", "", "");
            out = format!("loop\n{}\n{{\nlet tmp__w{} = {};\nif let {} = tmp__w{} {{\n{}{}{}{}}} else {{ break; }}\n}}\n", sp, n, s, p, n, post, st, b, en);
        } else {
            let c = self.expr(&w.cond)?;
            let b = self.block_body(&w.body, false)?;
            let en = self.at(&format!("loop {} end", n));
            let sp = self.loop_spec(n, "", "", "");
            out = format!("while {}\n{}\n{{\n{}{}{}}}\n", c, sp, st, b, en);
        }
        self.skel.push(')');
        let post = self.at(&format!("after loop {}", n));
        Ok(format!("{}{}{}", pre, out, post))
    }

    fn source(&mut self, e: &Expr) -> Source {
        match strip(e) {
            Expr::Range(r) => Source::Range {
                lo: r.start.as_deref().cloned(),
                hi: r.end.as_deref().cloned(),
                incl: matches!(r.limits, RangeLimits::Closed(_)),
            },
            Expr::Reference(r) if r.mutability.is_none() => Source::Ref((*r.expr).clone()),
            Expr::Path(p) => {
                let n = toks(p);
                if self.refs.contains(&n) || self.o.byref.contains(&n) { Source::Ref(e.clone()) } else { Source::Owned(e.clone()) }
            }
            x => Source::Owned(x.clone()),
        }
    }

    fn chain(&mut self, e: &Expr) -> R<Option<(Source, Vec<Stage>)>> {
        match strip(e) {
            Expr::Range(_) => Ok(Some((self.source(e), vec![]))),
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "iter" => {
                        let r = (*m.receiver).clone();
                        Ok(Some((Source::Ref(r), vec![])))
                    }
                    "into_iter" => {
                        if let Some(c) = self.chain(&m.receiver)? { return Ok(Some(c)); }
                        Ok(Some((self.source(&m.receiver), vec![])))
                    }
                    "sorted" if m.args.is_empty() => {
                        // the elements of a set in ascending order
                        if let Some((Source::Owned(x), st)) = self.chain(&m.receiver)? {
                            if st.is_empty() {
                                let y: Expr = parse_quote!(vsorted(#x));
                                return Ok(Some((Source::Owned(y), vec![])));
                            }
                        }
                        err("sorted", m)
                    }
                    "take" if matches!(strip(&m.receiver), Expr::Call(c) if toks(&c.func).replace(' ', "").ends_with("repeat")) => {
                        let n = m.args.first().cloned().unwrap();
                        let x = match strip(&m.receiver) { Expr::Call(c) => c.args.first().cloned().unwrap(), _ => unreachable!() };
                        let r: Expr = parse_quote!(0..#n);
                        let f: Expr = parse_quote!(|_| #x);
                        Ok(Some((self.source(&r), vec![Stage::Map(f)])))
                    }
                    "map" | "filter" | "enumerate" | "skip" | "take" | "cloned" | "copied" | "flat_map" | "take_while" => {
                        let c = self.chain(&m.receiver)?;
                        let (s, mut st) = match c { Some(x) => x, None => return Ok(None) };
                        let a = m.args.first().cloned();
                        st.push(match name.as_str() {
                            "map" => Stage::Map(a.unwrap()),
                            "filter" => Stage::Filter(a.unwrap()),
                            "enumerate" => Stage::Enumerate,
                            "skip" => Stage::Skip(a.unwrap()),
                            "take" => Stage::Take(a.unwrap()),
                            "flat_map" => Stage::FlatMap(a.unwrap()),
                            "take_while" => Stage::TakeWhile(a.unwrap()),
                            _ => Stage::Cloned,
                        });
                        Ok(Some((s, st)))
                    }
                    "rev" => {
                        let c = self.chain(&m.receiver)?;
                        let (s, mut st) = match c { Some(x) => x, None => return Ok(None) };
                        if !st.is_empty() { return err("iterator adapter", m); }
                        st.push(Stage::Rev);
                        Ok(Some((s, st)))
                    }
                    "zip" | "chain" | "filter_map" | "skip_while" | "peekable" | "step_by" | "windows" | "chunks" | "scan" => {
                        if self.chain(&m.receiver)?.is_some() { return err("iterator adapter", m); }
                        Ok(None)
                    }
                    _ => Ok(None),
                }
            }
            _ => Ok(None),
        }
    }

    fn apply(&mut self, f: &Expr, arg: &str) -> R<String> {
        match strip(f) {
            Expr::Closure(c) => {
                if c.inputs.len() != 1 { return err("closure", c); }
                let (p, post) = self.pat(&c.inputs[0])?;
                let b = self.expr(&c.body)?;
                Ok(format!("{{ let {} = {};\n{}{} }}", p, arg, post, b))
            }
            Expr::Path(p) => {
                let q = self.path(&p.path, true)?;
                let q = self.hoist_names.get(&q).cloned().unwrap_or(q);
                Ok(format!("{}({})", q, arg))
            }
            x => err("function value", x),
        }
    }

    /// Emit loops that run `body` on every item; returns the text.
    fn generate(&mut self, src: &Source, stages: &[Stage], ens: &str, body: &mut dyn FnMut(&mut Self, String) -> R<String>) -> R<String> {
        self.nloop += 1;
        let n = self.nloop;
        self.skel.push_str("L(");
        let mut pre = self.at(&format!("before loop {}", n));
        let mut out = String::new();
        let mut inv = format!("start{n} <= it{n}, start{n} <= end{n} ==> it{n} <= end{n}, start{n} > end{n} ==> it{n} == start{n},\n");
        // leading enumerate/skip/take on an indexed source change only the bounds
        let mut k = 0;
        let mut skip = String::new();
        let mut take = String::new();
        let mut enumerated = false;
        let mut reversed = false;
        if let Some(Stage::Rev) = stages.first() { reversed = true; k = 1; }
        let open = matches!(src, Source::Range { hi: None, .. });
        if open && reversed { return Err("reversed open range".into()); }
        let early = stages.iter().any(|s| matches!(s, Stage::TakeWhile(_)));
        match src {
            Source::Range { lo, hi, incl } => {
                let lo = match lo { Some(x) => self.expr(x)?, None => "0".into() };
                match hi {
                    Some(h) => {
                        let h = self.expr(h)?;
                        out += &format!("let start{n} = {};\nlet end{n} = {};\n", lo, if *incl { format!("({} + 1)", h) } else { h });
                    }
                    None => {
                        out += &format!("let start{n} = {};\n", self.lit_typed(lo));
                        inv = format!("start{n} <= it{n},\n");
                    }
                }
            }
            Source::Ref(e) | Source::Owned(e) => {
                let key = toks(e).replace(' ', "");
                let t = self.expr(e)?;
                let isref = matches!(src, Source::Ref(_));
                if self.o.vseq.contains(&key) {
                    // a temporary has to outlive the loop
                    if matches!(e, Expr::Call(_) | Expr::MethodCall(_)) {
                        out += &format!("let src{n} = {};\nlet seq{n} = src{n}.vseq();\n", t);
                    } else {
                        out += &format!("let seq{n} = {}.vseq();\n", t);
                    }
                } else if isref {
                    let already = self.refs.contains(&key) || self.o.byref.contains(&key);
                    out += &format!("let seq{n} = {}{};\n", if already { "" } else { "&" }, t);
                } else {
                    out += &format!("let seq{n} = {};\n", t);
                }
                while k < stages.len() && !reversed {
                    match &stages[k] {
                        Stage::Skip(x) if skip.is_empty() && take.is_empty() && !enumerated => skip = self.expr(x)?,
                        Stage::Take(x) if skip.is_empty() && take.is_empty() && !enumerated => take = self.expr(x)?,
                        Stage::Enumerate if skip.is_empty() && !enumerated => enumerated = true,
                        _ => break,
                    }
                    k += 1;
                }
                if !take.is_empty() {
                    out += &format!("let end{n}: usize = vmin({}, seq{n}.len());\n", take);
                } else {
                    out += &format!("let end{n}: usize = seq{n}.len();\n");
                }
                if !skip.is_empty() {
                    out += &format!("let start{n}: usize = vmin({}, end{n});\n", skip);
                } else {
                    out += &format!("let start{n}: usize = 0;\n");
                }
                inv += &format!("end{n} <= seq{n}@.len(),\n");
            }
        }
        let posts = self.at(&format!("init loop {}", n));
        out += &format!("let mut it{n} = start{n};\n{}", posts);
        let mut item = match src {
            Source::Range { .. } => if reversed { format!("(end{n} - 1 - (cur{n} - start{n}))") } else { format!("cur{n}") },
            Source::Ref(e) | Source::Owned(e) => {
                let key = toks(e).replace(' ', "");
                let _ = key;
                let base = if matches!(src, Source::Ref(_)) { format!("&seq{n}[{}]", if reversed { format!("end{n} - 1 - cur{n}") } else { format!("cur{n}") }) } else { format!("seq{n}[{}].vclone()", if reversed { format!("end{n} - 1 - cur{n}") } else { format!("cur{n}") }) };
                if enumerated { format!("(cur{n}, {})", base) } else { base }
            }
        };
        // remaining stages wrap the body
        let mut head = String::new();
        let mut closers = String::new();
        let mut flat: Option<(String, Vec<Stage>)> = None;
        let mut counted = false;
        while k < stages.len() {
            match &stages[k] {
                Stage::Map(f) => {
                    if k + 1 == stages.len() || true {
                        let a = self.apply(f, &item)?;
                        self.ntmp += 1;
                        head += &format!("let itm__{} = {};\n", self.ntmp, a);
                        item = format!("itm__{}", self.ntmp);
                    }
                }
                Stage::Cloned => { item = format!("({}).vclone()", item); }
                Stage::Filter(f) => {
                    self.ntmp += 1;
                    head += &format!("let itm__{} = {};\n", self.ntmp, item);
                    item = format!("itm__{}", self.ntmp);
                    let a = self.apply(f, &format!("&{}", item))?;
                    self.skel.push('?');
                    head += &format!("if {} {{\n", a);
                    closers += "}\n";
                }
                Stage::FlatMap(f) => {
                    flat = Some((item.clone(), stages[k + 1..].to_vec()));
                    let f = f.clone();
                    if let Expr::Closure(c) = strip(&f) {
                        let (p, post) = self.pat(&c.inputs[0])?;
                        head += &format!("let {} = {};\n{}", p, item, post);
                        let (isrc, mut ist) = match strip(&c.body) {
                            Expr::Array(_) => (Source::Owned((*c.body).clone()), vec![]),
                            b => match self.chain(b)? { Some(x) => x, None => (self.source(b), vec![]) },
                        };
                        ist.extend(flat.as_ref().unwrap().1.iter().cloned());
                        let t = self.generate(&isrc, &ist, "", body)?;
                        head += &t;
                    } else {
                        return err("flat_map", &f);
                    }
                    break;
                }
                Stage::TakeWhile(f) => {
                    self.ntmp += 1;
                    head += &format!("let itm__{} = {};\n", self.ntmp, item);
                    item = format!("itm__{}", self.ntmp);
                    let a = self.apply(f, &format!("&{}", item))?;
                    head += &format!("if !({}) {{ break; }}\n", a);
                }
                Stage::Take(x) => {
                    let x = self.expr(x)?;
                    out += &format!("let lim{n}: usize = {};\nlet mut cnt{n}: usize = 0;\n", x);
                    head += &format!("if cnt{n} >= lim{n} {{ break; }}\ncnt{n} = cnt{n} + 1;\n");
                    counted = true;
                }
                Stage::Enumerate | Stage::Skip(_) | Stage::Rev => return Err("iterator adapter after another".into()),
            }
            k += 1;
        }
        let st = self.at(&format!("loop {} start", n));
        let b = if flat.is_some() { String::new() } else { body(self, item)? };
        let en = self.at(&format!("loop {} end", n));
        let dec = if open { String::new() } else { format!("end{n} - it{n}") };
        let spec = self.loop_spec(n, &inv, if open || early || counted { "" } else { ens }, &dec);
        let cond = if open { "loop".to_string() } else { format!("while it{n} < end{n}") };
        out += &format!("{cond}\n{}{{\nlet cur{n} = it{n};\nit{n} = it{n} + 1;\n{}{}{}{}{}}}\n", spec, st, head, b, en, closers);
        self.skel.push(')');
        out += &self.at(&format!("after loop {}", n));
        pre += &out;
        Ok(pre)
    }

    fn for_(&mut self, f: &ExprForLoop) -> R<String> {
        if f.label.is_some() { return err("label", &f.pat); }
        let (src, st) = match self.chain(&f.expr)? {
            Some(x) => x,
            None => (self.source(&f.expr), vec![]),
        };
        // values borrowed from the sequence are references in the body
        if let (Source::Ref(_), Pat::Ident(i)) = (&src, &*f.pat) {
            if st.is_empty() { self.refs.insert(i.ident.to_string()); }
        } else if let (_, Pat::Ident(i)) = (&src, &*f.pat) {
            self.refs.remove(&i.ident.to_string());
        }
        let body_ast = f.body.clone();
        let pat = f.pat.clone();
        let t = self.generate(&src, &st, "", &mut |s: &mut Self, item: String| {
            let (p, post) = s.pat(&pat)?;
            let pre = if p == item { String::new() } else { format!("let {} = {};\n", p, item) };
            let b = s.block_body(&body_ast, false)?;
            Ok(format!("{}{}{}", pre, post, b))
        })?;
        Ok(t)
    }

    fn method(&mut self, m: &ExprMethodCall, hint: Option<&str>) -> R<String> {
        let name = m.method.to_string();
        let turbo = match &m.turbofish {
            Some(t) => match t.args.first() {
                Some(GenericArgument::Type(t)) => Some(self.ty(t)?),
                _ => None,
            },
            None => None,
        };
        let terminal = ["collect", "sum", "all", "any", "position", "find", "find_map", "reduce", "count", "next", "fold"];
        if terminal.contains(&name.as_str()) {
            if let Some((src, st)) = self.chain(&m.receiver)? {
                let n = self.nloop + 1;
                let arg = m.args.first().cloned();
                return Ok(match name.as_str() {
                    "collect" => {
                        let target = self.o.collect.get(&n).cloned().or(turbo).or(hint.map(|s| s.to_string())).unwrap_or("Vec<_>".into());
                        let t = self.generate(&src, &st, "", &mut |_s, item| Ok(format!("acc{n}.push({});\n", item)))?;
                        let fin = if target == "Vec" || target.starts_with("Vec<") { format!("acc{n}") } else {
                            let base = target.split('<').next().unwrap();
                            format!("{}::from_iter_vec(acc{n})", base)
                        };
                        let ann = match self.o.accty.get(&n) {
                            Some(t) => format!(": {}", t),
                            None if target.starts_with("Vec<") && !target.contains('_') => format!(": {}", target),
                            None => String::new(),
                        };
                        format!("{{\nlet mut acc{n}{} = Vec::new();\n{}{}\n}}", ann, t, fin)
                    }
                    "sum" => {
                        let ty = self.o.sumty.clone().or(turbo).or(hint.map(|s| s.to_string())).unwrap_or("usize".into());
                        let t = self.generate(&src, &st, "", &mut |_s, item| Ok(format!("let tmp__s = {};\nacc{n}.vadd_assign(tmp__s);\n", item)))?;
                        format!("{{\nlet mut acc{n}: {ty} = {ty}::vzero();\n{}acc{n}\n}}", t)
                    }
                    "count" => {
                        let t = self.generate(&src, &st, "", &mut |_s, _item| Ok(format!("acc{n} = acc{n} + 1;\n")))?;
                        format!("{{\nlet mut acc{n}: usize = 0;\n{}acc{n}\n}}", t)
                    }
                    "all" | "any" => {
                        let (init, neg, ens) = if name == "all" { ("true", "!", format!("acc{n} ==> it{n} >= end{n},\n")) } else { ("false", "", format!("!acc{n} ==> it{n} >= end{n},\n")) };
                        let set = if name == "all" { "false" } else { "true" };
                        let f = arg.unwrap();
                        let t = self.generate(&src, &st, &ens, &mut |s, item| {
                            let c = s.apply(&f, &item)?;
                            s.skel.push('?');
                            Ok(format!("if {}({}) {{ acc{n} = {}; break; }}\n", neg, c, set))
                        })?;
                        format!("{{\nlet mut acc{n} = {};\n{}acc{n}\n}}", init, t)
                    }
                    "position" | "find" => {
                        let f = arg.unwrap();
                        let pos = name == "position";
                        let ens = format!("acc{n}.is_none() ==> it{n} >= end{n},\n");
                        let t = self.generate(&src, &st, &ens, &mut |s, item| {
                            let x = if pos { item.clone() } else { "&itm__f".to_string() };
                            let c = s.apply(&f, &x)?;
                            s.skel.push('?');
                            if pos { Ok(format!("if {} {{ acc{n} = Some(cur{n}); break; }}\n", c)) }
                            else { Ok(format!("let itm__f = {};\nif {} {{ acc{n} = Some(itm__f); break; }}\n", item, c)) }
                        })?;
                        let ann = self.o.accty.get(&n).map(|t| format!(": {}", t)).unwrap_or_default();
                        format!("{{\nlet mut acc{n}{} = None;\n{}acc{n}\n}}", ann, t)
                    }
                    "find_map" => {
                        let f = arg.unwrap();
                        let ens = format!("acc{n}.is_none() ==> it{n} >= end{n},\n");
                        let t = self.generate(&src, &st, &ens, &mut |s, item| {
                            let c = s.apply(&f, &item)?;
                            s.skel.push('?');
                            Ok(format!("acc{n} = {};\nif acc{n}.is_some() {{ break; }}\n", c))
                        })?;
                        let ann = self.o.accty.get(&n).map(|t| format!(": {}", t)).unwrap_or_default();
                        format!("{{\nlet mut acc{n}{} = None;\n{}acc{n}\n}}", ann, t)
                    }
                    "next" => {
                        let t = self.generate(&src, &st, "", &mut |_s, item| Ok(format!("acc{n} = Some({}); break;\n", item)))?;
                        let ann = self.o.accty.get(&n).map(|t| format!(": {}", t)).unwrap_or_default();
                        format!("{{\nlet mut acc{n}{} = None;\n{}acc{n}\n}}", ann, t)
                    }
                    "reduce" => {
                        let f = match arg.as_ref().map(strip) { Some(Expr::Closure(c)) if c.inputs.len() == 2 => c.clone(), _ => return err("reduce", m) };
                        let t = self.generate(&src, &st, "", &mut |s, item| {
                            let (p, _) = s.pat(&f.inputs[0])?;
                            let (q, _) = s.pat(&f.inputs[1])?;
                            let b = s.expr(&f.body)?;
                            Ok(format!("let itm__q = {};\nacc{n} = match acc{n} {{ None => Some(itm__q), Some({}) => {{ let {} = itm__q; Some({}) }} }};\n", item, p, q, b))
                        })?;
                        let ann = self.o.accty.get(&n).map(|t| format!(": {}", t)).unwrap_or_default();
                        format!("{{\nlet mut acc{n}{} = None;\n{}acc{n}\n}}", ann, t)
                    }
                    _ => return err("iterator terminal", m),
                });
            }
        }
        if name == "extend" && m.args.len() == 1 {
            if let Some((src, st)) = self.chain(&m.args[0])? {
                let r = self.place(&m.receiver)?;
                let t = self.generate(&src, &st, "", &mut |_s, item| Ok(format!("{}.push({});\n", r, item)))?;
                return Ok(format!("{{\n{}}}", t));
            }
        }
        // Option::map / and_then with a closure (an iterator would have been taken above)
        if (name == "map" || name == "and_then") && m.args.len() == 1 && self.chain(&m.receiver)?.is_none() {
            if let Expr::Closure(c) = strip(&m.args[0]) {
                if c.inputs.len() == 1 {
                    let r = self.expr(&m.receiver)?;
                    self.skel.push('?');
                    self.ntmp += 1;
                    let t = format!("opt__{}", self.ntmp);
                    let b = self.apply(&m.args[0], &t)?;
                    return Ok(if name == "map" { format!("match {} {{ Some({t}) => Some({}), None => None }}", r, b) }
                        else { format!("match {} {{ Some({t}) => {}, None => None }}", r, b) });
                }
            }
        }
        // x.sort_by(|a, b| ..): the comparator stays a closure; its contract is given by @closure sort
        if name == "sort_by" && m.args.len() == 1 {
            if let (Expr::Closure(c), Some(spec)) = (strip(&m.args[0]), self.s.closures.get("sort").cloned()) {
                let (ty, contract) = match spec.find('\n') { Some(k) => (spec[..k].trim().to_string(), spec[k..].to_string()), None => return err("contract of the comparator", m) };
                let mut ps = vec![];
                for q in &c.inputs {
                    let (n, post) = self.pat(q)?;
                    if !post.is_empty() { return err("comparator parameter", m); }
                    self.refs.insert(n.clone());
                    ps.push(format!("{}: &{}", n, ty));
                }
                let r = self.place(strip(&m.receiver))?;
                self.skel.push_str("S");
                let b = self.expr(&c.body)?;
                self.used.insert("closure sort".into());
                return Ok(format!("vsort_by(&mut {}, |{}| -> (o: Ordering){}\n{{\n{}\n}})", r, ps.join(", "), contract, b));
            }
        }
        let mut args = vec![];
        for x in &m.args {
            if matches!(strip(x), Expr::Closure(_)) { return err("closure argument", m); }
            args.push(self.expr(x)?);
        }
        let rtoks = strip(&m.receiver);
        let r = match rtoks {
            _ if ["push", "insert", "extend", "pop", "push_back", "pop_front", "push_front", "remove"].contains(&name.as_str()) => self.place(rtoks)?,
            _ => self.expr(&m.receiver)?,
        };
        Ok(match name.as_str() {
            "clone" => format!("{}.vclone()", r),
            "to_vec" if self.o.calls.contains_key("to_vec") => format!("{}.to_vec()", r),
            "to_vec" => format!("vto_vec(&{})", r),
            "unwrap" if self.o.unwrap => format!("vunwrap({})", r),
            _ => {
                let nm = self.o.calls.get(&format!(".{}", name)).cloned().unwrap_or(name);
                match turbo {
                    Some(t) if !t.is_empty() => format!("{}.{}::<{}>({})", r, nm, t, args.join(", ")),
                    _ => format!("{}.{}({})", r, nm, args.join(", ")),
                }
            }
        })
    }
}
