//! Extracts functions from /repo/src into Verus text, following a unit file.
//!   verif-extract SRC_DIR SPEC_DIR UNIT BASELINE OUT.rs OUT.json [--drop FN]... [--probe FN]
mod lower;
use std::collections::{BTreeMap, HashMap};
use lower::{Low, Opts, Spec};
use quote::ToTokens;
use syn::*;

struct Ctx {
    src: String,
    specs: String,
    unit: String,
    files: HashMap<String, File>,
    baseline: HashMap<String, (Vec<String>, String)>,
    drop: Vec<String>,
    probe: u32,
    templates: HashMap<String, (Vec<String>, Vec<String>)>,
    gsub: HashMap<String, String>,
    out: String,
    info: Vec<Info>,
    import: usize,
    structs: Vec<String>,
}

struct Info {
    label: String,
    file: String,
    key: String,
    imported: bool,
    skel: String,
    base_skel: Option<String>,
    binds: Vec<String>,
    error: Option<String>,
    unused: Vec<String>,
    lines: usize,
}

fn norm(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while let Some(d) = it.peek() {
                if d.is_alphanumeric() || *d == '_' { it.next(); } else { break; }
            }
        } else if !c.is_whitespace() {
            o.push(c);
        }
    }
    o
}

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn hidden(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = norm(&toks(a));
        s.contains("cfg(test)") || s.contains("verif_hooks") || s == "#[test]"
    })
}

fn find<'a>(items: &'a [Item], key: &str) -> Option<(&'a Signature, &'a Block)> {
    let (owner, name) = match key.rfind("::") {
        Some(k) if !key[k..].contains('>') => (Some(&key[..k]), &key[k + 2..]),
        _ => (None, key),
    };
    let name = name.trim();
    for i in items {
        match (i, owner) {
            (Item::Fn(f), None) if !hidden(&f.attrs) && f.sig.ident == name => return Some((&f.sig, &f.block)),
            (Item::Mod(m), _) if !hidden(&m.attrs) && m.ident != "test" && m.ident != "tests" => {
                if let Some((_, it)) = &m.content {
                    if let Some(x) = find(it, key) { return Some(x); }
                }
            }
            (Item::Impl(im), Some(o)) if !hidden(&im.attrs) => {
                let ok = match (o.find(" for "), &im.trait_) {
                    (Some(k), Some((_, t, _))) => norm(&o[..k]) == norm(&toks(t)) && norm(&o[k + 5..]) == norm(&toks(&im.self_ty)),
                    (None, None) => {
                        let t = norm(&toks(&im.self_ty));
                        let o = norm(o);
                        t == o || t.split('<').next() == Some(o.as_str())
                    }
                    _ => false,
                };
                if !ok { continue; }
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        if f.sig.ident == name && !hidden(&f.attrs) { return Some((&f.sig, &f.block)); }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn rename_words(s: &str, map: &HashMap<String, String>) -> String {
    if map.is_empty() { return s.to_string(); }
    let mut o = String::new();
    let mut w = String::new();
    let mut prev_dot = false;
    let flush = |w: &mut String, o: &mut String, dot: bool| {
        if !w.is_empty() {
            match map.get(w.as_str()) {
                Some(x) if !dot => o.push_str(x),
                _ => o.push_str(w),
            }
            w.clear();
        }
    };
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            if w.is_empty() { prev_dot = o.ends_with('.') && !o.ends_with(".."); }
            w.push(c);
        } else {
            flush(&mut w, &mut o, prev_dot);
            o.push(c);
        }
    }
    flush(&mut w, &mut o, prev_dot);
    o
}

impl Ctx {
    fn file(&mut self, f: &str) -> std::result::Result<File, String> {
        if let Some(x) = self.files.get(f) { return Ok(x.clone()); }
        let t = std::fs::read_to_string(format!("{}/{}", self.src, f)).map_err(|e| format!("{}: {}", f, e))?;
        let x = parse_file(&t).map_err(|e| format!("{}: {}", f, e))?;
        self.files.insert(f.into(), x.clone());
        Ok(x)
    }

    fn lines(&mut self, lines: &[String]) {
        let mut i = 0;
        while i < lines.len() {
            let l = &lines[i];
            let t = l.trim();
            let w: Vec<&str> = t.split_whitespace().collect();
            match w.first().copied() {
                Some("@template") => {
                    let mut body = vec![];
                    i += 1;
                    while lines[i].trim() != "@endtemplate" { body.push(lines[i].clone()); i += 1; }
                    self.templates.insert(w[1].into(), (w[2..].iter().map(|s| s.to_string()).collect(), body));
                }
                Some("@expand") => {
                    let (ps, body) = self.templates.get(w[1]).expect("template").clone();
                    let mut m = HashMap::new();
                    for a in &w[2..] {
                        let (k, v) = a.split_once('=').unwrap();
                        m.insert(k.to_string(), v.replace('~', " "));
                    }
                    for p in &ps { assert!(m.contains_key(p), "template parameter {}", p); }
                    let body: Vec<String> = body.iter().map(|b| {
                        let mut b = b.clone();
                        for (k, v) in &m { b = b.replace(&format!("${}", k), v); }
                        b
                    }).collect();
                    // conditional lines: "?K=V text"
                    let body: Vec<String> = body.into_iter().filter_map(|b| {
                        if let Some(r) = b.trim_start().strip_prefix('?') {
                            let (c, rest) = r.split_once(' ').unwrap_or((r, ""));
                            let (k, v) = c.split_once('=').expect("condition");
                            if m.get(k).map(|s| s.as_str()) == Some(v) { Some(rest.to_string()) } else { None }
                        } else { Some(b) }
                    }).collect();
                    self.lines(&body);
                }
                Some("@include") | Some("@import") => {
                    let imp = w[0] == "@import";
                    let p = format!("{}/{}", self.specs, w[1]);
                    let t = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {}", p, e));
                    let v: Vec<String> = t.lines().map(|s| s.to_string()).collect();
                    if imp { self.import += 1; }
                    self.lines(&v);
                    if imp { self.import -= 1; }
                }
                Some("@globalsub") => {
                    for a in &w[1..] {
                        let (k, v) = a.split_once('=').unwrap();
                        self.gsub.insert(k.into(), v.into());
                    }
                }
                Some("@struct") => self.strct(&w[1..]),
                Some("@fn") => {
                    let mut body = vec![];
                    let head = t["@fn".len()..].trim().to_string();
                    i += 1;
                    while lines[i].trim() != "@endfn" { body.push(lines[i].clone()); i += 1; }
                    self.func(&head, &body);
                }
                Some(x) if x.starts_with("@#") => {}
                Some(x) if x.starts_with('@') && x != "@" && !x.starts_with("@!") => panic!("unknown directive {}", t),
                _ => {
                    // lemmas of an imported module are proved where the module is included
                    if self.import > 0 && t.starts_with("pub proof fn") { self.out += "#[verifier::external_body]\n"; }
                    self.out += l;
                    self.out += "\n";
                }
            }
            i += 1;
        }
    }

    fn opts(&self) -> Opts {
        let mut o = Opts::default();
        o.sub = self.gsub.clone();
        o.retname = "res".into();
        o
    }

    fn strct(&mut self, w: &[&str]) {
        // @struct FILE NAME [derive X] [sub A=B ...]
        let (f, name) = (w[0], w[1]);
        let mut o = self.opts();
        o.keep_lt = true;
        for a in &w[2..] {
            if let Some((k, v)) = a.split_once('=') { o.sub.insert(k.into(), v.into()); }
        }
        let r = self.file(f).and_then(|file| {
            for i in &file.items {
                if let Item::Struct(s) = i {
                    if s.ident == name {
                        let spec = Spec::default();
                        let low = new_low(&o, &spec, name);
                        let mut out = String::new();
                        let gens: Vec<String> = s.generics.params.iter().filter_map(|g| match g {
                            GenericParam::Type(t) => {
                                let n = t.ident.to_string();
                                match o.sub.get(&n) { Some(_) => None, None => Some(n) }
                            }
                            GenericParam::Lifetime(l) => Some(toks(&l.lifetime)),
                            _ => None,
                        }).collect();
                        let g = if gens.is_empty() { String::new() } else { format!("<{}>", gens.join(", ")) };
                        let newname = o.sub.get(name).cloned().unwrap_or(name.to_string());
                        out += &format!("pub struct {}{} {{\n", newname, g);
                        for fl in &s.fields {
                            let ty = toks(&fl.ty);
                            out += &format!("pub {}: {},\n", fl.ident.as_ref().unwrap(), low.ty(&fl.ty)?);
                        }
                        return Ok(out + "}\n");
                    }
                }
            }
            Err(format!("struct {} not found in {}", name, f))
        });
        match r {
            Ok(t) => self.out += &t,
            Err(e) => self.structs.push(e),
        }
    }

    fn func(&mut self, head: &str, body: &[String]) {
        let (file, key) = head.split_once(" :: ").expect("@fn FILE :: KEY");
        let (file, key) = (file.trim().to_string(), key.trim().to_string());
        let mut o = self.opts();
        let mut spec = Spec::default();
        let (mut name, mut rettype, mut nopub, mut generics) = (None, None, false, String::new());
        let mut ptypes: HashMap<String, String> = HashMap::new();
        let mut selfparam: Option<String> = None;
        let mut section: Option<String> = None;
        let mut inst = String::new();
        let mut cutspec = String::new();

        for l in body {
            let t = l.trim();
            if t.starts_with('@') && !t.starts_with("@!") {
                let w: Vec<&str> = t.split_whitespace().collect();
                match w[0] {
                    "@spec" => section = Some("spec".into()),
                    "@loop" => section = Some(format!("loop {}", w[1])),
                    "@at" => section = Some(format!("at {}", w[1..].join(" "))),
                    "@closure" => section = Some(format!("closure {}", w[1])),
                    x => panic!("unknown section {}", x),
                }
                continue;
            }
            match &section {
                None => {
                    let w: Vec<&str> = t.split_whitespace().collect();
                    if w.is_empty() { continue; }
                    match w[0] {
                        "as" => name = Some(w[1].to_string()),
                        "inst" => inst = format!("[{}]", w[1]),
                        "sub" => for a in &w[1..] {
                            let (k, v) = a.split_once('=').unwrap();
                            o.sub.insert(k.into(), v.replace('~', " "));
                        },
                        "native" => o.native = true,
                        "cmp" => o.cmp = true,
                        "unwrap" => o.unwrap = true,
                        "byref" => for a in &w[1..] { o.byref.insert(a.to_string()); },
                        "vseq" => for a in &w[1..] { o.vseq.insert(a.to_string()); },
                        "lifetimes" => o.keep_lt = true,
                        "vidx" => for a in &w[1..] { o.vidx.insert(a.to_string()); },
                        "collect" => { o.collect.insert(w[1].parse().unwrap(), w[2..].join(" ")); }
                        "letty" => { o.letty.insert(w[1].into(), w[2..].join(" ")); }
                        "accty" => { o.accty.insert(w[1].parse().unwrap(), w[2..].join(" ")); }
                        "sumty" => o.sumty = Some(w[1].into()),
                        "lit" => o.lit = Some(w[1].into()),
                        "replit" => o.replit = Some(w[1].into()),
                        "litops" => o.litops = Some(w[1].into()),
                        "call" => for a in &w[1..] {
                            let (k, v) = a.split_once('=').unwrap();
                            o.calls.insert(k.into(), v.into());
                        },
                        "captures" => o.captures.push((w[1].into(), w[2..].join(" "))),
                        "ret" => o.retname = w[1].into(),
                        "rettype" => rettype = Some(w[1..].join(" ")),
                        "nopub" => nopub = true,
                        "generics" => generics = w[1..].join(" "),
                        "self" => selfparam = Some(w[1..].join(" ")),
                        "param" => { ptypes.insert(w[1].into(), w[2..].join(" ")); }
                        "attr" => spec.attrs.push(w[1..].join(" ")),
                        "cut" => cutspec = w[1..].join(" "),
                        x => panic!("unknown option {} in {}", x, head),
                    }
                }
                Some(s) => {
                    let e = if s == "spec" { &mut spec.spec }
                        else if let Some(n) = s.strip_prefix("loop ") { spec.loops.entry(n.parse().unwrap()).or_default() }
                        else if let Some(k) = s.strip_prefix("at ") { spec.at.entry(k.into()).or_default() }
                        else { spec.closures.entry(s["closure ".len()..].into()).or_default() };
                    e.push_str(l);
                    e.push('\n');
                }
            }
        }
        let _ = cutspec;
        let label = format!("{}{}", key, inst);
        let mut info = Info { label: label.clone(), file: file.clone(), key: key.clone(), imported: self.import > 0, skel: String::new(),
            base_skel: None, binds: vec![], error: None, unused: vec![], lines: 0 };
        let f = match self.file(&file) {
            Ok(f) => f,
            Err(e) => { info.error = Some(e); self.info.push(info); return; }
        };
        let (sig, block) = match find(&f.items, &key) {
            Some(x) => x,
            None => { info.error = Some(format!("{} not found in {}", key, file)); self.info.push(info); return; }
        };
        info.lines = block.span_lines();
        let base = self.baseline.get(&format!("{}\t{}", file, key)).cloned();
        let (mut text, mut failed) = (String::new(), None);
        let fname = name.clone().unwrap_or(sig.ident.to_string());
        // first pass: names and control structure
        let mut nospec = Spec::default();
        nospec.closures = spec.closures.clone();
        let mut rename = HashMap::new();
        {
            let mut low = new_low(&o, &nospec, &fname);
            match signature(&mut low, sig, &fname, &rettype, &ptypes, &selfparam) {
                Ok((_, pre)) => {
                    let _ = pre;
                    if let Err(e) = low.block_body(block, true) { failed = Some(e); }
                }
                Err(e) => failed = Some(e),
            }
            info.binds = low.binds.clone();
            info.skel = low.skel.clone();
            if let Some((b, sk)) = &base {
                info.base_skel = Some(format!("{}#{}", sk, b.len()));
                if b.len() == info.binds.len() && *sk == info.skel {
                    // parameters keep their places; of the other names, those that vanished became those that are new
                    let np = sig.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).count().min(b.len());
                    let pairs: Vec<_> = b.iter().zip(&info.binds).collect();
                    let mut clash = false;
                    for (x, y) in pairs.iter().take(np) { if x != y { rename.insert((*x).clone(), (*y).clone()); } }
                    let (old, new): (Vec<_>, Vec<_>) = pairs.iter().skip(np).cloned().unzip();
                    let mut gone: Vec<&String> = vec![];
                    let mut fresh: Vec<&String> = vec![];
                    for x in &old { if !info.binds.contains(x) && !gone.contains(x) { gone.push(x); } }
                    for y in &new { if !b.contains(y) && !fresh.contains(y) { fresh.push(y); } }
                    if gone.len() == fresh.len() {
                        for (x, y) in gone.iter().zip(&fresh) {
                            if let Some(z) = rename.get(*x) { if z != *y { clash = true; } }
                            rename.insert((*x).clone(), (*y).clone());
                        }
                    }
                    if clash { rename.clear(); }
                } else if !info.binds.is_empty() {
                    // parameters keep their places even if the body was restructured
                    let np = sig.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).count();
                    for (x, y) in b.iter().zip(&info.binds).take(np) { if x != y { rename.insert(x.clone(), y.clone()); } }
                }
            }
        }
        let spec = Spec {
            spec: rename_words(&spec.spec, &rename),
            loops: spec.loops.iter().map(|(k, v)| (*k, rename_words(v, &rename))).collect(),
            at: spec.at.iter().map(|(k, v)| (match k.strip_prefix("let ") { Some(n) => format!("let {}", rename_words(n, &rename)), None => k.clone() }, rename_words(v, &rename))).collect(),
            closures: spec.closures.iter().map(|(k, v)| (rename_words(k, &rename), rename_words(v, &rename))).collect(),
            attrs: spec.attrs.clone(),
        };
        o.letty = o.letty.iter().map(|(k, v)| (rename_words(k, &rename), v.clone())).collect();
        let mut spec = spec;
        if self.import == 0 && !self.drop.contains(&label) {
            if self.probe == 1 {
                // hide headers have to come first
                let t = spec.at.entry("start".into()).or_default();
                let k = if t.trim_start().starts_with("hide(") { t.find('\n').map(|k| k + 1).unwrap_or(0) } else { 0 };
                t.insert_str(k, "    assert(false);\n");
            }
            if self.probe == 2 { spec.at.entry("end".into()).or_default().push_str("    proof { assert(false); }\n"); }
        }
        let spec = spec;
        let vis = if nopub { "" } else { "pub " };
        let drop_body = self.import > 0 || self.drop.contains(&label) || failed.is_some();
        let mut low = new_low(&o, &spec, &fname);
        let attrs: String = spec.attrs.iter().map(|a| format!("{}\n", a)).collect();
        match signature(&mut low, sig, &fname, &rettype, &ptypes, &selfparam) {
            Ok((mut sg, pre)) => {
                if !generics.is_empty() { sg = sg.replacen('(', &format!("{}(", generics), 1); }
                if drop_body {
                    text += &format!("#[verifier::external_body]\n{}{}\n{}\n{{ unimplemented!() }}\n", vis, sg, spec.spec);
                } else {
                    match low.block_body(block, true) {
                        Ok(b) => {
                            for h in &low.hoisted { text += &format!("@H{}\n", h); }
                            let st = low_at_start(&mut low);
                            text += &format!("#[verifier::spinoff_prover] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n{}{}{}\n{}\n{{\n{}{}{}}}\n", attrs, vis, sg, spec.spec, pre, st, b);
                            for k in spec.at.keys() {
                                if !low.used.contains(k) { info.unused.push(format!("at {}", k)); }
                            }
                            for k in spec.loops.keys() {
                                if !low.used.contains(&format!("loop {}", k)) { info.unused.push(format!("loop {}", k)); }
                            }
                        }
                        Err(e) => failed = Some(e),
                    }
                }
            }
            Err(e) => failed = Some(e),
        }
        if self.drop.contains(&label) && failed.is_none() { failed = Some("dropped after a compile error".into()); }
        info.error = failed;
        // hoisted closures come before the function
        let mut main = String::new();
        let mut hoisted = String::new();
        for (k, part) in text.split("@H").enumerate() {
            if k == 0 { main += part; continue; }
            // each hoisted function ends where the next begins; the last is followed by the function
            match part.find("#[verifier::loop_isolation") {
                Some(p) => { hoisted += &part[..p]; main += &part[p..]; }
                None => hoisted += part,
            }
        }
        self.out += &format!("// >>fn {}\n{}{}// <<fn {}\n", label, if hoisted.is_empty() { String::new() } else { format!("#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n{}", hoisted) }, main, label);
        self.info.push(info);
    }
}

fn low_at_start(low: &mut Low) -> String {
    match low.s.at.get("start") {
        Some(t) => { low.used.insert("start".into()); format!("{}\n", t.trim_end()) }
        None => String::new(),
    }
}

trait SpanLines { fn span_lines(&self) -> usize; }
impl SpanLines for Block {
    fn span_lines(&self) -> usize {
        let a = self.brace_token.span.open().start().line;
        let b = self.brace_token.span.close().end().line;
        b - a + 1
    }
}

fn new_low<'a>(o: &'a Opts, s: &'a Spec, fname: &str) -> Low<'a> {
    Low { o, s, nloop: 0, nif: 0, nret: 0, ntmp: 0, skel: String::new(), binds: vec![], lets: HashMap::new(), callc: HashMap::new(),
        refs: Default::default(), hoisted: vec![], hoist_names: HashMap::new(), hoist_args: HashMap::new(), fname: fname.into(), used: Default::default(), ret_ty: None }
}

fn signature(low: &mut Low, sig: &Signature, fname: &str, rettype: &Option<String>, ptypes: &HashMap<String, String>, selfparam: &Option<String>) -> std::result::Result<(String, String), String> {
    let mut ps = vec![];
    let mut pre = String::new();
    for (k, a) in sig.inputs.iter().enumerate() {
        match a {
            FnArg::Receiver(r) => {
                if let Some(s) = selfparam { ps.push(s.clone()); continue; }
                ps.push(match (r.reference.is_some(), r.mutability.is_some()) {
                    (true, true) => "&mut self".into(),
                    (true, false) => { low.refs.insert("self".into()); "&self".into() }
                    (false, true) => { pre += "let mut self_ = self;\n"; "self".into() }
                    (false, false) => "self".to_string(),
                });
            }
            FnArg::Typed(t) => {
                match &*t.pat {
                    Pat::Ident(i) => {
                        let n = i.ident.to_string();
                        low.binds.push(n.clone());
                        let ty = match ptypes.get(&n) { Some(x) => x.clone(), None => low.ty(&t.ty)? };
                        if ty.starts_with('&') { low.refs.insert(n.clone()); }
                        if i.mutability.is_some() { pre += &format!("let mut {n} = {n};\n"); }
                        ps.push(format!("{}: {}", n, ty));
                    }
                    Pat::Tuple(tp) => {
                        let ty = low.ty(&t.ty)?;
                        ps.push(format!("arg{}: {}", k, ty));
                        let mut names = vec![];
                        for x in &tp.elems {
                            match x {
                                Pat::Ident(i) => { low.binds.push(i.ident.to_string()); names.push(i.ident.to_string()); }
                                _ => return lower::err("parameter pattern", &t.pat),
                            }
                        }
                        pre += &format!("let ({}) = arg{};\n", names.join(", "), k);
                    }
                    _ => return lower::err("parameter pattern", &t.pat),
                }
            }
        }
    }
    let ret = match (rettype, &sig.output) {
        (Some(t), _) => Some(t.clone()),
        (None, ReturnType::Type(_, t)) => Some(low.ty(t)?),
        _ => None,
    };
    low.ret_ty = ret.clone();
    let r = match ret { Some(t) => format!(" -> ({}: {})", low.o.retname, t), None => String::new() };
    Ok((format!("fn {}({}){}", fname, ps.join(", "), r), pre))
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut baseline = HashMap::new();
    if let Ok(t) = std::fs::read_to_string(&a[4]) {
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() == 4 {
                baseline.insert(format!("{}\t{}", f[0], f[1]), (f[2].split_whitespace().map(|s| s.to_string()).collect(), f[3].to_string()));
            }
        }
    }
    let mut drop = vec![];
    let mut probe = 0;
    let mut i = 7;
    while i + 1 < a.len() {
        if a[i] == "--drop" { drop.push(a[i + 1].clone()); }
        if a[i] == "--probe" { probe = a[i + 1].parse().unwrap(); }
        i += 2;
    }
    let mut c = Ctx { src: a[1].clone(), specs: a[2].clone(), unit: a[3].clone(), files: HashMap::new(), baseline, drop, probe,
        templates: HashMap::new(), gsub: HashMap::new(), out: String::new(), info: vec![], import: 0, structs: vec![] };
    let p = format!("{}/{}", c.specs, c.unit);
    let t = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {}", p, e));
    let v: Vec<String> = t.lines().map(|s| s.to_string()).collect();
    c.lines(&v);
    std::fs::write(&a[5], &c.out).unwrap();
    let mut j = String::from("{\"functions\":[");
    let _: BTreeMap<String, String> = BTreeMap::new();
    for (k, f) in c.info.iter().enumerate() {
        if k > 0 { j.push(','); }
        j += &format!("{{\"label\":{},\"file\":{},\"key\":{},\"imported\":{},\"skel\":{},\"base_skel\":{},\"binds\":[{}],\"error\":{},\"unused\":[{}],\"lines\":{}}}\n",
            js(&f.label), js(&f.file), js(&f.key), f.imported, js(&format!("{}#{}", f.skel, f.binds.len())),
            f.base_skel.as_ref().map(|s| js(s)).unwrap_or("null".into()),
            f.binds.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            f.error.as_ref().map(|s| js(s)).unwrap_or("null".into()),
            f.unused.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), f.lines);
    }
    j += &format!("],\"structs\":[{}]}}", c.structs.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    std::fs::write(&a[6], j).unwrap();
}
