use crate::arith::{aff, mat, unaff, Oth, Wd};
use crate::ctx::*;
use crate::ensure;
use crate::oracle::{self, q, qr, Q, QM};
use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::{One, Signed, ToPrimitive, Zero};
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap};
use rust_systre::io::parse_cgd_blocks::{parse_blocks, parse_lines, Block, Entry, EntryType, Note};
use rust_systre::io::parse_cgd_line::{parse_cgd_line, Field};
use rust_systre::spacegroups::parse_operator::parse_operator;
use rust_systre::spacegroups::parse_table::{parse_space_group_table, Tables};
use rust_systre::spacegroups::types::{Centering, CrystalSystem};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Error, ErrorKind, Read};

// ---------------------------------------------------------------- T01

type Fr = (i64, i64);
fn ws(g: &mut Rng) -> &'static str { *g.pick(&["", "", "", " ", "  ", "\t"]) }

/// one coordinate: text, coefficients of x, y, z and constant
fn coordinate(g: &mut Rng, d: usize) -> (String, Vec<Q>) {
    let mut txt = String::new();
    let mut val = vec![q(0); 4];
    for k in 0..g.us(1, 4) {
        let sign = if k == 0 && g.chance(1, 2) { 0 } else if g.chance(1, 2) { 1 } else { -1 };
        if k > 0 { txt.push_str(ws(g)); }
        if sign != 0 { txt.push(if sign > 0 { '+' } else { '-' }); txt.push_str(ws(g)); }
        let ax = g.us(0, d);                     // d stands for the constant
        let mut f: Fr = (1, 1);
        let num = ax == d || g.chance(1, 2);
        if num {
            f.0 = if g.chance(1, 8) { 0 } else { g.int(1, 12) };
            if g.chance(1, 12) { txt.push('0'); }
            txt.push_str(&f.0.to_string());
            if g.chance(1, 2) {
                f.1 = g.int(1, 12);
                txt.push_str(&format!("{}/{}{}", ws(g), ws(g), f.1));
            }
        }
        if ax < d {
            if num { if g.chance(1, 3) { txt.push('*') } else { txt.push_str(ws(g)) } }
            txt.push(['x', 'y', 'z'][ax]);
        }
        let v = qr(f.0 * if sign < 0 { -1 } else { 1 }, f.1);
        val[if ax < d { ax } else { 3 }] += v;
    }
    (txt, val)
}

fn opstring(g: &mut Rng, d: usize) -> (String, QM, Vec<Q>) {
    let cs: Vec<_> = (0..d).map(|_| coordinate(g, d)).collect();
    let mut txt = ws(g).to_string();
    for (i, c) in cs.iter().enumerate() {
        if i > 0 { txt.push_str(ws(g)); txt.push(','); txt.push_str(ws(g)); }
        txt.push_str(&c.0);
    }
    txt.push_str(ws(g));
    (txt, cs.iter().map(|c| c.1[..d].to_vec()).collect(), cs.iter().map(|c| c.1[3].clone()).collect())
}

fn r32(x: &Ratio<i32>) -> Q { qr(*x.numer() as i64, *x.denom() as i64) }

/// independent evaluator of a full operator text
fn evaluate(s: &str) -> Option<(QM, Vec<Q>)> {
    let t: Vec<char> = s.chars().filter(|c| *c != ' ' && *c != '\t').collect();
    let parts: Vec<&[char]> = t.split(|c| *c == ',').collect();
    let d = parts.len();
    let (mut m, mut sh) = (vec![], vec![]);
    for p in parts {
        let mut v = vec![q(0); 4];
        let mut i = 0;
        if p.is_empty() { return None }
        while i < p.len() {
            let mut f = q(1);
            if p[i] == '+' || p[i] == '-' { if p[i] == '-' { f = q(-1); } i += 1; } else if i > 0 { return None }
            let num = |i: &mut usize| -> Option<Q> {
                let j = *i;
                while *i < p.len() && p[*i].is_ascii_digit() { *i += 1; }
                p[j..*i].iter().collect::<String>().parse::<BigInt>().ok().map(Q::from)
            };
            let mut any = false;
            if i < p.len() && p[i].is_ascii_digit() {
                any = true;
                f = f * num(&mut i)?;
                if i < p.len() && p[i] == '/' { i += 1; let n = num(&mut i)?; if n.is_zero() { return None } f = f / n; }
                if i < p.len() && p[i] == '*' { i += 1; if i >= p.len() || !"xyz".contains(p[i]) { return None } }
            }
            let mut k = 3;
            if i < p.len() { if let Some(a) = "xyz".find(p[i]) { k = a; any = true; i += 1; } }
            if !any { return None }
            v[k] += f;
        }
        if d > 3 || v[d..3].iter().any(|x| !x.is_zero()) { return None }
        m.push(v[..d].to_vec());
        sh.push(v[3].clone());
    }
    Some((m, sh))
}

fn is_op(got: &(Vec<Vec<Ratio<i32>>>, Vec<Ratio<i32>>), m: &QM, s: &Vec<Q>) -> bool {
    got.0.iter().map(|r| r.iter().map(r32).collect::<Vec<_>>()).collect::<QM>() == *m &&
    got.1.iter().map(r32).collect::<Vec<_>>() == *s
}

fn accepted(txt: &str) -> Result<(), String> {
    if let Ok((rest, op)) = parse_operator(txt) {
        ensure!(txt.ends_with(rest), "the rest {:?} is no suffix", rest);
        let used = &txt[..txt.len() - rest.len()];
        match evaluate(used) {
            None => return Err(format!("{:?} is accepted with the rest {:?}", used, rest)),
            Some((m, s)) => ensure!(is_op(&op, &m, &s), "{:?} is read as {:?}", used, op),
        }
    }
    let a = AffineMap::<Q, Wd>::from_string(txt);
    if let Some(a) = &a {
        let (m, s) = evaluate(txt).ok_or(format!("{:?} is accepted as a whole", txt))?;
        ensure!(unaff(a) == (m.clone(), s), "affine map {:?}", unaff(a));
        let c = CoordinateMap::<Q, Wd, Oth>::from_string(txt);
        ensure!(c.is_some() == !oracle::det(&m).is_zero(), "coordinate map with determinant {}", oracle::det(&m));
    } else {
        ensure!(CoordinateMap::<Q, Wd, Oth>::from_string(txt).is_none(), "coordinate map from a text that is no operator");
    }
    Ok(())
}

fn mutate(g: &mut Rng, s: &str, alpha: &[char]) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..g.us(1, 4) {
        let i = g.us(0, c.len());
        match g.us(0, 3) {
            0 => c.insert(i, *g.pick(alpha)),
            1 => { if i < c.len() { c.remove(i); } },
            2 => { if i < c.len() { c[i] = *g.pick(alpha); } },
            _ => { if i < c.len() { let j = g.us(i, c.len() - 1); let t: Vec<char> = c[i..=j].to_vec(); for x in t { c.push(x); } } },
        }
        if c.len() > 200 { break }
    }
    c.into_iter().collect()
}

fn opfmt(m: &QM, s: &Vec<Q>) -> String {
    (0..m.len()).map(|i| {
        let mut t: Vec<String> = m[i].iter().enumerate().filter(|(_, x)| !x.is_zero())
            .map(|(j, x)| format!("{}{}*{}", if x.is_negative() { "-" } else { "+" }, x.abs(), ["x", "y", "z"][j])).collect();
        t.push(format!("{}{}", if s[i].is_negative() { "-" } else { "+" }, s[i].abs()));
        t.join("")
    }).collect::<Vec<_>>().join(", ")
}

fn regular(g: &mut Rng, d: usize) -> (QM, Vec<Q>) {
    loop {
        let m: QM = (0..d).map(|_| (0..d).map(|_| if g.chance(1, 2) { q(g.int(-1, 1)) } else { qr(g.int(-3, 3), g.int(1, 3)) }).collect()).collect();
        if !oracle::det(&m).is_zero() {
            return (m, (0..d).map(|_| if g.chance(1, 3) { q(g.int(-1, 1)) } else { qr(g.int(-7, 7), g.int(1, 6)) }).collect())
        }
    }
}

const SYSTEMS: [&str; 10] = ["oblique", "rectangular", "square", "hexagonal", "cubic", "orthorhombic", "tetragonal", "trigonal", "monoclinic", "triclinic"];
const CENTERINGS: [&str; 9] = ["p", "c", "P", "F", "I", "R", "A", "B", "C"];
fn sys(i: usize) -> CrystalSystem {
    use CrystalSystem::*;
    match i { 0 => Oblique, 1 => Rectangular, 2 => Square, 3 => Hexagonal, 4 => Cubic, 5 => Orthorhombic, 6 => Tetragonal, 7 => Trigonal, 8 => Monoclinic, _ => Triclinic }
}
fn cen(i: usize) -> Centering {
    use Centering::*;
    match i { 0 => Primitive2d, 1 => Centered2d, 2 => Primitive, 3 => FaceCentered, 4 => BodyCentered, 5 => Rhombohedral, 6 => AFaceCentered, 7 => BFaceCentered, _ => CFaceCentered }
}

struct Model {
    text: String,
    settings: BTreeMap<String, (String, (QM, Vec<Q>), Vec<(QM, Vec<Q>)>)>,
    alias: BTreeMap<String, String>,
    lookup: Vec<(String, usize, usize, (QM, Vec<Q>))>,
}

fn table(g: &mut Rng) -> Model {
    let mut m = Model { text: String::new(), settings: BTreeMap::new(), alias: BTreeMap::new(), lookup: vec![] };
    let mut canon = String::new();
    for k in 0..g.us(1, 5) {
        if g.chance(1, 3) { m.text.push_str(*g.pick(&["# comment\n", "\n", "   \n", "  # x,y\n", "#alias a b\n"])); }
        match g.us(0, 5) {
            0 => {
                let (a, b) = (format!("a{}", g.us(0, 3)), format!("g{}", g.us(0, 3)));
                m.text.push_str(&format!("{} {}  {}\n", g.pick(&["alias", "ALIAS", "Alias"]), a, b));
                m.alias.insert(a, b);
            },
            1 => {
                let (i, j, d) = (g.us(0, 9), g.us(0, 8), g.us(1, 3));
                let op = regular(g, d);
                let nm = format!("l{}", k);
                let sn = if g.chance(1, 3) { SYSTEMS[i].to_uppercase() } else { SYSTEMS[i].to_string() };
                m.text.push_str(&format!("{} {} {} {} {}\n", g.pick(&["lookup", "LOOKUP"]), nm, sn, CENTERINGS[j], opfmt(&op.0, &op.1)));
                m.lookup.push((nm, i, j, op));
            },
            _ => {
                let d = g.us(1, 3);
                let nm = format!("{}{}", g.pick(&["p", "P", "g", "Ia-3d:"]), k);
                let tr = if g.chance(1, 2) { (oracle::identity(d), vec![q(0); d]) } else { regular(g, d) };
                if tr == (oracle::identity(d), vec![q(0); d]) { canon = nm.clone(); }
                m.text.push_str(&format!("{}{}{}\n", nm, g.pick(&[" ", "  ", "\t"]), opfmt(&tr.0, &tr.1)));
                let ops: Vec<_> = (0..g.us(0, 4)).map(|_| {
                    let (t, l, s) = opstring(g, d);
                    m.text.push_str(&format!(" {}{}\n", ws(g), t));
                    (l, s)
                }).collect();
                m.settings.insert(nm.clone(), (canon.clone(), tr, ops));
            }
        }
    }
    m
}

fn un_c<A: Clone, B: Clone>(c: &CoordinateMap<Q, A, B>) -> (QM, Vec<Q>) { unaff(&c.forward()) }

#[cfg(not(verif_hooks))]
fn same_table(t: &Tables, m: &Model) -> Result<(), String> {
    ensure!(t.settings.len() == m.settings.len() && t.lookup.len() == m.lookup.len(), "table sizes");
    Ok(())
}

#[cfg(verif_hooks)]
fn same_table(t: &Tables, m: &Model) -> Result<(), String> {
    let names: BTreeSet<&String> = t.settings.keys().collect();
    ensure!(names == m.settings.keys().collect(), "settings {:?}", names);
    for (n, (canon, tr, ops)) in &m.settings {
        let e = &t.settings[n];
        ensure!(e.verif_name() == n && e.verif_canonical_name() == canon, "{}: named {}, group {}", n, e.verif_name(), e.verif_canonical_name());
        ensure!(un_c(e.verif_transform()) == *tr, "{}: transform {:?}", n, un_c(e.verif_transform()));
        let got: Vec<_> = e.verif_operators().iter().map(unaff).collect();
        ensure!(got == *ops, "{}: operators {:?}", n, got);
    }
    ensure!(t.alias.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<BTreeMap<_, _>>() == m.alias, "aliases {:?}", t.alias);
    ensure!(t.lookup.len() == m.lookup.len(), "{} lookup entries", t.lookup.len());
    for (l, (n, i, j, op)) in t.lookup.iter().zip(&m.lookup) {
        ensure!(l.verif_name() == n && *l.verif_system() == sys(*i) && *l.verif_centering() == cen(*j) && un_c(l.verif_from_std()) == *op, "lookup entry {}", n);
    }
    for i in 0..10 { for j in 0..9 {
        let got: Vec<_> = t.lookup_settings(sys(i), cen(j)).iter().map(|(n, c)| (n.clone(), un_c(c))).collect();
        let exp: Vec<_> = m.lookup.iter().filter(|l| l.1 == i && l.2 == j).map(|l| (l.0.clone(), l.3.clone())).collect();
        ensure!(got == exp, "settings for {} {}: {:?}", SYSTEMS[i], CENTERINGS[j], got);
    } }
    Ok(())
}

fn printed(t: &Tables, m: &Model) -> Result<(), String> {
    for (n, (canon, tr, ops)) in &m.settings {
        let txt = t.settings[n].to_string();
        let mut lines = txt.lines();
        ensure!(lines.next() == Some(&format!("Setting Name: {}", n)), "printed as {:?}", txt);
        ensure!(lines.next() == Some(&format!("Group name: {}", canon)), "printed as {:?}", txt);
        let l = lines.next().and_then(|l| l.strip_prefix("Transform: ")).ok_or(format!("printed as {:?}", txt))?;
        ensure!(evaluate(l) == Some(tr.clone()), "transform printed as {:?}", l);
        ensure!(CoordinateMap::<Q, Wd, Oth>::from_string(l).map(|c| un_c(&c)) == Some(tr.clone()), "transform printed as {:?} is not read back", l);
        ensure!(lines.next() == Some("Operators:"), "printed as {:?}", txt);
        let rest: Vec<&str> = lines.collect();
        ensure!(rest.len() == ops.len(), "{} operators printed", rest.len());
        for (l, o) in rest.iter().zip(ops) {
            ensure!(evaluate(l) == Some(o.clone()), "operator {:?} printed as {:?}", o, l);
            ensure!(AffineMap::<Q, Wd>::from_string(l).map(|a| unaff(&a)) == Some(o.clone()), "operator printed as {:?} is not read back", l);
        }
    }
    for (l, x) in t.lookup.iter().zip(&m.lookup) {
        let txt = l.to_string();
        let lines: Vec<&str> = txt.lines().collect();
        ensure!(lines.len() == 4 && lines[0] == format!("Lookup name: {}", x.0) && lines[1] == format!("Crystal system: {}", SYSTEMS[x.1])
            && lines[2] == format!("Centering: {}", CENTERINGS[x.2]), "printed as {:?}", txt);
        let o = lines[3].strip_prefix("Transform: ").ok_or(format!("printed as {:?}", txt))?;
        ensure!(evaluate(o) == Some(x.3.clone()), "transform printed as {:?}", o);
    }
    Ok(())
}

pub fn t01(ctx: &mut Ctx) {
    let n = ctx.n(2500, 20);
    let alpha: Vec<char> = "0123456789xyzXa+-*/,,. \t_é#".chars().collect();
    for k in 0..n {
        let d = ctx.rng.us(1, 3);
        let (txt, m, s) = opstring(&mut ctx.rng, d);
        let inp = format!("{:?}", txt);
        ctx.case("operator text", inp.clone(), || {
            let (rest, op) = parse_operator(&txt)?;
            ensure!(rest.is_empty(), "rest {:?}", rest);
            ensure!(op.0.len() == d && is_op(&op, &m, &s), "read as {:?}", op);
            let a = AffineMap::<Q, Wd>::from_string(&txt).ok_or("no affine map")?;
            ensure!(unaff(&a) == (m.clone(), s.clone()), "affine map {:?}", unaff(&a));
            let c = CoordinateMap::<Q, Wd, Oth>::from_string(&txt);
            if oracle::det(&m).is_zero() { ensure!(c.is_none(), "singular coordinate map accepted"); }
            else { ensure!(c.map(|c| un_c(&c)) == Some((m.clone(), s.clone())), "coordinate map"); }
            Ok(())
        });
        let bad = mutate(&mut ctx.rng, &txt, &alpha);
        ctx.case("arbitrary text", format!("{:?}", bad), || accepted(&bad));
        if k < n / 5 {
            let len = ctx.rng.us(0, 14);
            let s: String = (0..len).map(|_| *ctx.rng.pick(&alpha)).collect();
            ctx.case("arbitrary text", format!("{:?}", s), || accepted(&s));
        }
    }
    for s in ["", " ", ",", "x,", ",x", "1/0", "x/0", "1/0x", "x,y+1/0", "-", "+", "x y", "4294967296", "999999999x", "999999999/999999998+1/999999997",
        "x,y,z,x", "x,y,z,0", "x,z", "y", "x,y+z-z", "x+999999999+999999999+999999999", "1/1234567890", "--x", "+-x", "x++y", "2*3", "2 * x", "2* x", "x*2", "2xx", "x2", "1 2", "1/ 2 x",
        "x,y,z ,", "x,\u{a0}y", "\u{660}x", "x\u{301}"] {
        ctx.case("arbitrary text", format!("{:?}", s), || accepted(s));
    }
    let n = ctx.n(300, 20);
    let alpha: Vec<char> = "01/xyz+-*,  \t\n#PIaalookup".chars().collect();
    for k in 0..n {
        let m = table(&mut ctx.rng);
        let text = if k % 4 == 0 { m.text.replace('\n', "\r\n") } else { m.text.clone() };
        ctx.case("tables", format!("{:?}", text), || {
            let t = parse_space_group_table(text.as_bytes()).ok_or("not accepted")?;
            same_table(&t, &m)?;
            printed(&t, &m)
        });
        let mut lines: Vec<&str> = m.text.lines().collect();
        let bad = *ctx.rng.pick(&["alias", "alias x", "lookup", "lookup a", "lookup a cubic", "lookup a cubic P", "lookup a kubic P x,y,z", "lookup a cubic Q x,y,z",
            "lookup a cubic P x,y,x", "name", "name x,y,x", "name x,y 3", "name 1/0", "lookup a cubic P 1/0", "p z"]);
        let at = ctx.rng.us(0, lines.len());
        lines.insert(at, bad);
        let t1 = lines.join("\n");
        ctx.case("malformed tables", format!("{:?}", t1), || {
            ensure!(parse_space_group_table(t1.as_bytes()).is_none(), "accepted");
            Ok(())
        });
        let t2 = format!(" x,y\n{}", m.text);
        ctx.case("malformed tables", format!("{:?}", t2), || {
            ensure!(parse_space_group_table(t2.as_bytes()).is_none(), "operator without a setting accepted");
            Ok(())
        });
        let t3 = mutate(&mut ctx.rng, &m.text, &alpha);
        ctx.case("damaged tables", format!("{:?}", t3), || {
            if let Some(t) = parse_space_group_table(t3.as_bytes()) {
                for e in t.settings.values() { let _ = e.to_string(); }
            }
            let _ = parse_space_group_table(&mut Flaky { data: t3.as_bytes().to_vec(), pos: 0, fails: 1000 }).is_some();
            Ok(())
        });
    }
    for i in 0..10 {
        ctx.case("names of crystal systems and centerings", SYSTEMS[i].into(), || {
            ensure!(sys(i).to_string() == SYSTEMS[i], "printed as {}", sys(i));
            ensure!(CrystalSystem::from_string(SYSTEMS[i]) == Some(sys(i)), "read as {:?}", CrystalSystem::from_string(SYSTEMS[i]));
            ensure!(CrystalSystem::from_string(&SYSTEMS[i].to_uppercase()) == Some(sys(i)), "upper case");
            for s in [&SYSTEMS[i][1..], "", "x", "cub"] { ensure!(CrystalSystem::from_string(s).is_none(), "{:?} accepted", s); }
            Ok(())
        });
    }
    for i in 0..9 {
        ctx.case("names of crystal systems and centerings", CENTERINGS[i].into(), || {
            ensure!(cen(i).to_string() == CENTERINGS[i], "printed as {}", cen(i));
            ensure!(Centering::from_string(CENTERINGS[i]) == Some(cen(i)), "read as {:?}", Centering::from_string(CENTERINGS[i]));
            for s in ["", "x", "f", "PP"] { ensure!(Centering::from_string(s).is_none(), "{:?} accepted", s); }
            Ok(())
        });
    }
    shipped(ctx);
}

fn shipped(ctx: &mut Ctx) {
    let path = "/repo/src/data/sgtable.data";
    let data = match std::fs::read(path) { Ok(d) => d, Err(_) => return };
    let text = String::from_utf8_lossy(&data).to_string();
    ctx.case("shipped table", path.into(), || {
        let t = parse_space_group_table(&data[..]).ok_or("not accepted")?;
        // independent reading
        let mut canon = String::new();
        let mut cur = String::new();
        let mut m = Model { text: String::new(), settings: BTreeMap::new(), alias: BTreeMap::new(), lookup: vec![] };
        for line in text.lines() {
            let c = line.trim();
            if c.is_empty() || c.starts_with('#') { continue }
            if line.starts_with(' ') { m.settings.get_mut(&cur).unwrap().2.push(evaluate(c).unwrap()); continue }
            let f: Vec<&str> = c.split_whitespace().collect();
            match f[0].to_lowercase().as_str() {
                "alias" => { m.alias.insert(f[1].into(), f[2].into()); },
                "lookup" => m.lookup.push((f[1].into(), SYSTEMS.iter().position(|s| *s == f[2].to_lowercase()).unwrap(),
                    CENTERINGS.iter().position(|s| *s == f[3]).unwrap(), evaluate(&f[4..].join(" ")).unwrap())),
                _ => {
                    cur = f[0].into();
                    let tr = evaluate(&f[1..].join(" ")).unwrap();
                    if tr.0 == oracle::identity(tr.1.len()) && tr.1.iter().all(|x| x.is_zero()) { canon = cur.clone(); }
                    m.settings.insert(cur.clone(), (canon.clone(), tr, vec![]));
                }
            }
        }
        same_table(&t, &m)?;
        printed(&t, &m)
    });
    // (without the hooks the operators of a setting are not visible)
    #[cfg(verif_hooks)]
    // the operators of every shipped setting form a group, which the transform carries to the standard setting
    ctx.case("shipped groups", path.into(), || {
        let t = parse_space_group_table(&data[..]).ok_or("not accepted")?;
        type O = (QM, Vec<Q>);
        fn comp(a: &O, b: &O) -> O {
            let col: QM = b.1.iter().map(|x| vec![x.clone()]).collect();
            let v = oracle::mul(&a.0, &col);
            (oracle::mul(&a.0, &b.0), (0..a.1.len()).map(|i| &v[i][0] + &a.1[i]).collect())
        }
        fn red(a: &O) -> O { (a.0.clone(), oracle::fracs(&a.1)) }
        fn lattice(ops: &[O]) -> QM {
            let d = ops[0].1.len();
            let mut l = oracle::identity(d);
            for o in ops { if o.0 == oracle::identity(d) { l.push(o.1.clone()); } }
            l
        }
        for (n, e) in &t.settings {
            let ops: Vec<O> = e.verif_operators().iter().map(unaff).collect();
            let set: BTreeSet<O> = ops.iter().map(red).collect();
            ensure!(!ops.is_empty() && set.len() == ops.len(), "{}: {} operators, {} distinct", n, ops.len(), set.len());
            // closure under products with every operator follows from closure under generators;
            // groups are small enough to take all products of the first few with all others
            for a in ops.iter().take(if ops.len() > 48 { 4 } else { 24 }) {
                for b in &ops { ensure!(set.contains(&red(&comp(a, b))), "{}: not closed under products", n); }
            }
            let c = t.settings.get(e.verif_canonical_name()).ok_or(format!("{}: no group {}", n, e.verif_canonical_name()))?;
            let cops: Vec<O> = c.verif_operators().iter().map(unaff).collect();
            let tr = un_c(e.verif_transform());
            let im = oracle::inverse(&tr.0).ok_or("singular transform")?;
            let v = oracle::mul(&im, &tr.1.iter().map(|x| vec![-x]).collect());
            let inv: O = (im.clone(), v.iter().map(|r| r[0].clone()).collect());
            let mut lin = BTreeSet::new();
            for o in &cops {
                let x = comp(&comp(&inv, o), &tr);
                ensure!(set.contains(&red(&x)), "{}: operator {:?} of {} is carried to {:?}", n, o, e.verif_canonical_name(), x);
                lin.insert(x.0);
            }
            ensure!(set.iter().all(|o| lin.contains(&o.0)), "{}: has more operators than {}", n, e.verif_canonical_name());
            let l1: QM = lattice(&cops).iter().map(|v| oracle::mul(&vec![v.clone()], &oracle::transpose(&im))[0].clone()).collect();
            ensure!(oracle::qlattice(&l1) == oracle::qlattice(&lattice(&ops)), "{}: translations differ from {}", n, e.verif_canonical_name());
        }
        for l in &t.lookup { ensure!(t.settings.contains_key(l.verif_name()), "lookup of unknown setting {}", l.verif_name()); }
        for (a, b) in &t.alias { ensure!(t.settings.contains_key(b) || t.settings.contains_key(&format!("{}:1", b)), "{} is an alias of unknown {}", a, b); }
        Ok(())
    });
}

struct Flaky { data: Vec<u8>, pos: usize, fails: usize }
impl Read for Flaky {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.pos >= self.data.len() {
            if self.fails == 0 { return Ok(0) }
            self.fails -= 1;
            return Err(Error::new(ErrorKind::Other, "broken"));
        }
        let n = buf.len().min(7).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

// ---------------------------------------------------------------- I01

fn word(g: &mut Rng, first: &[char], more: &[char]) -> String {
    let mut s = String::new();
    s.push(*g.pick(first));
    for _ in 0..g.us(0, 6) { s.push(*g.pick(more)); }
    s
}
fn letters() -> Vec<char> { "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ".chars().collect() }
fn namechars() -> Vec<char> { "abcxyzXYZ0123456789_-+*/.,:;()'!éß\u{120}\u{2009}\u{20}λ\u{122}\u{109}".chars().filter(|c| *c != ' ').collect() }

/// text of a field and its value
fn cgdfield(g: &mut Rng) -> (String, Field) {
    match g.us(0, 6) {
        0 => { let n = if g.chance(1, 8) { *g.pick(&[i32::MAX as i64, i32::MIN as i64, 999999999, -999999999]) } else { g.int(-999, 999) };
               (if n >= 0 && g.chance(1, 6) { format!("+{}", n) } else { n.to_string() }, Field::Int(n as i32)) },
        1 => { let (n, d) = (g.int(-30, 30), g.int(1, 30));
               let (n, d) = if g.chance(1, 10) { (g.int(-999999999, 999999999), g.int(1, 999999999)) } else { (n, d) };
               (format!("{}/{}", n, d), Field::Fraction(Ratio::new(n as i32, d as i32))) },
        2 => {
            let mut t = String::from(*g.pick(&["", "-", "+"]));
            let (a, b) = (g.us(0, 2), g.us(0, 4));
            for _ in 0..a { t.push((b'0' + g.us(0, 9) as u8) as char); }
            t.push('.');
            for _ in 0..b { t.push((b'0' + g.us(0, 9) as u8) as char); }
            if a + b == 0 { t.push('5'); }
            if g.chance(1, 3) { t.push_str(&format!("{}{}", g.pick(&["e", "E", "e-", "E+"]), g.us(0, 12))); }
            let f: f64 = t.parse().unwrap();
            let v = if f.fract() == 0.0 && f.abs() <= 2147483647.0 { Field::Int(f as i32) } else { Field::Double(f) };
            (t, v)
        },
        3 => { let f = *g.pick(&["2147483648", "12345678901", "-2147483649", "1e10", "1e300", "-1e-300"]);
               (f.to_string(), Field::Double(f.parse().unwrap())) },
        4 => {
            let mut s = String::new();
            let mut cs = namechars(); cs.extend([' ', '#', '\t', ' ']);
            for _ in 0..g.us(1, 8) { s.push(*g.pick(&cs)); }
            (format!("\"{}\"", s), Field::Name(s))
        },
        _ => {
            let mut f = letters(); f.extend(['_', '*', '(', 'é', '\'', ':']);
            let s = if g.chance(1, 5) { g.pick(&["inf", "nan", "infinity", "NaNa", "info", "nano", "e5", "Infinite", "x/0", "E1"]).to_string() } else { word(g, &f, &namechars()) };
            (s.clone(), Field::Name(s))
        }
    }
}

fn blank(g: &mut Rng) -> String { (0..g.us(1, 3)).map(|_| if g.chance(1, 4) { '\t' } else { ' ' }).collect() }

fn cgdline(g: &mut Rng) -> (String, Vec<Field>) {
    let mut txt = if g.chance(1, 2) { blank(g) } else { String::new() };
    let mut fs = vec![];
    if g.chance(2, 3) {
        let s = if g.chance(1, 8) { g.pick(&["inf", "nan", "infinity", "End", "e5"]).to_string() } else { word(g, &letters(), &namechars()) };
        txt.push_str(&s);
        fs.push(Field::Key(s));
    }
    for _ in 0..g.us(0, 5) {
        let (t, f) = cgdfield(g);
        // an unquoted name in front would be the key
        if fs.is_empty() { if let Field::Name(_) = f { if !t.starts_with('"') && t.as_bytes()[0].is_ascii_alphabetic() { continue } } }
        if !fs.is_empty() { txt.push_str(&blank(g)); }
        txt.push_str(&t);
        fs.push(f);
    }
    if g.chance(1, 3) { txt.push_str(&blank(g)); }
    if g.chance(1, 3) {
        txt.push('#');
        for _ in 0..g.us(0, 8) { txt.push(*g.pick(&['a', ' ', '"', '#', '1', 'é', '\t'])); }
    }
    (txt, fs)
}

fn any_line(g: &mut Rng) -> String {
    let alpha: Vec<char> = "abEeN  \t\t\"\"##0123456789/.-+infnaé\u{2009}\u{120}\u{122}\u{123}\u{0}\u{85}\u{a0}".chars().collect();
    if g.chance(1, 2) { let t = cgdline(g).0; mutate(g, &t, &alpha) }
    else { let n = g.us(0, 20); (0..n).map(|_| *g.pick(&alpha)).collect() }
}

/// everything that is consumed must be accounted for by the fields
fn line_ok(s: &str) -> Result<(), String> {
    let (rest, fields) = match parse_cgd_line(s) {
        Ok(r) => r,
        // only a number that breaks off in its exponent may make a line unreadable
        Err(e) => {
            let b = s.as_bytes();
            ensure!((1..b.len()).any(|i| (b[i] == b'e' || b[i] == b'E') && (b[i - 1] == b'.' || b[i - 1].is_ascii_digit())), "rejected: {}", e);
            return Ok(())
        }
    };
    ensure!(s.ends_with(rest), "rest {:?} is no suffix", rest);
    let mut used = &s[..s.len() - rest.len()];
    let sp = |c: char| c == ' ' || c == '\t';
    for (i, f) in fields.iter().enumerate() {
        used = used.trim_start_matches(sp);
        let n = match f {
            Field::Key(k) => {
                ensure!(i == 0 && k.as_bytes()[0].is_ascii_alphabetic(), "key {:?} at {}", k, i);
                ensure!(used.starts_with(k.as_str()), "key {:?}", k);
                k.len()
            },
            Field::Name(k) => {
                let qd = format!("\"{}\"", k);
                ensure!(!k.is_empty(), "empty name");
                if used.starts_with('"') { ensure!(used.starts_with(&qd) && !k.contains('"'), "name {:?}", k); qd.len() }
                else {
                    ensure!(used.starts_with(k.as_str()) && !k.contains(|c| sp(c) || c == '"' || c == '#'), "name {:?}", k);
                    ensure!(i > 0 || !k.as_bytes()[0].is_ascii_alphabetic(), "{:?} is not taken as key", k);
                    k.len()
                }
            },
            Field::Int(_) | Field::Double(_) | Field::Fraction(_) => {
                let t = used.find(|c| !"0123456789.+-/eE".contains(c)).unwrap_or(used.len());
                // the longest prefix with that value
                let val = |p: &str| -> bool { match f {
                    Field::Int(n) => p.parse::<f64>().map_or(false, |x| x == *n as f64),
                    Field::Double(d) => p.parse::<f64>().map_or(false, |x| x == *d && !(x.fract() == 0.0 && x.abs() < 2147483648.0)),
                    Field::Fraction(r) => match p.split_once('/') {
                        Some((a, b)) => match (a.parse::<i64>(), b.parse::<i64>()) { (Ok(a), Ok(b)) if b > 0 => qr(a, b) == r32(r), _ => false },
                        None => false },
                    _ => false } };
                match (1..=t).rev().find(|j| val(&used[..*j])) { Some(j) => j, None => return Err(format!("{:?} at {:?}", f, used)) }
            }
        };
        used = &used[n..];
        ensure!(i + 1 == fields.len() || used.starts_with(sp), "no blank after field {}", i);
    }
    used = used.trim_start_matches(sp);
    ensure!(used.is_empty() || used.starts_with('#'), "text {:?} is dropped", used);
    ensure!(rest.is_empty() || used.is_empty(), "text after a comment is left over");
    Ok(())
}

pub fn i01(ctx: &mut Ctx) {
    let n = ctx.n(4000, 20);
    for _ in 0..n {
        let (s, fs) = cgdline(&mut ctx.rng);
        ctx.case("fields of a line", format!("{:?}", s), || {
            let (rest, got) = parse_cgd_line(&s)?;
            ensure!(got == fs, "{:?} instead of {:?}", got, fs);
            ensure!(rest.is_empty(), "rest {:?}", rest);
            Ok(())
        });
        let s = any_line(&mut ctx.rng);
        ctx.case("arbitrary lines", format!("{:?}", s), || line_ok(&s));
    }
    for s in ["", "1/0", "-1/0 2", "a 1/0 b", "\"\"", "a \"\" b", "\"", "1/2/3", "1.2.3", "1e", "1e+", "1e400", "-1e400", "x 1e999 y", "-", "+", ".", "-x", "--1", "1/-2", "9999999999/2", "2/9999999999",
        "inf", "-inf", "+nan", "a -inf", "a +infinity 1", "0x10", "1#2", "a#b", "a\"b\"", "\"a\"b", "\"a\"\"b\"", "\u{feff}a", "\t#", "key\u{a0}1", "\u{120}a 1", "a \u{120} \u{109}\u{122}", "1\u{120}2"] {
        ctx.case("arbitrary lines", format!("{:?}", s), || line_ok(s));
    }
}

// ---------------------------------------------------------------- I02

#[derive(Clone, Copy, PartialEq, Debug)]
enum Et { Begin, End, Data, Empty, Error }
fn et(e: &EntryType) -> Et { match e { EntryType::Begin => Et::Begin, EntryType::End => Et::End, EntryType::Data => Et::Data, EntryType::Empty => Et::Empty, EntryType::Error => Et::Error } }

#[derive(PartialEq, Debug)]
struct MEntry { t: Et, key: Option<String>, fields: Vec<Field>, line: usize, notes: Vec<&'static str> }
#[derive(PartialEq, Debug)]
struct MBlock { ty: String, from: usize, to: usize, entries: Vec<MEntry> }

fn kind(n: &Note) -> &'static str {
    match n {
        Note::Error(s) if s.starts_with("unparsed") => "unparsed",
        Note::Error(s) if s.contains("no type") => "no type",
        Note::Error(s) if s.contains("before block") => "before block",
        Note::Error(s) if s.contains("missing") => "missing end",
        Note::Error(_) => "error",
        Note::Warning(_) => "ignored",
    }
}

/// classification of the lines, from the documented rules; None = not valid UTF-8
fn model_lines(lines: &[Option<String>]) -> Vec<MEntry> {
    lines.iter().enumerate().map(|(i, l)| match l {
        None => MEntry { t: Et::Error, key: None, fields: vec![], line: i, notes: vec!["error"] },
        Some(s) => {
            let (rest, f) = match parse_cgd_line(s) {
                Ok(x) => x,
                Err(_) => return MEntry { t: Et::Error, key: None, fields: vec![], line: i, notes: vec!["error"] },
            };
            let notes = if rest.is_empty() { vec![] } else { vec!["unparsed"] };
            match f.first() {
                None => MEntry { t: Et::Empty, key: None, fields: vec![], line: i, notes },
                Some(Field::Key(k)) => MEntry { t: Et::Data, key: Some(k.to_lowercase()), fields: f[1..].to_vec(), line: i, notes },
                _ => MEntry { t: Et::Data, key: None, fields: f, line: i, notes },
            }
        }
    }).collect()
}

fn model_blocks(lines: &[Option<String>]) -> Vec<MBlock> {
    let mut out = vec![];
    let mut cur: Vec<MEntry> = vec![];
    let mut open: Option<(String, usize)> = None;
    let mut key: Option<String> = None;
    for mut e in model_lines(lines) {
        match (e.t, e.key.clone()) {
            (Et::Empty, _) => if !e.notes.is_empty() { cur.push(e) },
            (Et::Error, _) => cur.push(e),
            (_, Some(k)) if k == "end" => {
                e.t = Et::End;
                let line = e.line;
                if open.is_none() { e.notes.push("no type"); }
                if !e.fields.is_empty() { e.notes.push("ignored"); }
                cur.push(e);
                let (ty, from) = open.take().unwrap_or(("--void--".into(), line));
                out.push(MBlock { ty, from, to: line, entries: std::mem::take(&mut cur) });
                key = None;
            },
            (_, Some(k)) if open.is_none() => {
                e.t = Et::Begin;
                if !e.fields.is_empty() { e.notes.push("ignored"); }
                open = Some((k, e.line));
                key = None;
                cur.push(e);
            },
            (_, Some(k)) => { key = Some(k); cur.push(e) },
            (_, None) => {
                e.key = key.clone();
                if open.is_none() { e.notes.push("before block"); }
                cur.push(e);
            }
        }
    }
    if let Some((ty, from)) = open {
        let l = cur.last_mut().unwrap();
        l.notes.push("missing end");
        let to = l.line;
        out.push(MBlock { ty, from, to, entries: cur });
    }
    out
}

#[cfg(verif_hooks)]
fn real_entry(e: &Entry) -> MEntry {
    MEntry { t: et(e.verif_entry_type()), key: e.verif_key().clone(), fields: e.verif_fields().clone(), line: e.verif_line_number(), notes: e.verif_notes().iter().map(kind).collect() }
}
#[cfg(verif_hooks)]
fn real_block(b: &Block) -> MBlock {
    MBlock { ty: b.verif_block_type().clone(), from: b.verif_lineno_start(), to: b.verif_lineno_end(), entries: b.verif_entries().iter().map(real_entry).collect() }
}

fn diff<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], exp: &[T]) -> Result<(), String> {
    for i in 0..got.len().max(exp.len()) {
        ensure!(got.get(i) == exp.get(i), "{} {}: {:?} instead of {:?}", what, i, got.get(i), exp.get(i));
    }
    Ok(())
}

fn split(data: &[u8]) -> Vec<Option<String>> {
    let mut ls: Vec<Vec<u8>> = data.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
    let last = ls.pop().unwrap();
    for l in ls.iter_mut() { if l.last() == Some(&b'\r') { l.pop(); } }
    if !last.is_empty() { ls.push(last); }
    ls.into_iter().map(|l| String::from_utf8(l).ok()).collect()
}

#[cfg(not(verif_hooks))]
fn blocks_ok(data: &[u8]) -> Result<(), String> {
    let lines = split(data);
    ensure!(parse_lines(data).len() == model_lines(&lines).len(), "number of entries");
    ensure!(parse_blocks(data).len() == model_blocks(&lines).len(), "number of blocks");
    Ok(())
}

#[cfg(verif_hooks)]
fn blocks_ok(data: &[u8]) -> Result<(), String> {
    let lines = split(data);
    diff("line", &parse_lines(data).iter().map(real_entry).collect::<Vec<_>>(), &model_lines(&lines))?;
    for (e, l) in parse_lines(data).iter().zip(&lines) {
        ensure!(e.verif_content() == l, "content of line {}: {:?}", e.verif_line_number(), e.verif_content());
    }
    diff("block", &parse_blocks(data).iter().map(real_block).collect::<Vec<_>>(), &model_blocks(&lines))
}

pub fn i02(ctx: &mut Ctx) {
    let n = ctx.n(1500, 20);
    for k in 0..n {
        let mut data: Vec<u8> = vec![];
        for _ in 0..ctx.rng.us(0, 14) {
            let g = &mut ctx.rng;
            let l = match g.us(0, 11) {
                0 | 1 => format!("{}{}{}", ws(g), g.pick(&["end", "END", "End", "eNd"]), if g.chance(1, 5) { *g.pick(&[" 1", " x y", " # c", " \"", " 1 2"]) } else { "" }),
                2 | 3 => format!("{}{}{}", ws(g), g.pick(&["CRYSTAL", "periodic_graph", "Net"]), if g.chance(1, 4) { *g.pick(&[" 1", " x", " # c", " \"", " 3 4"]) } else { "" }),
                4 => String::from(*g.pick(&["", " ", "# comment", "\t# x", "\"", "\"\"", "#"])),
                5 => any_line(g),
                6 => format!(" {}", cgdfield(g).0),
                _ => cgdline(g).0,
            };
            data.extend(l.as_bytes());
            if k % 7 == 0 && ctx.rng.chance(1, 8) { data.extend([0xff, 0xfe]); }
            if ctx.rng.chance(1, 10) { data.push(b'\r'); }
            data.push(b'\n');
        }
        if ctx.rng.chance(1, 3) { data.pop(); }
        let inp = format!("{:?}", String::from_utf8_lossy(&data));
        ctx.case("lines and blocks", inp.clone(), || blocks_ok(&data));
        if k % 5 == 0 {
            ctx.case("failing reader", inp, || {
                // a reader that keeps failing must not be read for ever; what was read before counts
                let fails = if k % 2 == 0 { usize::MAX } else { 3 };
                let mut f = Flaky { data: data.clone(), pos: 0, fails };
                let es = parse_lines(&mut f);
                #[cfg(verif_hooks)]
                ensure!(es.iter().any(|e| et(e.verif_entry_type()) == Et::Error && !e.verif_notes().is_empty()), "the failure is not reported");
                let full = split(&data).len();
                ensure!(es.len() <= full + 4, "{} entries for {} lines", es.len(), full);
                let mut f = Flaky { data: data.clone(), pos: 0, fails };
                let _ = parse_blocks(&mut f);
                Ok(())
            });
        }
    }
    for s in ["", "end", "end\nend", "a", "a\nend", "1\nend", "1\na", "a\nb\n1\nend\n2\nc\n3\nend", "a\n\"\nend", "\"\na\nend\n\"", "END 1", "a 1\nEND 1 2", "end b\nc"] {
        ctx.case("lines and blocks", format!("{:?}", s), || blocks_ok(s.as_bytes()));
    }
}
