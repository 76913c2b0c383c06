use crate::arith::{aff, mat, un, unaff, Oth, Wd};
use crate::ctx::*;
use crate::ensure;
use crate::oracle::{self, q, qr, Q, QM};
use num_traits::{One, Signed, ToPrimitive, Zero};
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap, ModZ, Point, Vector};
use rust_systre::spacegroups::basics as sb;
use rust_systre::spacegroups::lattices as lat;
use std::collections::{BTreeSet, HashSet};

type IM = Vec<Vec<i64>>;
/// operator with integer linear part and shift in units of 1/12
type Op = (IM, Vec<i64>);

fn imul(a: &IM, b: &IM) -> IM {
    a.iter().map(|r| (0..b[0].len()).map(|j| (0..b.len()).map(|k| r[k] * b[k][j]).sum()).collect()).collect()
}
fn iid(d: usize) -> IM { (0..d).map(|i| (0..d).map(|j| (i == j) as i64).collect()).collect() }

fn pool(d: usize) -> Vec<IM> {
    let mut out: Vec<IM> = vec![];
    // signed permutations
    let perms: Vec<Vec<usize>> = match d {
        1 => vec![vec![0]],
        2 => vec![vec![0, 1], vec![1, 0]],
        _ => vec![vec![0, 1, 2], vec![1, 0, 2], vec![2, 1, 0], vec![0, 2, 1], vec![1, 2, 0], vec![2, 0, 1]],
    };
    for p in &perms { for s in 0..(1 << d) {
        out.push((0..d).map(|i| (0..d).map(|j| if p[i] == j { if s >> i & 1 == 1 { -1 } else { 1 } } else { 0 }).collect()).collect());
    } }
    out
}
fn hexpool(d: usize) -> Vec<IM> {
    let two: Vec<IM> = vec![vec![vec![0, -1], vec![1, -1]], vec![vec![1, -1], vec![1, 0]], vec![vec![0, 1], vec![1, 0]],
        vec![vec![-1, 0], vec![0, -1]], vec![vec![-1, 1], vec![0, 1]], vec![vec![0, -1], vec![-1, 0]]];
    if d == 2 { return two }
    let mut out = vec![];
    for m in &two { for z in [1, -1] {
        out.push(vec![vec![m[0][0], m[0][1], 0], vec![m[1][0], m[1][1], 0], vec![0, 0, z]]);
    } }
    out
}

/// random unimodular matrix and its inverse
fn uni(g: &mut Rng, d: usize) -> (IM, IM) {
    let (mut m, mut n) = (iid(d), iid(d));
    if d > 1 { for _ in 0..g.us(0, 3) {
        let (i, j) = (g.us(0, d - 1), g.us(0, d - 1));
        if i == j { continue }
        let f = if g.chance(1, 2) { 1 } else { -1 };
        for k in 0..d { let t = m[j][k]; m[i][k] += f * t; }      // E m
        for k in 0..d { let t = n[k][i]; n[k][j] -= f * t; }      // n E^-1
    } }
    (m, n)
}

fn gens(g: &mut Rng, d: usize) -> Vec<Op> {
    let pool = if d >= 2 && g.chance(1, 3) { hexpool(d) } else { pool(d) };
    let (m, n) = if g.chance(1, 2) { uni(g, d) } else { (iid(d), iid(d)) };
    let k = g.us(1, 3);
    let den = *g.pick(&[1, 1, 2, 2, 3, 4, 6]);
    let mut out: Vec<Op> = (0..k).map(|_| {
        let s = imul(&imul(&m, g.pick(&pool)), &n);
        (s, (0..d).map(|_| g.int(-den, den) * (12 / den)).collect())
    }).collect();
    if g.chance(1, 2) {
        let c = *g.pick(&[2, 3, 4]);
        out.push((iid(d), (0..d).map(|_| g.int(-c, c) * (12 / c)).collect()));
    }
    if g.chance(1, 6) { out.push((iid(d), vec![0; d])); }
    if g.chance(1, 6) { out.push((iid(d), (0..d).map(|_| 12 * g.int(-1, 1)).collect())); }
    g.shuffle(&mut out);
    out
}

fn comp(a: &Op, b: &Op) -> Op {
    let d = a.1.len();
    let t: Vec<i64> = (0..d).map(|i| (a.1[i] + (0..d).map(|k| a.0[i][k] * b.1[k]).sum::<i64>()).rem_euclid(12)).collect();
    (imul(&a.0, &b.0), t)
}

/// group generated modulo lattice translations, or None if it has more than `max` elements
fn closure(gens: &[Op], max: usize) -> Option<BTreeSet<Op>> {
    let d = gens[0].1.len();
    let mut seen = BTreeSet::from([(iid(d), vec![0; d])]);
    let mut list: Vec<Op> = seen.iter().cloned().collect();
    let mut i = 0;
    while i < list.len() {
        for b in gens {
            let c = comp(&list[i], b);
            if seen.insert(c.clone()) { list.push(c); }
        }
        if list.len() > max { return None }
        i += 1;
    }
    Some(seen)
}

fn toq(o: &Op) -> (QM, Vec<Q>) { (oracle::qm(&o.0), o.1.iter().map(|x| qr(*x, 12)).collect()) }
fn map<CS: Clone>(o: &Op) -> AffineMap<Q, CS> { aff(&toq(o)) }
fn show(ops: &[Op]) -> String {
    ops.iter().map(|o| format!("{:?}+{:?}/12", o.0, o.1)).collect::<Vec<_>>().join("  ")
}
fn fromq(a: &AffineMap<Q, Wd>) -> Option<Op> {
    let (m, t) = unaff(a);
    let mut mm = vec![];
    for r in &m { let mut rr = vec![]; for x in r { if !x.is_integer() { return None } rr.push(x.to_integer().to_i64()?); } mm.push(rr); }
    let mut tt = vec![];
    for x in &t { let y = x * q(12); if !y.is_integer() { return None } tt.push(y.to_integer().to_i64()?); }
    Some((mm, tt))
}

fn group_input(ctx: &mut Ctx, k: usize) -> (Vec<Op>, BTreeSet<Op>) {
    loop {
        let d = if k < 3 { k + 1 } else { *ctx.rng.pick(&[1, 2, 2, 2, 3, 3, 3]) };
        let gs = gens(&mut ctx.rng, d);
        if let Some(c) = closure(&gs, if d == 3 { 200 } else { 300 }) { return (gs, c) }
    }
}

// ---------------------------------------------------------------- C01

pub fn c01(ctx: &mut Ctx) {
    let n = ctx.n(250, 12);
    for k in 0..n {
        let (gs, c) = group_input(ctx, k);
        let d = gs[0].1.len();
        let mut more = gs.clone();
        { let e: Vec<Op> = c.iter().cloned().collect(); let x = ctx.rng.pick(&e).clone(); more.push(x); ctx.rng.shuffle(&mut more); }
        ctx.case("closure", show(&gs), || {
            let ops = sb::generate(&gs.iter().map(map::<Wd>).collect::<Vec<_>>());
            ensure!(!ops.is_empty() && unaff(&ops[0]) == (oracle::identity(d), vec![q(0); d]), "does not start with the identity");
            let mut got = BTreeSet::new();
            for o in &ops {
                let p = fromq(o).ok_or(format!("{:?} is no product of generators", unaff(o)))?;
                ensure!(p.1.iter().all(|x| *x >= 0 && *x < 12), "shift of {:?} is not reduced", p);
                ensure!(got.insert(p.clone()), "{:?} listed twice", p);
            }
            for p in &c { ensure!(got.contains(p), "{:?} is missing from {} elements", p, got.len()); }
            for p in &got { ensure!(c.contains(p), "{:?} does not belong to the group", p); }
            Ok(())
        });
        ctx.case("redundant generators", show(&more), || {
            let a: HashSet<_> = sb::generate(&gs.iter().map(map::<Wd>).collect::<Vec<_>>()).into_iter().collect();
            let b: HashSet<_> = sb::generate(&more.iter().map(map::<Wd>).collect::<Vec<_>>()).into_iter().collect();
            ensure!(a == b, "groups of order {} and {}", a.len(), b.len());
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C02

pub fn c02(ctx: &mut Ctx) {
    let n = ctx.n(250, 12);
    for k in 0..n {
        let (gs, c) = group_input(ctx, k);
        let d = gs[0].1.len();
        let all: Vec<Op> = { let mut v: Vec<Op> = c.iter().cloned().collect(); ctx.rng.shuffle(&mut v); v };
        let list = if k % 2 == 0 { gs.clone() } else { all.clone() };
        ctx.case("Gram matrix space", show(&list), || gram(&list, d));
        ctx.case("origin shift space", show(&list), || shifts(&list, d));
        ctx.case("primitive setting", show(&all), || primitive(&all, d));
    }
    for d in 1..4 {
        let list = vec![(iid(d), vec![0; d])];
        ctx.case("Gram matrix space", show(&list), || gram(&list, d));
        ctx.case("origin shift space", show(&list), || shifts(&list, d));
        ctx.case("primitive setting", show(&list), || primitive(&list, d));
    }
}

/// the columns of `got` form a basis of the null space of `eqns`
fn is_null_basis(got: &Option<rust_systre::arithmetic::matrices::Matrix<Q>>, eqns: &QM, m: usize) -> Result<(), String> {
    let dim = m - oracle::rank(eqns);
    match got {
        None => { ensure!(dim == 0, "nothing returned for a space of dimension {}", dim); },
        Some(b) => {
            let b = un(b);
            ensure!(b.len() == m && dim > 0 && b[0].len() == dim, "{} x {} basis for a space of dimension {} of {}", b.len(), b[0].len(), dim, m);
            ensure!(oracle::rank(&b) == dim, "dependent basis {}", oracle::s(&b));
            for (i, row) in oracle::mul(eqns, &b).iter().enumerate() {
                ensure!(row.iter().all(|x| x.is_zero()), "basis {} violates equation {}", oracle::s(&b), oracle::s(&vec![eqns[i].clone()]));
            }
        }
    }
    Ok(())
}

fn gram(ops: &[Op], d: usize) -> Result<(), String> {
    // unknowns: entries (i, j), i <= j, of a symmetric matrix, row by row
    let mut ix = vec![vec![0; d]; d];
    let mut m = 0;
    for i in 0..d { for j in i..d { ix[i][j] = m; ix[j][i] = m; m += 1; } }
    let mut eqns: QM = vec![vec![q(0); m]];
    for o in ops {
        let s = oracle::qm(&o.0);
        for i in 0..d { for j in 0..d {
            let mut e = vec![q(0); m];
            for a in 0..d { for b in 0..d { e[ix[a][b]] += &s[a][i] * &s[b][j]; } }
            e[ix[i][j]] -= q(1);
            eqns.push(e);
        } }
    }
    is_null_basis(&sb::gram_matrix_configuration_space(&ops.iter().map(map::<Wd>).collect()), &eqns, m)
}

fn shifts(ops: &[Op], d: usize) -> Result<(), String> {
    let mut eqns: QM = vec![vec![q(0); d]];
    for o in ops {
        let s = oracle::qm(&o.0);
        for i in 0..d { let mut r = s[i].clone(); r[i] -= q(1); eqns.push(r); }
    }
    is_null_basis(&sb::shift_space(&ops.iter().map(map::<Wd>).collect()), &eqns, d)
}

#[cfg(not(verif_hooks))]
fn primitive(_: &[Op], _: usize) -> Result<(), String> { Ok(()) }

#[cfg(verif_hooks)]
fn primitive(ops: &[Op], d: usize) -> Result<(), String> {
    let all: Vec<AffineMap<Q, Wd>> = ops.iter().map(map).collect();
    let ps = sb::PrimitiveSetting::<Wd, Oth>::verif_new(&all);
    let (cell, to_p, pops) = ps.verif_parts();
    let cell: QM = cell.iter().map(|v| v.iter().cloned().collect()).collect();
    ensure!(cell.len() == d && oracle::det(&cell).is_positive(), "cell {} is not positively oriented", oracle::s(&cell));
    let mut ts = oracle::identity(d);
    for o in ops { if o.0 == iid(d) { ts.push(toq(o).1); } }
    ensure!(oracle::qlattice(&cell) == oracle::qlattice(&ts), "cell {} does not generate the translation lattice {}", oracle::s(&cell), oracle::s(&oracle::qlattice(&ts)));
    let inv = oracle::transpose(&oracle::inverse(&cell).unwrap());
    for i in 0..d {
        let v: Vec<Q> = (to_p * &Vector::<Q, Wd>::new(&cell[i])).iter().cloned().collect();
        ensure!(v == oracle::identity(d)[i], "cell vector {} has coordinates {}", i, oracle::s(&vec![v]));
    }
    let o: Vec<Q> = (to_p * &Point::<Q, Wd>::origin(d)).iter().cloned().collect();
    ensure!(o.iter().all(|x| x.is_zero()), "origin is moved");
    let exp: BTreeSet<(QM, Vec<Q>)> = ops.iter().map(|o| {
        let (m, t) = toq(o);
        let m = oracle::mul(&oracle::mul(&inv, &m), &oracle::transpose(&cell));
        let t = oracle::mul(&inv, &t.iter().map(|x| vec![x.clone()]).collect());
        (m, t.iter().map(|x| oracle::frac(&x[0])).collect())
    }).collect();
    let got: BTreeSet<(QM, Vec<Q>)> = pops.iter().map(unaff).collect();
    ensure!(got.len() == pops.len(), "operators repeated");
    ensure!(got == exp, "{} operators instead of {}", got.len(), exp.len());
    let lin: BTreeSet<QM> = got.iter().map(|o| o.0.clone()).collect();
    ensure!(lin.len() == got.len(), "{} operators, {} linear parts", got.len(), lin.len());
    Ok(())
}

// ---------------------------------------------------------------- C03

fn posdef(g: &mut Rng, d: usize) -> QM {
    match g.int(0, 3) {
        0 => oracle::identity(d),
        1 => { // hexagonal
            let mut m = oracle::identity(d);
            if d >= 2 { m[0][1] = qr(-1, 2); m[1][0] = qr(-1, 2); }
            m
        }
        _ => loop {
            let b: QM = (0..d).map(|_| (0..d).map(|_| qr(g.int(-4, 4), g.int(1, 2))).collect()).collect();
            if !oracle::det(&b).is_zero() { break oracle::mul(&b, &oracle::transpose(&b)) }
        }
    }
}
fn qdot(m: &QM, u: &[Q], v: &[Q]) -> Q {
    let mut s = q(0);
    for i in 0..u.len() { for j in 0..v.len() { s += &u[i] * &m[i][j] * &v[j]; } }
    s
}
fn lin(b: &QM, c: &[i64]) -> Vec<Q> {
    (0..b[0].len()).map(|k| (0..b.len()).fold(q(0), |s, i| s + q(c[i]) * &b[i][k])).collect()
}
fn combos(d: usize, k: i64) -> Vec<Vec<i64>> {
    let mut out = vec![vec![]];
    for _ in 0..d { out = out.into_iter().flat_map(|v: Vec<i64>| (-k..=k).map(move |x| { let mut w = v.clone(); w.push(x); w })).collect(); }
    out
}
/// greedy reduction: shorten every vector by short combinations of the others
fn reduce(b: &QM, m: &QM) -> QM {
    let mut b = b.clone();
    let d = b.len();
    loop {
        let mut changed = false;
        for i in 0..d {
            for mut c in combos(d, 1) {
                if c[i] == 0 { continue }
                if c[i] < 0 { c = c.iter().map(|x| -x).collect(); }
                loop {
                    let v = lin(&b, &c);
                    if qdot(m, &v, &v) < qdot(m, &b[i], &b[i]) { b[i] = v; changed = true } else { break }
                }
            }
        }
        if !changed { return b }
    }
}
fn coords(b: &QM, v: &[Q]) -> Option<Vec<i64>> {
    let inv = oracle::inverse(b)?;
    let c = oracle::mul(&vec![v.to_vec()], &inv);
    c[0].iter().map(|x| if x.is_integer() { x.to_integer().to_i64() } else { None }).collect()
}

pub fn c03(ctx: &mut Ctx) {
    let n = ctx.n(300, 20);
    for k in 0..n {
        let d = *ctx.rng.pick(&[2, 2, 3, 3, 3]);
        let m = posdef(&mut ctx.rng, d);
        let b: QM = loop {
            let mag = *ctx.rng.pick(&[1, 2, 5, 12]);
            let den = *ctx.rng.pick(&[1, 1, 2, 3]);
            let b: QM = (0..d).map(|_| (0..d).map(|_| qr(ctx.rng.int(-mag, mag), den)).collect()).collect();
            if !oracle::det(&b).is_zero() { break b }
        };
        let inp = format!("basis {} with scalar product {}", oracle::s(&b), oracle::s(&m));
        let r = reduce(&b, &m);
        let p: Vec<Q> = (0..d).map(|_| qr(ctx.rng.int(-40, 40), *ctx.rng.pick(&[1, 2, 3, 4, 8]))).collect();
        ctx.case("Voronoi vectors", inp.clone(), || {
            let vs = lat::dirichlet_vectors(&b, |u: &[Q], v: &[Q]| qdot(&m, u, v), &q(0));
            voronoi(&vs, &r, &m)
        });
        ctx.case("reduced basis", inp.clone(), || {
            let a = lat::reduced_lattice_basis(&b, |u: &[Q], v: &[Q]| qdot(&m, u, v), &q(0)).ok_or("no basis found")?;
            ensure!(a.len() == d, "{} vectors", a.len());
            for v in &a { ensure!(coords(&r, v).is_some(), "{:?} is not in the lattice", v); }
            ensure!(oracle::det(&a).abs() == oracle::det(&b).abs(), "{} spans another lattice", oracle::s(&a));
            // successive minima
            let mut all: Vec<(Q, Vec<Q>)> = combos(d, 2).iter().map(|c| { let v = lin(&r, c); (qdot(&m, &v, &v), v) }).collect();
            all.sort();
            let mut found: QM = vec![];
            for (n, v) in all {
                let mut f = found.clone(); f.push(v);
                if oracle::rank(&f) == f.len() {
                    let i = found.len();
                    ensure!(qdot(&m, &a[i], &a[i]) <= n, "vector {} has squared length {} instead of {}", i, qdot(&m, &a[i], &a[i]), n);
                    found = f;
                    if found.len() == d { break }
                }
            }
            for i in 1..d {
                ensure!(qdot(&m, &a[i - 1], &a[i - 1]) <= qdot(&m, &a[i], &a[i]), "not sorted by length");
                ensure!(!qdot(&m, &a[0], &a[i]).is_positive(), "acute angle between vectors 0 and {}", i);
            }
            Ok(())
        });
        ctx.case("shift into the Dirichlet domain", format!("{} point {}", inp, oracle::s(&vec![p.clone()])), || {
            let dot = |u: &[Q], v: &[Q]| qdot(&m, u, v);
            let vs = lat::dirichlet_vectors(&b, dot, &q(0));
            let s = lat::shift_for_dirichlet_domain(&p, &vs, dot, &q(0));
            ensure!(coords(&r, &s).is_some(), "shift {} is not in the lattice", oracle::s(&vec![s.clone()]));
            let x: Vec<Q> = p.iter().zip(&s).map(|(a, b)| a + b).collect();
            for c in combos(d, 2) {
                let v = lin(&r, &c);
                let y: Vec<Q> = x.iter().zip(&v).map(|(a, b)| a + b).collect();
                ensure!(dot(&x, &x) <= dot(&y, &y), "{} is farther from the origin than {}", oracle::s(&vec![x.clone()]), oracle::s(&vec![y.clone()]));
            }
            Ok(())
        });
        let e = *ctx.rng.pick(&[1, 2, 2, 3]);
        // (the reduction runs on machine integers: keep the intermediate values small)
        let dens: &[i64] = if e < 3 { &[1, 2, 3, 4, 6] } else { *ctx.rng.pick(&[&[1, 2][..], &[1, 3], &[2, 4], &[3, 6]]) };
        let vs: Vec<Vec<Q>> = (0..ctx.rng.us(1, 4)).map(|_| (0..e).map(|_| qr(ctx.rng.int(-5, 5), *ctx.rng.pick(dens))).collect()).collect();
        ctx.case("lattice spanned by unit and extra vectors", oracle::s(&vs), || {
            let got = lat::rational_lattice_basis(&vs);
            let mut exp = oracle::identity(e);
            exp.extend(vs.clone());
            ensure!(got.len() == e, "{} vectors", got.len());
            ensure!(oracle::qlattice(&got) == oracle::qlattice(&exp), "{} instead of {}", oracle::s(&got), oracle::s(&oracle::qlattice(&exp)));
            Ok(())
        });
        let _ = k;
    }
}

fn voronoi(vs: &Vec<Vec<Q>>, r: &QM, m: &QM) -> Result<(), String> {
    let d = r.len();
    ensure!(vs.len() == (1 << d) - 1, "{} vectors", vs.len());
    let mut seen = HashSet::new();
    for v in vs {
        let c = coords(r, v).ok_or(format!("{:?} is not in the lattice", v))?;
        let cl: Vec<i64> = c.iter().map(|x| x.rem_euclid(2)).collect();
        ensure!(cl.iter().any(|x| *x != 0), "{} is twice a lattice vector", oracle::s(&vec![v.clone()]));
        ensure!(seen.insert(cl.clone()), "two vectors in the same class modulo doubled lattice vectors");
        for k in combos(d, 2) {
            if (0..d).all(|i| k[i].rem_euclid(2) == cl[i]) {
                let w = lin(r, &k);
                ensure!(qdot(m, v, v) <= qdot(m, &w, &w), "{} is longer than {}", oracle::s(&vec![v.clone()]), oracle::s(&vec![w]));
            }
        }
    }
    Ok(())
}
