use crate::ctx::*;
use crate::ensure;
use crate::oracle::{self, q, qm, qr, Q, QM, ZM};
use num_traits::{One, Zero, Signed};
use rust_systre::arithmetic::geometry::{self as geo, AffineMap, CoordinateMap, ModZ, Point, ScalarProduct, Vector};
use rust_systre::arithmetic::linear_algebra::{extend_basis, gcdx, LinearAlgebra};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::arithmetic::modular_solver as ms;

pub fn mat<T: Clone>(m: &Vec<Vec<T>>) -> Matrix<T> {
    let nc = m[0].len();
    Matrix::new(nc, &m.iter().flatten().cloned().collect::<Vec<_>>())
}

/// rows read back through the iterator, not through indexing
pub fn un<T: Clone>(m: &Matrix<T>) -> Vec<Vec<T>> {
    let (r, c) = m.shape();
    let d: Vec<T> = m.iter().cloned().collect();
    assert_eq!(d.len(), r * c, "entry count does not match the shape");
    (0..r).map(|i| d[i * c..(i + 1) * c].to_vec()).collect()
}

pub fn zmat(g: &mut Rng, r: usize, c: usize, m: i64) -> ZM {
    let sparse = g.chance(1, 3);
    (0..r).map(|_| (0..c).map(|_| if sparse && g.chance(1, 2) { 0 } else { g.int(-m, m) }).collect()).collect()
}

/// matrices that are often rank deficient or share factors
pub fn zmat_special(g: &mut Rng, r: usize, c: usize, m: i64) -> ZM {
    let mut a = zmat(g, r, c, m);
    if r > 1 && g.chance(1, 2) {
        let i = g.us(0, r - 1);
        let j = g.us(0, r - 1);
        let f = g.int(-2, 2);
        if i != j { for k in 0..c { a[i][k] = a[j][k] * f; } }
    }
    if c > 1 && g.chance(1, 4) {
        let j = g.us(0, c - 1);
        for k in 0..r { a[k][j] = 0; }
    }
    if g.chance(1, 5) {
        let i = g.us(0, r - 1);
        for k in 0..c { a[i][k] = 0; }
    }
    if g.chance(1, 4) { let f = g.int(2, 3); for row in a.iter_mut() { for x in row.iter_mut() { *x *= f; } } }
    a
}

pub fn qmat(g: &mut Rng, r: usize, c: usize) -> QM {
    (0..r).map(|_| (0..c).map(|_| if g.chance(1, 4) { q(0) } else { qr(g.int(-5, 5), *g.pick(&[1, 1, 2, 3, 4, 6, 7])) }).collect()).collect()
}
pub fn qmat_special(g: &mut Rng, r: usize, c: usize) -> QM {
    let mut a = qmat(g, r, c);
    if r > 1 && g.chance(1, 2) {
        let i = g.us(0, r - 1);
        let j = g.us(0, r - 1);
        let f = qr(g.int(-3, 3), 2);
        if i != j { for k in 0..c { a[i][k] = a[j][k].clone() * f.clone(); } }
    }
    if c > 1 && g.chance(1, 4) { let j = g.us(0, c - 1); for k in 0..r { a[k][j] = q(0); } }
    a
}

pub fn zs(m: &ZM) -> String { m.iter().map(|r| format!("{:?}", r)).collect::<Vec<_>>().join("; ") }

// ---------------------------------------------------------------- A01

pub fn a01(ctx: &mut Ctx) {
    let n = ctx.n(400, 30);
    for _ in 0..n {
        let (r, c) = (ctx.rng.us(1, 6), ctx.rng.us(1, 6));
        let mut lab = 0i64;
        let mut fresh = |r: usize, c: usize| -> ZM { (0..r).map(|_| (0..c).map(|_| { lab += 1; lab }).collect()).collect() };
        let a = fresh(r, c);
        let b = { let k = ctx.rng.us(1, 5); fresh(r, k) };
        let b2 = { let k = ctx.rng.us(1, 4); fresh(r, k) };
        let d = { let k = ctx.rng.us(1, 5); fresh(k, c) };
        let d2 = { let k = ctx.rng.us(1, 4); fresh(k, c) };
        let i0 = ctx.rng.us(0, r - 1); let i1 = ctx.rng.us(i0 + 1, r);
        let j0 = ctx.rng.us(0, c - 1); let j1 = ctx.rng.us(j0 + 1, c);
        let inp = format!("{}x{} matrix with distinct entries", r, c);
        ctx.case("access", inp.clone(), || {
            let m = mat(&a);
            ensure!(m.shape() == (r, c), "shape {:?}", m.shape());
            for i in 0..r { for j in 0..c { ensure!(m[(i, j)] == a[i][j], "entry ({},{}) is {}", i, j, m[(i, j)]); } }
            ensure!(un(&m) == a, "iteration order");
            ensure!(m.clone().into_iter().collect::<Vec<_>>() == a.concat(), "into_iter");
            ensure!(m.get_rows() == a, "get_rows");
            for i in 0..r { ensure!(m.get_row(i) == a[i], "get_row({})", i); }
            for j in 0..c { ensure!(m.get_col(j) == a.iter().map(|x| x[j]).collect::<Vec<_>>(), "get_col({})", j); }
            let f: Matrix<i64> = a.concat().into_iter().collect();
            ensure!(f.shape() == (r * c, 1) && f.iter().cloned().collect::<Vec<_>>() == a.concat(), "from_iter");
            ensure!(f.reshape(c) == m, "reshape");
            ensure!(un(&Matrix::row(&a[0])) == vec![a[0].clone()], "row");
            ensure!(un(&Matrix::col(&a[0])) == a[0].iter().map(|x| vec![*x]).collect::<Vec<_>>(), "col");
            Ok(())
        });
        ctx.case("index write", format!("{} ({},{})", inp, i0, j0), || {
            let mut m = mat(&a);
            m[(i0, j0)] = -1;
            let mut e = a.clone(); e[i0][j0] = -1;
            ensure!(un(&m) == e, "write changed something else: {:?}", un(&m));
            Ok(())
        });
        ctx.case("transpose", inp.clone(), || {
            let t = mat(&a).transpose();
            ensure!(t.shape() == (c, r), "shape {:?}", t.shape());
            let e: ZM = (0..c).map(|j| (0..r).map(|i| a[i][j]).collect()).collect();
            ensure!(un(&t) == e, "entries {:?}", un(&t));
            ensure!(t.transpose() == mat(&a), "involution");
            Ok(())
        });
        ctx.case("stack", format!("{} with {} and {} columns right, {} and {} rows below", inp, b[0].len(), b2[0].len(), d.len(), d2.len()), || {
            let h = Matrix::hstack(&[mat(&a), mat(&b), mat(&b2)]);
            let e: ZM = (0..r).map(|i| [a[i].clone(), b[i].clone(), b2[i].clone()].concat()).collect();
            ensure!(un(&h) == e, "hstack {:?}", un(&h));
            let v = Matrix::vstack(&[mat(&a), mat(&d), mat(&d2)]);
            let e: ZM = [a.clone(), d.clone(), d2.clone()].concat();
            ensure!(un(&v) == e, "vstack {:?}", un(&v));
            ensure!(un(&Matrix::hstack(&[mat(&a)])) == a && un(&Matrix::vstack(&[mat(&a)])) == a, "single part");
            Ok(())
        });
        ctx.case("submatrix", format!("{} rows {}..{} columns {}..{}", inp, i0, i1, j0, j1), || {
            let s = mat(&a).submatrix(i0..i1, j0..j1);
            let e: ZM = a[i0..i1].iter().map(|x| x[j0..j1].to_vec()).collect();
            ensure!(un(&s) == e, "entries {:?}", un(&s));
            Ok(())
        });
        ctx.case("constants", inp.clone(), || {
            let z: Matrix<i64> = Matrix::zero(r, c);
            ensure!(un(&z) == vec![vec![0; c]; r], "zero");
            let id: Matrix<i64> = Matrix::identity(r);
            ensure!(un(&id) == (0..r).map(|i| (0..r).map(|j| (i == j) as i64).collect()).collect::<ZM>(), "identity");
            ensure!(id.is_identity(), "is_identity(identity)");
            let u: Matrix<i64> = Matrix::unit_vector(c, j0);
            ensure!(un(&u) == vec![(0..c).map(|j| (j == j0) as i64).collect::<Vec<_>>()], "unit_vector");
            ensure!(!mat(&a).is_identity() || a == vec![vec![1]], "is_identity of {}", zs(&a));
            let mut m = id.clone();
            let (x, y) = (i0, i1 - 1);
            m[(x, y)] = 2;
            ensure!(!m.is_identity(), "is_identity with a wrong entry at ({},{})", x, y);
            Ok(())
        });
        ctx.case("out of range is refused", inp.clone(), || {
            let m = mat(&a);
            let bad = |f: &dyn Fn()| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
            ensure!(bad(&|| { let _ = m[(r, 0)]; }), "row {} read", r);
            ensure!(bad(&|| { let _ = m[(0, c)]; }), "column {} read", c);
            ensure!(bad(&|| { let _ = m.get_row(r); }), "get_row({})", r);
            ensure!(bad(&|| { let _ = m.get_col(c); }), "get_col({})", c);
            ensure!(bad(&|| { let _ = m.submatrix(0..r + 1, 0..c); }), "submatrix rows");
            ensure!(bad(&|| { let _ = m.submatrix(0..r, 0..c + 1); }), "submatrix columns");
            ensure!(bad(&|| { let _ = Matrix::new(c + 1, &a.concat()); }) == (r * c % (c + 1) != 0), "ragged data");
            ensure!(bad(&|| { let _ = Matrix::hstack(&[mat(&a), Matrix::zero(r + 1, 1)]); }), "hstack of different heights");
            ensure!(bad(&|| { let _ = Matrix::vstack(&[mat(&a), Matrix::zero(1, c + 1)]); }), "vstack of different widths");
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- A02

fn zmul(a: &ZM, b: &ZM) -> ZM {
    a.iter().map(|r| (0..b[0].len()).map(|j| (0..b.len()).map(|i| r[i] * b[i][j]).sum()).collect()).collect()
}

pub fn a02(ctx: &mut Ctx) {
    let n = ctx.n(500, 30);
    for _ in 0..n {
        let (r, c, k) = (ctx.rng.us(1, 5), ctx.rng.us(1, 5), ctx.rng.us(1, 5));
        let a = zmat(&mut ctx.rng, r, c, 20);
        let b = zmat(&mut ctx.rng, r, c, 20);
        let d = zmat(&mut ctx.rng, c, k, 20);
        let x = *ctx.rng.pick(&[-3, -2, -1, 1, 2, 5]);
        let f2 = |f: &dyn Fn(i64, i64) -> i64| -> ZM { (0..r).map(|i| (0..c).map(|j| f(a[i][j], b[i][j])).collect()).collect() };
        let inp = format!("A = {}, B = {}, x = {}", zs(&a), zs(&b), x);
        let (ma, mb) = (mat(&a), mat(&b));
        ctx.case("add sub neg", inp.clone(), || {
            let sum = f2(&|p, q| p + q);
            ensure!(un(&(&ma + &mb)) == sum && un(&(ma.clone() + mb.clone())) == sum && un(&(&ma + mb.clone())) == sum && un(&(ma.clone() + &mb)) == sum, "A + B");
            let df = f2(&|p, q| p - q);
            ensure!(un(&(&ma - &mb)) == df && un(&(ma.clone() - mb.clone())) == df && un(&(&ma - mb.clone())) == df && un(&(ma.clone() - &mb)) == df, "A - B");
            let ng = f2(&|p, _| -p);
            ensure!(un(&-&ma) == ng && un(&-ma.clone()) == ng, "-A");
            let mut t = ma.clone(); t += &mb; ensure!(un(&t) == sum, "+= &B");
            let mut t = ma.clone(); t += mb.clone(); ensure!(un(&t) == sum, "+= B");
            let mut t = ma.clone(); t -= &mb; ensure!(un(&t) == df, "-= &B");
            let mut t = ma.clone(); t -= mb.clone(); ensure!(un(&t) == df, "-= B");
            Ok(())
        });
        ctx.case("scalar", inp.clone(), || {
            let e = f2(&|p, _| p + x);
            ensure!(un(&(&ma + x)) == e && un(&(&ma + &x)) == e, "A + x");
            let e = f2(&|p, _| p - x);
            ensure!(un(&(&ma - x)) == e && un(&(&ma - &x)) == e, "A - x");
            let e = f2(&|p, _| p * x);
            ensure!(un(&(&ma * x)) == e && un(&(&ma * &x)) == e && un(&(ma.clone() * x)) == e, "A * x");
            let mut t = ma.clone(); t *= &x; ensure!(un(&t) == e, "*= &x");
            let mut t = ma.clone(); t *= x; ensure!(un(&t) == e, "*= x");
            let mx = &ma * x;
            ensure!(un(&(&mx / x)) == a && un(&(&mx / &x)) == a && un(&(mx.clone() / x)) == a, "(A * x) / x");
            Ok(())
        });
        let inp = format!("A = {}, D = {}", zs(&a), zs(&d));
        ctx.case("product", inp, || {
            let md = mat(&d);
            let e = zmul(&a, &d);
            ensure!(un(&(&ma * &md)) == e, "&A * &D = {}", zs(&un(&(&ma * &md))));
            ensure!(un(&(&ma * md.clone())) == e && un(&(ma.clone() * &md)) == e && un(&(ma.clone() * md.clone())) == e, "A * D");
            ensure!(&Matrix::identity(r) * &ma == ma && &ma * Matrix::identity(c) == ma, "identity");
            ensure!((&ma * &md).transpose() == md.transpose() * ma.transpose(), "transpose of a product");
            Ok(())
        });
        let (qa, qd) = (qmat(&mut ctx.rng, r, c), qmat(&mut ctx.rng, c, k));
        let y = qr(ctx.rng.int(1, 7), ctx.rng.int(1, 5));
        ctx.case("rational", format!("A = {}, D = {}, y = {}", oracle::s(&qa), oracle::s(&qd), y), || {
            let m = mat(&qa);
            ensure!(un(&(&m * &mat(&qd))) == oracle::mul(&qa, &qd), "A * D");
            let e: QM = qa.iter().map(|r| r.iter().map(|x| x / &y).collect()).collect();
            ensure!(un(&(&m / &y)) == e, "A / y");
            let e: QM = qa.iter().map(|r| r.iter().map(|x| x * &y).collect()).collect();
            ensure!(un(&(&m * &y)) == e, "A * y");
            Ok(())
        });
        ctx.case("shape mismatch is refused", format!("{}x{}", r, c), || {
            let bad = |f: &dyn Fn()| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
            let o: Matrix<i64> = Matrix::zero(r + 1, c);
            let p: Matrix<i64> = Matrix::zero(c + 1, k);
            ensure!(bad(&|| { let _ = &ma + &o; }), "sum of different shapes");
            ensure!(bad(&|| { let _ = &ma - &o; }), "difference of different shapes");
            ensure!(bad(&|| { let _ = &ma * &p; }), "product of incompatible shapes");
            for i in 1..=12 { for j in 1..=12 {
                // in particular shapes with equally many entries, rows or columns
                if i * j != r * c && i != r && j != c && i != c && j != r { continue }
                let o: Matrix<i64> = Matrix::zero(i, j);
                let (mut m1, mut m2) = (ma.clone(), ma.clone());
                if (i, j) != (r, c) {
                    ensure!(bad(&|| { let _ = &ma + &o; }) && bad(&|| { let _ = ma.clone() + o.clone(); }), "sum with {}x{}", i, j);
                    ensure!(bad(&|| { let _ = &ma - &o; }) && bad(&|| { let _ = ma.clone() - o.clone(); }), "difference with {}x{}", i, j);
                    let (o1, o2) = (o.clone(), o.clone());
                    ensure!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { m1 += o1; })).is_err(), "+= {}x{}", i, j);
                    ensure!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { m2 -= o2; })).is_err(), "-= {}x{}", i, j);
                }
                if i != c { ensure!(bad(&|| { let _ = &ma * &o; }), "product with {}x{}", i, j); }
            } }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- A03

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, PartialOrd, Ord)]
pub struct Wd {}
#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, PartialOrd, Ord)]
pub struct Lc {}
#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, PartialOrd, Ord)]
pub struct Oth {}

pub type Aff = (QM, Vec<Q>);
pub fn aff<CS: Clone>(a: &Aff) -> AffineMap<Q, CS> { AffineMap::new(&mat(&a.0), &Vector::new(&a.1)) }
pub fn unaff<CS: Clone>(a: &AffineMap<Q, CS>) -> Aff { (un(&a.linear_matrix()), a.shift().iter().cloned().collect()) }
fn app(a: &Aff, p: &[Q]) -> Vec<Q> {
    a.0.iter().zip(&a.1).map(|(r, t)| r.iter().zip(p).fold(t.clone(), |s, (x, y)| s + x * y)).collect()
}
fn lin(a: &QM, p: &[Q]) -> Vec<Q> { a.iter().map(|r| r.iter().zip(p).fold(q(0), |s, (x, y)| s + x * y)).collect() }
fn qvec(g: &mut Rng, n: usize) -> Vec<Q> { qmat(g, 1, n)[0].clone() }
pub fn invertible(g: &mut Rng, n: usize) -> QM {
    loop { let a = qmat(g, n, n); if !oracle::det(&a).is_zero() { return a } }
}

pub fn a03(ctx: &mut Ctx) {
    let n = ctx.n(250, 30);
    for _ in 0..n {
        let d = ctx.rng.us(1, 4);
        let g = &mut ctx.rng;
        let (a, b, s): (Aff, Aff, Aff) = ((qmat(g, d, d), qvec(g, d)), (qmat(g, d, d), qvec(g, d)), (qmat_special(g, d, d), qvec(g, d)));
        let (u, v) = (qvec(g, d), qvec(g, d));
        let x = qr(g.int(1, 5), g.int(1, 4));
        let f: Aff = (invertible(g, d), qvec(g, d));
        let h: Aff = (invertible(g, d), qvec(g, d));
        let inp = format!("a = [{} | {}], u = {}", oracle::s(&a.0), oracle::s(&vec![a.1.clone()]), oracle::s(&vec![u.clone()]));
        let col = |v: geo::Vector<Q, Wd>| v.into_iter().collect::<Vec<_>>();
        let pcol = |v: geo::Point<Q, Wd>| v.into_iter().collect::<Vec<_>>();
        ctx.case("points and vectors", format!("u = {:?} v = {:?} x = {}", oracle::s(&vec![u.clone()]), oracle::s(&vec![v.clone()]), x), || {
            let (vu, vv): (Vector<Q, Wd>, Vector<Q, Wd>) = (Vector::new(&u), Vector::new(&v));
            let (pu, pv): (Point<Q, Wd>, Point<Q, Wd>) = (Point::new(&u), Point::new(&v));
            let add: Vec<Q> = u.iter().zip(&v).map(|(x, y)| x + y).collect();
            let sub: Vec<Q> = u.iter().zip(&v).map(|(x, y)| x - y).collect();
            ensure!(vu.dim() == d && pu.dim() == d, "dim");
            for i in 0..d { ensure!(vu[i] == u[i] && pu[i] == u[i], "index"); }
            ensure!(col(&vu + &vv) == add && col(vu.clone() + vv.clone()) == add, "vector + vector");
            ensure!(col(&vu - &vv) == sub && col(vu.clone() - vv.clone()) == sub, "vector - vector");
            ensure!(pcol(&pu + &vv) == add && pcol(pu.clone() + vv.clone()) == add, "point + vector");
            ensure!(pcol(&pu - &vv) == sub && pcol(pu.clone() - vv.clone()) == sub, "point - vector");
            ensure!(col(&pu - &pv) == sub && col(pu.clone() - pv.clone()) == sub && col(&pu - pv.clone()) == sub && col(pu.clone() - &pv) == sub, "point - point");
            ensure!(&pv + (&pu - &pv) == pu, "p + (q - p) = q");
            ensure!(col(-&vu) == u.iter().map(|x| -x).collect::<Vec<_>>() && -vu.clone() == -&vu, "-v");
            ensure!(col(&vu * &x) == u.iter().map(|y| y * &x).collect::<Vec<_>>() && &vu * x.clone() == vu.clone() * &x, "v * x");
            ensure!(col(&vu / &x) == u.iter().map(|y| y / &x).collect::<Vec<_>>() && &vu / x.clone() == vu.clone() / &x, "v / x");
            let m = vu.mod_z();
            for i in 0..d { ensure!(m[i] == oracle::frac(&u[i]), "mod_z of {} is {}", u[i], m[i]); }
            Ok(())
        });
        ctx.case("affine maps act as functions", inp.clone(), || {
            let (ma, mb): (AffineMap<Q, Wd>, AffineMap<Q, Wd>) = (aff(&a), aff(&b));
            let (pu, vu): (Point<Q, Wd>, Vector<Q, Wd>) = (Point::new(&u), Vector::new(&u));
            ensure!(ma.dim() == d, "dim");
            ensure!(pcol(&ma * &pu) == app(&a, &u), "map on point");
            ensure!(col(&ma * &vu) == lin(&a.0, &u), "map on vector");
            ensure!(pcol(&(&ma * &mb) * &pu) == app(&a, &app(&b, &u)), "composition");
            ensure!((&ma * &mb) * &vu == &ma * (&mb * &vu), "composition on vectors");
            ensure!(ma.clone() * mb.clone() == &ma * &mb && &ma * mb.clone() == &ma * &mb, "owned composition");
            let id: AffineMap<Q, Wd> = AffineMap::identity(d);
            ensure!(id.is_identity() && &id * &ma == ma && &ma * &id == ma, "identity");
            ensure!(ma.is_identity() == (a.0 == oracle::identity(d) && a.1.iter().all(|x| x.is_zero())), "is_identity");
            let mut t = id.shift(); t[d - 1] = q(1);
            ensure!(!AffineMap::new(&id.linear_matrix(), &t).is_identity(), "is_identity of a translation");
            let (l, sh) = unaff(&ma.mod_z());
            ensure!(l == a.0 && sh == oracle::fracs(&a.1), "mod_z");
            Ok(())
        });
        ctx.case("inverse maps", format!("[{} | {}]", oracle::s(&s.0), oracle::s(&vec![s.1.clone()])), || {
            let m: AffineMap<Q, Wd> = aff(&s);
            match m.inverse() {
                None => ensure!(oracle::det(&s.0).is_zero(), "no inverse of a regular map"),
                Some(i) => ensure!((&m * &i).is_identity() && (&i * &m).is_identity(), "inverse is {:?}", unaff(&i)),
            }
            Ok(())
        });
        ctx.case("coordinate maps", format!("f = [{} | {}], {}", oracle::s(&f.0), oracle::s(&vec![f.1.clone()]), inp), || {
            let cf: CoordinateMap<Q, Wd, Lc> = CoordinateMap::new(&aff(&f));
            let ch: CoordinateMap<Q, Lc, Oth> = CoordinateMap::new(&aff(&h));
            let (pu, vu): (Point<Q, Wd>, Vector<Q, Wd>) = (Point::new(&u), Vector::new(&u));
            let op: AffineMap<Q, Wd> = aff(&a);
            ensure!(cf.dim() == d && unaff(&cf.forward()) == f, "forward");
            ensure!((&cf * &pu).iter().cloned().collect::<Vec<_>>() == app(&f, &u), "image of a point");
            ensure!((&cf * &vu).iter().cloned().collect::<Vec<_>>() == lin(&f.0, &u), "image of a vector");
            ensure!(&cf.inverse() * &(&cf * &pu) == pu, "round trip of a point");
            ensure!(&cf.inverse() * &(&cf * &vu) == vu, "round trip of a vector");
            ensure!((&cf * &op) * (&cf * &pu) == &cf * &(&op * &pu), "conjugation: (f a f^-1)(f p) = f(a p)");
            ensure!(&cf.inverse() * &(&cf * &op) == op, "round trip of a map");
            ensure!(&(&ch * &cf) * &pu == &ch * &(&cf * &pu), "composition");
            ensure!((&ch * &cf).inverse() * (&ch * &(&cf * &pu)) == pu, "inverse of a composition");
            ensure!(cf.determinant() == oracle::det(&f.0), "determinant");
            ensure!(CoordinateMap::<Q, Wd, Lc>::identity(d).is_identity(), "identity");
            ensure!(cf.is_identity() == (f.0 == oracle::identity(d) && f.1.iter().all(|x| x.is_zero())), "is_identity");
            // the basis vectors of `from_basis` are the images of the unit vectors
            let basis: Vec<Vector<Q, Lc>> = (0..d).map(|j| Vector::new(&f.0.iter().map(|r| r[j].clone()).collect::<Vec<_>>())).collect();
            let fb: CoordinateMap<Q, Wd, Lc> = CoordinateMap::from_basis(&basis);
            let tb: CoordinateMap<Q, Lc, Wd> = CoordinateMap::to_basis(&basis);
            for j in 0..d {
                ensure!(&fb * &Vector::unit(d, j) == basis[j], "from_basis");
                ensure!(&tb * &basis[j] == Vector::unit(d, j), "to_basis");
            }
            Ok(())
        });
        // symmetric positive definite forms
        let gm = oracle::mul(&oracle::transpose(&f.0), &f.0);
        let sym = { let t = qmat(&mut ctx.rng, d, d); let tt = oracle::transpose(&t); (0..d).map(|i| (0..d).map(|j| &t[i][j] + &tt[i][j]).collect()).collect::<QM>() };
        ctx.case("scalar products", format!("G = {}, sym = {}", oracle::s(&gm), oracle::s(&sym)), || {
            let gp: ScalarProduct<Q, Wd> = ScalarProduct::from(mat(&gm));
            let (vu, vv): (Vector<Q, Wd>, Vector<Q, Wd>) = (Vector::new(&u), Vector::new(&v));
            let e = u.iter().zip(lin(&gm, &v)).fold(q(0), |s, (x, y)| s + x * y);
            ensure!(gp.apply(&vu, &vv) == e, "apply");
            for i in 0..d { for j in 0..d { ensure!(gp[(i, j)] == gm[i][j], "index"); } }
            let cf: CoordinateMap<Q, Wd, Lc> = CoordinateMap::new(&aff(&h));
            let gl = &cf * &gp;
            ensure!(gl.apply(&(&cf * &vu), &(&cf * &vv)) == e, "transport keeps values");
            let dp: ScalarProduct<Q, Wd> = ScalarProduct::default(d);
            ensure!(dp.apply(&vu, &vv) == u.iter().zip(&v).fold(q(0), |s, (x, y)| s + x * y), "default product");
            let posdef = (1..=d).all(|k| oracle::det(&sym[..k].iter().map(|r| r[..k].to_vec()).collect()).is_positive());
            let ok = std::panic::catch_unwind(|| { let _: ScalarProduct<Q, Wd> = ScalarProduct::from(mat(&sym)); }).is_ok();
            ensure!(ok == posdef, "accepted: {}, positive definite: {}", ok, posdef);
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- A04

fn igcd(a: i64, b: i64) -> i64 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { (a, b) = (b, a % b); } a }

pub fn a04(ctx: &mut Ctx) {
    let lim = if ctx.thorough { 120 } else { 40 };
    let check = |ctx: &mut Ctx, a: i64, b: i64| {
        ctx.case("gcdx", format!("a = {}, b = {}", a, b), || {
            let (g, r, s, t, u) = gcdx(a, b);
            ensure!(g.abs() == igcd(a, b), "g = {}", g);
            ensure!(r as i128 * a as i128 + s as i128 * b as i128 == g as i128, "r a + s b = {} != {}", r * a + s * b, g);
            ensure!(t as i128 * a as i128 + u as i128 * b as i128 == 0, "t a + u b != 0");
            ensure!((r as i128 * u as i128 - s as i128 * t as i128).abs() == 1, "transformation not unimodular");
            if a.abs() < 1 << 30 && b.abs() < 1 << 30 {
                let (h, p, w, x, y) = gcdx(a as i32, b as i32);
                ensure!((h as i64, p as i64, w as i64, x as i64, y as i64) == (g, r, s, t, u), "i32 differs");
            }
            Ok(())
        });
    };
    for a in -lim..=lim { for b in -lim..=lim { check(ctx, a, b); } }
    for _ in 0..ctx.n(2000, 20) {
        let m = *ctx.rng.pick(&[1000, 1 << 20, 1 << 29, 1 << 40, 1 << 61]);
        let (a, b) = (ctx.rng.int(-m, m), ctx.rng.int(-m, m));
        let f = ctx.rng.int(1, 9);
        check(ctx, a, b);
        if m < 1 << 50 { check(ctx, a * f, b * f); check(ctx, a, a * f); }
    }
    let inv = |ctx: &mut Ctx, a: i64, m: i64| {
        ctx.case("modular_inverse", format!("argument {} modulus {}", a, m), || {
            match ms::modular_inverse(a, m) {
                None => ensure!(igcd(a, m) != 1, "no inverse reported"),
                Some(x) => {
                    ensure!(0 <= x && x < m, "{} is not reduced", x);
                    ensure!((x as i128 * a as i128).rem_euclid(m as i128) == 1, "{} * {} is not 1 modulo {}", x, a, m);
                }
            }
            Ok(())
        });
    };
    for m in 2..=lim { for a in -2 * m..=2 * m { inv(ctx, a, m); } }
    for _ in 0..ctx.n(3000, 20) {
        let m = *ctx.rng.pick(&[9999991, 9999973, 61, 1 << 20, 2147483647, 1000000007, 4611686018427387847]);
        let a = ctx.rng.int(1, m - 1);
        inv(ctx, a, m);
        inv(ctx, -a, m);
        inv(ctx, if a & 1 == 1 { i64::MIN + a } else { i64::MAX - a }, m);
    }
}

// ---------------------------------------------------------------- A05

fn zechelon(h: &ZM) -> Result<Vec<usize>, String> {
    let mut last: Option<usize> = None;
    let mut p = vec![];
    for r in h {
        let c = match r.iter().position(|x| *x != 0) { Some(c) => c, None => return Err("zero row".into()) };
        if let Some(l) = last { if c <= l { return Err("pivots do not move right".into()) } }
        last = Some(c);
        p.push(c);
    }
    Ok(p)
}
fn qechelon(h: &QM) -> Result<Vec<usize>, String> {
    zechelon(&h.iter().map(|r| r.iter().map(|x| !x.is_zero() as i64).collect()).collect())
}

pub fn a05(ctx: &mut Ctx) {
    let n = ctx.n(900, 30);
    for k in 0..n {
        let (r, c) = (ctx.rng.us(1, 5), ctx.rng.us(1, 5));
        let mag = *ctx.rng.pick(&[1, 2, 3, 9]);
        let a = zmat_special(&mut ctx.rng, r, c, mag);
        let b = if k % 2 == 0 { qmat_special(&mut ctx.rng, r, c) } else { qm(&a) };
        // another generating set of the same lattice / space
        let mut a2 = a.clone();
        for _ in 0..3 {
            let (i, j, f) = (ctx.rng.us(0, r - 1), ctx.rng.us(0, r - 1), ctx.rng.int(-2, 2));
            if i != j { for t in 0..c { a2[i][t] += f * a2[j][t]; } } else if f < 0 { for t in 0..c { a2[i][t] = -a2[i][t]; } }
        }
        ctx.rng.shuffle(&mut a2);
        if ctx.rng.chance(1, 2) { let t = (0..c).map(|t| a2[0][t] * 2 - a2[r - 1][t]).collect(); a2.push(t); }
        ctx.case("integer extend_basis", zs(&a), || {
            let mut basis: ZM = vec![];
            for (i, v) in a.iter().enumerate() {
                let before = basis.len();
                extend_basis(v, &mut basis);
                zechelon(&basis).map_err(|e| format!("after row {}: {} in {}", i, e, zs(&basis)))?;
                let h = oracle::hnf(&a[..=i].to_vec());
                ensure!(oracle::hnf(&basis) == h, "after row {}: {} spans another lattice", i, zs(&basis));
                ensure!(basis.len() == h.len() && basis.len() >= before, "after row {}: {} rows", i, basis.len());
            }
            Ok(())
        });
        // machine integers: only inputs whose intermediate values stay small
        if mag <= 3 && c <= 3 && r <= 3 { ctx.case("i32 extend_basis", zs(&a), || {
            let mut basis: Vec<Vec<i32>> = vec![];
            for v in &a { extend_basis(&v.iter().map(|x| *x as i32).collect::<Vec<_>>(), &mut basis); }
            let z: ZM = basis.iter().map(|r| r.iter().map(|x| *x as i64).collect()).collect();
            zechelon(&z)?;
            ensure!(oracle::hnf(&z) == oracle::hnf(&a), "{} spans another lattice", zs(&z));
            Ok(())
        }); }
        ctx.case("rational extend_basis", oracle::s(&b), || {
            let mut basis: QM = vec![];
            for (i, v) in b.iter().enumerate() {
                extend_basis(v, &mut basis);
                qechelon(&basis).map_err(|e| format!("after row {}: {} in {}", i, e, oracle::s(&basis)))?;
                ensure!(oracle::rref(&basis) == oracle::rref(&b[..=i].to_vec()), "after row {}: {} spans another space", i, oracle::s(&basis));
            }
            Ok(())
        });
        ctx.case("rank", zs(&a), || {
            ensure!(mat(&a).rank() == oracle::rank(&qm(&a)), "integer rank {}", mat(&a).rank());
            ensure!(mat(&b).rank() == oracle::rank(&b), "rational rank {}", mat(&b).rank());
            Ok(())
        });
        if a.iter().any(|r| r.iter().any(|x| *x != 0)) {
            ctx.case("integer reduced_basis", format!("{} | {}", zs(&a), zs(&a2)), || {
                let h = un(&mat(&a).reduced_basis());
                let p = zechelon(&h)?;
                for (i, &c) in p.iter().enumerate() {
                    ensure!(h[i][c] > 0, "pivot {} of {}", h[i][c], zs(&h));
                    for k in 0..i { ensure!(0 <= h[k][c] && h[k][c] < h[i][c], "entry above pivot not reduced: {}", zs(&h)); }
                }
                ensure!(oracle::hnf(&h) == oracle::hnf(&a), "{} spans another lattice", zs(&h));
                ensure!(un(&mat(&a2).reduced_basis()) == h, "another generating set of the lattice gives {} instead of {}", zs(&un(&mat(&a2).reduced_basis())), zs(&h));
                Ok(())
            });
        }
        if b.iter().any(|r| r.iter().any(|x| !x.is_zero())) {
            ctx.case("rational reduced_basis", oracle::s(&b), || {
                let h = un(&mat(&b).reduced_basis());
                ensure!(h == oracle::rref(&b), "{} instead of {}", oracle::s(&h), oracle::s(&oracle::rref(&b)));
                Ok(())
            });
        }
    }
}

// ---------------------------------------------------------------- A06

pub fn a06(ctx: &mut Ctx) {
    let n = ctx.n(700, 30);
    for k in 0..n {
        let d = ctx.rng.us(1, 6);
        // machine integers: keep the intermediate values of large matrices small
        let mag = *ctx.rng.pick(if d <= 3 { &[1, 2, 5, 9] } else if d == 4 { &[1, 2, 3, 5] } else { &[1, 1, 2, 2] });
        let a = if k % 2 == 0 { zmat(&mut ctx.rng, d, d, mag) } else { zmat_special(&mut ctx.rng, d, d, mag) };
        let b = if k % 2 == 0 { qmat(&mut ctx.rng, d, d) } else { qmat_special(&mut ctx.rng, d, d) };
        ctx.case("integer determinant", zs(&a), || {
            let e = oracle::det(&qm(&a));
            let x = mat(&a).determinant();
            ensure!(q(x) == e, "{} instead of {}", x, e);
            if d <= 4 {
                let m = mat(&a.iter().map(|r| r.iter().map(|x| *x as i32).collect::<Vec<_>>()).collect::<Vec<_>>());
                ensure!(m.determinant() as i64 == x, "i32: {}", m.determinant());
            }
            Ok(())
        });
        ctx.case("rational determinant", oracle::s(&b), || {
            let e = oracle::det(&b);
            let x = mat(&b).determinant();
            ensure!(x == e, "{} instead of {}", x, e);
            ensure!(mat(&b).transpose().determinant() == e, "transpose");
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- A07

pub fn a07(ctx: &mut Ctx) {
    let n = ctx.n(500, 30);
    for k in 0..n {
        let (r, c, m) = (ctx.rng.us(1, 4), ctx.rng.us(1, 4), ctx.rng.us(1, 3));
        let mag = *ctx.rng.pick(&[1, 2, 5]);
        let a = zmat_special(&mut ctx.rng, r, c, mag);
        let b = if k % 3 == 0 { zmat(&mut ctx.rng, r, m, 4) } else { let x = zmat(&mut ctx.rng, c, m, 3); zmul(&a, &x) };
        let qa = qmat_special(&mut ctx.rng, r, c);
        let qb = if k % 3 == 0 { qmat(&mut ctx.rng, r, m) } else { let x = qmat(&mut ctx.rng, c, m); oracle::mul(&qa, &x) };
        let s = zmat_special(&mut ctx.rng, r, r, 1);
        let qs = qmat_special(&mut ctx.rng, r, r);
        ctx.case("integer solve", format!("A = {}, B = {}", zs(&a), zs(&b)), || {
            let cols = oracle::hnf(&(0..c).map(|j| a.iter().map(|r| r[j]).collect()).collect());
            let solvable = (0..m).all(|j| oracle::in_lattice(&cols, &b.iter().map(|r| r[j]).collect()));
            match mat(&a).solve(&mat(&b)) {
                None => ensure!(!solvable, "solution missed"),
                Some(x) => {
                    ensure!(x.shape() == (c, m), "shape {:?}", x.shape());
                    ensure!(zmul(&a, &un(&x)) == b, "A * {} != B", zs(&un(&x)));
                }
            }
            Ok(())
        });
        ctx.case("rational solve", format!("A = {}, B = {}", oracle::s(&qa), oracle::s(&qb)), || {
            match mat(&qa).solve(&mat(&qb)) {
                None => ensure!(!oracle::solvable(&qa, &qb), "solution missed"),
                Some(x) => {
                    ensure!(x.shape() == (c, m), "shape {:?}", x.shape());
                    ensure!(oracle::mul(&qa, &un(&x)) == qb, "A * {} != B", oracle::s(&un(&x)));
                }
            }
            Ok(())
        });
        ctx.case("integer null_space", zs(&a), || {
            let rk = oracle::rank(&qm(&a));
            match mat(&a).null_space() {
                None => ensure!(rk == c, "null space missed"),
                Some(z) => {
                    ensure!(rk < c && z.shape() == (c, c - rk), "shape {:?}", z.shape());
                    ensure!(zmul(&a, &un(&z)).concat().iter().all(|x| *x == 0), "A * {} != 0", zs(&un(&z)));
                    let zt: ZM = un(&z.transpose());
                    let h = oracle::hnf(&zt);
                    ensure!(h.len() == c - rk, "columns of {} are dependent", zs(&un(&z)));
                    // small integer solutions are integer combinations
                    let mut x = vec![-2i64; c];
                    loop {
                        if a.iter().all(|r| r.iter().zip(&x).map(|(p, q)| p * q).sum::<i64>() == 0) {
                            ensure!(oracle::in_lattice(&h, &x), "{:?} is missing from the span of {}", x, zs(&un(&z)));
                        }
                        let mut i = 0;
                        while i < c && x[i] == 2 { x[i] = -2; i += 1; }
                        if i == c { break }
                        x[i] += 1;
                    }
                }
            }
            Ok(())
        });
        ctx.case("rational null_space", oracle::s(&qa), || {
            let rk = oracle::rank(&qa);
            match mat(&qa).null_space() {
                None => ensure!(rk == c, "null space missed"),
                Some(z) => {
                    ensure!(rk < c && z.shape() == (c, c - rk), "shape {:?}", z.shape());
                    let z = un(&z);
                    ensure!(oracle::mul(&qa, &z).concat().iter().all(|x| x.is_zero()), "A * {} != 0", oracle::s(&z));
                    ensure!(oracle::rank(&oracle::transpose(&z)) == c - rk, "columns of {} are dependent", oracle::s(&z));
                }
            }
            Ok(())
        });
        ctx.case("integer inverse", zs(&s), || {
            let dt = oracle::det(&qm(&s));
            match mat(&s).inverse() {
                None => ensure!(!dt.abs().is_one(), "inverse missed"),
                Some(x) => ensure!(un(&(&mat(&s) * &x)) == un(&Matrix::identity(r)) && (&x * &mat(&s)).is_identity(), "A * {} != 1", zs(&un(&x))),
            }
            Ok(())
        });
        ctx.case("rational inverse", oracle::s(&qs), || {
            match mat(&qs).inverse() {
                None => ensure!(oracle::det(&qs).is_zero(), "inverse missed"),
                Some(x) => ensure!(Some(un(&x)) == oracle::inverse(&qs), "{} is not the inverse", oracle::s(&un(&x))),
            }
            Ok(())
        });
    }
    for c in 1..4usize {
        ctx.case("null space without equations", format!("0x{}", c), || {
            let z = Matrix::<Q>::new(c, &[]).null_space();
            ensure!(z.as_ref().map(|z| z.rank()) == Some(c), "{:?}", z.map(|z| z.shape()));
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- A08

fn modz(m: &ZM, p: i64) -> ZM { m.iter().map(|r| r.iter().map(|x| x.rem_euclid(p)).collect()).collect() }

/// reduced echelon form modulo p, zero rows kept at the end
fn rref_mod(a: &ZM, p: i64) -> ZM {
    let mut m = modz(a, p);
    let (nr, nc) = (m.len(), m[0].len());
    let inv = |x: i64| -> i64 {
        let (mut b, mut e, mut r) = (x as i128, (p - 2) as u64, 1i128);
        if p == 2 { return 1 }
        while e > 0 { if e & 1 == 1 { r = r * b % p as i128 } b = b * b % p as i128; e >>= 1; }
        r as i64
    };
    let mut r = 0;
    for c in 0..nc {
        let k = match (r..nr).find(|&i| m[i][c] != 0) { Some(k) => k, None => continue };
        m.swap(r, k);
        let f = inv(m[r][c]);
        for j in 0..nc { m[r][j] = (m[r][j] as i128 * f as i128 % p as i128) as i64; }
        for i in 0..nr { if i != r && m[i][c] != 0 {
            let g = m[i][c];
            for j in 0..nc { m[i][j] = (m[i][j] as i128 - g as i128 * m[r][j] as i128).rem_euclid(p as i128) as i64; }
        } }
        r += 1;
    }
    m
}

pub fn a08(ctx: &mut Ctx) {
    let n = ctx.n(500, 30);
    for _ in 0..n {
        let p = *ctx.rng.pick(&[2, 3, 5, 7, 11, 61, 9999991, 9999973]);
        let (r, c) = (ctx.rng.us(1, 5), ctx.rng.us(1, 5));
        let mag = *ctx.rng.pick(&[1, 3, 20]);
        let mut a = zmat_special(&mut ctx.rng, r, c, mag);
        if ctx.rng.chance(1, 4) { let (i, j) = (ctx.rng.us(0, r - 1), ctx.rng.us(0, c - 1)); a[i][j] = p * ctx.rng.int(-1, 1); }
        ctx.case("modular echelon form", format!("{} modulo {}", zs(&a), p), || {
            let e = ms::modular_row_echelon_form(&a, p);
            ensure!(e == rref_mod(&a, p), "{} instead of {}", zs(&e), zs(&rref_mod(&a, p)));
            Ok(())
        });
        let mut s = zmat_special(&mut ctx.rng, r, r, mag);
        if ctx.rng.chance(1, 5) { let (i, j) = (ctx.rng.us(0, r - 1), ctx.rng.us(0, r - 1)); s[i][j] = p; }
        ctx.case("modular inverse matrix", format!("{} modulo {}", zs(&s), p), || {
            let d = oracle::det(&qm(&s)).to_integer();
            let regular = !(d % num_bigint::BigInt::from(p)).is_zero();
            match ms::modular_matrix_inverse(&s, p) {
                None => ensure!(!regular, "inverse missed"),
                Some(x) => {
                    ensure!(regular, "inverse of a singular matrix");
                    ensure!(x == modz(&x, p), "not reduced");
                    let id: ZM = (0..r).map(|i| (0..r).map(|j| (i == j) as i64).collect()).collect();
                    let prod: Vec<Vec<i64>> = (0..r).map(|i| (0..r).map(|j| ((0..r).map(|k| x[i][k] as i128 * s[k][j] as i128).sum::<i128>()).rem_euclid(p as i128) as i64).collect()).collect();
                    ensure!(prod == id, "{} is not an inverse", zs(&x));
                }
            }
            Ok(())
        });
        let k = ctx.rng.us(1, 3);
        let b = zmat(&mut ctx.rng, r, k, mag);
        let (ar, br) = (modz(&s, p), modz(&b, p));
        ctx.case("matrix products", format!("{} times {} modulo {}", zs(&ar), zs(&br), p), || {
            let e: ZM = (0..r).map(|i| (0..k).map(|j| ((0..r).map(|t| ar[i][t] as i128 * br[t][j] as i128).sum::<i128>()).rem_euclid(p as i128) as i64).collect()).collect();
            ensure!(ms::modular_matrix_product(&ar, &br, p) == e, "modular product {}", zs(&ms::modular_matrix_product(&ar, &br, p)));
            ensure!(ms::integer_matrix_product(&s, &b) == zmul(&s, &b), "integer product");
            Ok(())
        });
        ctx.case("exact solution", format!("A = {}, B = {}", zs(&s), zs(&b)), || solve_case(&s, &b));
    }
    // large entries, larger systems
    for _ in 0..ctx.n(40, 10) {
        let r = ctx.rng.us(1, 9);
        let mag = *ctx.rng.pick(&[1, 4, 1000, 100000]);
        let a = zmat(&mut ctx.rng, r, r, mag);
        let b = zmat(&mut ctx.rng, r, 2, mag);
        ctx.case("exact solution of larger systems", format!("A = {}, B = {}", zs(&a), zs(&b)), || solve_case(&a, &b));
    }
    // columns of very different sizes, orthogonal columns (tight bounds)
    for _ in 0..ctx.n(80, 20) {
        let r = *ctx.rng.pick(&[1usize, 2, 2, 3, 4, 4, 5]);
        let mut a = zmat(&mut ctx.rng, r, r, 5);
        if ctx.rng.chance(1, 3) {
            for i in 0..r { for j in 0..r { a[i][j] = if r == 2 || r == 4 { if (i & j).count_ones() % 2 == 0 { 1 } else { -1 } } else { (i == j) as i64 }; } }
        }
        for j in 0..r { let f = *ctx.rng.pick(&[1i64, 1, 7, 1000, 99991]); for i in 0..r { a[i][j] *= f; } }
        let k = ctx.rng.us(1, 4);
        let mut b = zmat(&mut ctx.rng, r, k, 9);
        for j in 0..k { let f = *ctx.rng.pick(&[1i64, 1, 100, 123457, 987654321]); for i in 0..r { b[i][j] *= f; } }
        ctx.case("columns of different sizes", format!("A = {}, B = {}", zs(&a), zs(&b)), || solve_case(&a, &b));
    }
    // determinants divisible by the primes in use
    for (a, b) in [(9999991i64, 1i64), (9999991, 9999991), (9999973, 7), (2 * 9999991, 3)] {
        ctx.case("determinant divisible by the prime", format!("A = {}, B = {}", a, b), || solve_case(&vec![vec![a]], &vec![vec![b]]));
        let a2 = vec![vec![1, 1], vec![-1, a - 1]];
        let b2 = vec![vec![b], vec![2]];
        ctx.case("determinant divisible by the prime", format!("A = {}, B = {}", zs(&a2), zs(&b2)), || solve_case(&a2, &b2));
    }
}

fn solve_case(a: &ZM, b: &ZM) -> Result<(), String> {
    let singular = oracle::rank(&qm(a)) < a.len();
    match ms::solve(a, b) {
        None => ensure!(singular, "no solution for a regular matrix"),
        Some(x) => {
            ensure!(!singular, "solution for a singular matrix");
            ensure!(oracle::mul(&qm(a), &x) == qm(b), "A * {} != B", oracle::s(&x));
        }
    }
    Ok(())
}
