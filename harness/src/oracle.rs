//! Independent exact arithmetic used as oracle: rational elimination,
//! integer lattices, determinants by cofactor expansion.
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};

pub type Q = BigRational;
pub type QM = Vec<Vec<Q>>;
pub type ZM = Vec<Vec<i64>>;

pub fn q(n: i64) -> Q { Q::from(BigInt::from(n)) }
pub fn qr(n: i64, d: i64) -> Q { Q::new(BigInt::from(n), BigInt::from(d)) }
pub fn qm(m: &ZM) -> QM { m.iter().map(|r| r.iter().map(|&x| q(x)).collect()).collect() }

pub fn mul(a: &QM, b: &QM) -> QM {
    let k = b.len();
    let n = if k > 0 { b[0].len() } else { 0 };
    a.iter().map(|r| (0..n).map(|j| {
        let mut s = Q::zero();
        for i in 0..k { s = s + r[i].clone() * b[i][j].clone(); }
        s
    }).collect()).collect()
}

pub fn transpose(a: &QM) -> QM {
    if a.is_empty() { return vec![] }
    (0..a[0].len()).map(|j| a.iter().map(|r| r[j].clone()).collect()).collect()
}

pub fn identity(n: usize) -> QM {
    (0..n).map(|i| (0..n).map(|j| if i == j { Q::one() } else { Q::zero() }).collect()).collect()
}

/// reduced row echelon form, zero rows dropped
pub fn rref(a: &QM) -> QM {
    let mut rows = a.clone();
    let n = if rows.is_empty() { 0 } else { rows[0].len() };
    let mut r = 0;
    for c in 0..n {
        let p = match (r..rows.len()).find(|&i| !rows[i][c].is_zero()) { Some(p) => p, None => continue };
        rows.swap(r, p);
        let f = rows[r][c].clone();
        for x in rows[r].iter_mut() { *x = x.clone() / f.clone(); }
        for i in 0..rows.len() {
            if i != r && !rows[i][c].is_zero() {
                let g = rows[i][c].clone();
                for k in 0..n { let t = rows[r][k].clone() * g.clone(); rows[i][k] = rows[i][k].clone() - t; }
            }
        }
        r += 1;
    }
    rows.truncate(r);
    rows
}

pub fn rank(a: &QM) -> usize { rref(a).len() }

pub fn det(a: &QM) -> Q {
    let n = a.len();
    if n == 0 { return Q::one() }
    let mut s = Q::zero();
    for j in 0..n {
        if a[0][j].is_zero() { continue }
        let m: QM = a[1..].iter().map(|r| r.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, x)| x.clone()).collect()).collect();
        let t = a[0][j].clone() * det(&m);
        s = if j % 2 == 0 { s + t } else { s - t };
    }
    s
}

pub fn inverse(a: &QM) -> Option<QM> {
    let n = a.len();
    let aug: QM = (0..n).map(|i| { let mut r = a[i].clone(); r.extend(identity(n)[i].clone()); r }).collect();
    let e = rref(&aug);
    for i in 0..n { for j in 0..n {
        if e.len() < n || e[i][j] != (if i == j { Q::one() } else { Q::zero() }) { return None }
    } }
    Some(e.iter().map(|r| r[n..].to_vec()).collect())
}

/// solvability of a x = b over the rationals
pub fn solvable(a: &QM, b: &QM) -> bool {
    let aug: QM = a.iter().zip(b).map(|(r, s)| { let mut r = r.clone(); r.extend(s.clone()); r }).collect();
    rank(&aug) == rank(a)
}

/// Hermite basis of the integer lattice spanned by the rows (i128 arithmetic)
pub fn hnf(a: &ZM) -> Vec<Vec<i128>> {
    let mut rows: Vec<Vec<i128>> = a.iter().map(|r| r.iter().map(|&x| x as i128).collect()).collect();
    let n = if rows.is_empty() { 0 } else { rows[0].len() };
    let mut r = 0;
    for c in 0..n {
        loop {
            let nz: Vec<usize> = (r..rows.len()).filter(|&i| rows[i][c] != 0).collect();
            if nz.is_empty() { break }
            let p = *nz.iter().min_by_key(|&&i| rows[i][c].abs()).unwrap();
            rows.swap(r, p);
            let mut more = false;
            for i in r + 1..rows.len() {
                let f = rows[i][c].div_euclid(rows[r][c]);
                if f != 0 { for k in 0..n { let t = rows[r][k] * f; rows[i][k] -= t; } }
                if rows[i][c] != 0 { more = true }
            }
            if !more { break }
        }
        if r < rows.len() && rows[r][c] != 0 {
            if rows[r][c] < 0 { for k in 0..n { rows[r][k] = -rows[r][k]; } }
            for i in 0..r {
                let f = rows[i][c].div_euclid(rows[r][c]);
                if f != 0 { for k in 0..n { let t = rows[r][k] * f; rows[i][k] -= t; } }
            }
            r += 1;
        }
    }
    rows.truncate(r);
    rows
}

/// membership of v in the lattice with Hermite basis h
pub fn in_lattice(h: &Vec<Vec<i128>>, v: &Vec<i64>) -> bool {
    let mut v: Vec<i128> = v.iter().map(|&x| x as i128).collect();
    for r in h {
        let c = r.iter().position(|x| *x != 0).unwrap();
        if v[c] % r[c] != 0 { return false }
        let f = v[c] / r[c];
        for k in 0..v.len() { v[k] -= f * r[k]; }
    }
    v.iter().all(|x| *x == 0)
}

/// Hermite form of a rational lattice: scale to integers, reduce, scale back
pub fn qlattice(vs: &Vec<Vec<Q>>) -> Vec<Vec<Q>> {
    let mut d = BigInt::one();
    for v in vs { for x in v { d = num_integer::Integer::lcm(&d, x.denom()); } }
    let z: ZM = vs.iter().map(|v| v.iter().map(|x| {
        let y = (x * Q::from(d.clone())).to_integer();
        num_traits::ToPrimitive::to_i64(&y).unwrap()
    }).collect()).collect();
    hnf(&z).iter().map(|r| r.iter().map(|x| Q::new(BigInt::from(*x), d.clone())).collect()).collect()
}

pub fn frac(x: &Q) -> Q { x - x.floor() }
pub fn fracs(v: &[Q]) -> Vec<Q> { v.iter().map(frac).collect() }
pub fn abs(x: &Q) -> Q { x.abs() }

pub fn s(v: &QM) -> String {
    v.iter().map(|r| r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("; ")
}
