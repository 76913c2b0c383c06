@# positive definite scalar products, lattices, obtuse superbases (theory for src/spacegroups/lattices.rs)
pub type RV = Seq<real>;
/// stands for the closure that evaluates a scalar product
pub struct Form { pub g: Ghost<int> }
pub uninterp spec fn fv(f: Form, a: RV, b: RV) -> real;
pub open spec fn vvr(v: Seq<Rat>) -> RV { Seq::new(v.len(), |k: int| v[k].v()) }
pub open spec fn rowsr(b: Seq<Vec<Rat>>) -> Seq<RV> { Seq::new(b.len(), |i: int| vvr(b[i]@)) }
pub open spec fn zr(n: int) -> RV { Seq::new(n as nat, |k: int| 0real) }
pub open spec fn cb(u: RV, a: real, v: RV, b: real) -> RV { Seq::new(u.len(), |k: int| a * u[k] + b * v[k]) }
pub open spec fn cbi(u: RV, a: int, v: RV, b: int) -> RV { cb(u, a as real, v, b as real) }
impl Form {
    #[verifier::external_body] pub fn vdot(&self, a: &Vec<Rat>, b: &Vec<Rat>) -> (r: Rat) ensures r.v() == fv(*self, vvr(a@), vvr(b@)) { unimplemented!() }
}
/// symmetric, linear and positive definite on the vectors of length n
pub open spec fn is_form(f: Form, n: int) -> bool {
    &&& forall|u: RV, v: RV| u.len() == n && v.len() == n ==> #[trigger] fv(f, u, v) == fv(f, v, u)
    &&& forall|u: RV, a: real, v: RV, b: real, w: RV| u.len() == n && v.len() == n && w.len() == n ==> #[trigger] fv(f, cb(u, a, v, b), w) == a * fv(f, u, w) + b * fv(f, v, w)
    &&& forall|u: RV| u.len() == n && u != zr(n) ==> #[trigger] fv(f, u, u) > 0real
}
/// p is a lattice: closed under integer combinations
pub open spec fn latp(p: spec_fn(RV) -> bool, n: int) -> bool {
    forall|u: RV, a: int, v: RV, b: int| u.len() == n && v.len() == n && p(u) && p(v) ==> p(#[trigger] cbi(u, a, v, b))
}
pub open spec fn allp(p: spec_fn(RV) -> bool, b: Seq<RV>) -> bool { forall|i: int| 0 <= i < b.len() ==> p(#[trigger] b[i]) }
pub open spec fn widthr(b: Seq<RV>, n: int) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).len() == n }
/// a and b lie in the same lattices: they generate the same one
pub open spec fn same_lat(a: Seq<RV>, b: Seq<RV>, n: int) -> bool {
    forall|p: spec_fn(RV) -> bool| #[trigger] latp(p, n) ==> (allp(p, a) <==> allp(p, b))
}
pub open spec fn neg1(u: RV) -> RV { cb(u, -1real, u, 0real) }
pub open spec fn plus(u: RV, v: RV) -> RV { cb(u, 1real, v, 1real) }
pub open spec fn lc4(s: Seq<RV>, a: real, b: real, c: real, d: real) -> RV { cb(cb(s[0], a, s[1], b), 1real, cb(s[2], c, s[3], d), 1real) }
/// four vectors that add up to zero with no acute angle
pub open spec fn obtuse4(f: Form, s: Seq<RV>, n: int) -> bool {
    &&& s.len() == 4 && widthr(s, n) && lc4(s, 1real, 1real, 1real, 1real) == zr(n)
    &&& fv(f, s[0], s[1]) <= 0real && fv(f, s[0], s[2]) <= 0real && fv(f, s[0], s[3]) <= 0real
    &&& fv(f, s[1], s[2]) <= 0real && fv(f, s[1], s[3]) <= 0real && fv(f, s[2], s[3]) <= 0real
}
pub proof fn lemma_fv_zero(f: Form, n: int, w: RV)
    requires n >= 0, is_form(f, n), w.len() == n
    ensures fv(f, zr(n), w) == 0real, fv(f, w, zr(n)) == 0real
{
    let z = zr(n);
    assert(cb(z, 0real, z, 0real) =~= z);
    assert(fv(f, cb(z, 0real, z, 0real), w) == 0real * fv(f, z, w) + 0real * fv(f, z, w));
    assert(fv(f, w, z) == fv(f, z, w));
}
pub proof fn lemma_fv_r(f: Form, n: int, u: RV, a: real, v: RV, b: real, w: RV)
    requires is_form(f, n), u.len() == n, v.len() == n, w.len() == n
    ensures fv(f, w, cb(u, a, v, b)) == a * fv(f, w, u) + b * fv(f, w, v), fv(f, cb(u, a, v, b), w) == a * fv(f, w, u) + b * fv(f, w, v)
{
    assert(fv(f, w, cb(u, a, v, b)) == fv(f, cb(u, a, v, b), w));
    assert(fv(f, w, u) == fv(f, u, w));
    assert(fv(f, w, v) == fv(f, v, w));
}
pub proof fn lemma_lc4(f: Form, n: int, s: Seq<RV>, a: real, b: real, c: real, d: real, w: RV)
    requires n >= 0, is_form(f, n), s.len() == 4, widthr(s, n), w.len() == n
    ensures fv(f, lc4(s, a, b, c, d), w) == a * fv(f, s[0], w) + b * fv(f, s[1], w) + c * fv(f, s[2], w) + d * fv(f, s[3], w)
{
    assert(s[0].len() == n && s[1].len() == n && s[2].len() == n && s[3].len() == n);
    let (x, y) = (cb(s[0], a, s[1], b), cb(s[2], c, s[3], d));
    assert(fv(f, cb(x, 1real, y, 1real), w) == 1real * fv(f, x, w) + 1real * fv(f, y, w));
}
/// the contribution of one pair
pub open spec fn pr(q: real, ai: real, aj: real, bi: real, bj: real) -> real { -(q * (bi - bj)) * (ai - aj) }
/// Selling's formula, polarised
pub open spec fn polar(f: Form, s: Seq<RV>, a: (real, real, real, real), b: (real, real, real, real)) -> real {
    pr(fv(f, s[0], s[1]), a.0, a.1, b.0, b.1) + pr(fv(f, s[0], s[2]), a.0, a.2, b.0, b.2) + pr(fv(f, s[0], s[3]), a.0, a.3, b.0, b.3)
    + pr(fv(f, s[1], s[2]), a.1, a.2, b.1, b.2) + pr(fv(f, s[1], s[3]), a.1, a.3, b.1, b.3) + pr(fv(f, s[2], s[3]), a.2, a.3, b.2, b.3)
}
pub proof fn lemma_pr2(q: real, ai: real, aj: real, bi: real, bj: real)
    ensures ai * (q * bj - q * bi) + aj * (q * bi - q * bj) == pr(q, ai, aj, bi, bj)
{
    let t = q * (bi - bj);
    assert(q * bi - q * bj == t) by (nonlinear_arith) requires t == q * (bi - bj);
    assert(ai * (-t) + aj * t == -t * (ai - aj)) by (nonlinear_arith);
}
pub proof fn lemma_polar(f: Form, n: int, s: Seq<RV>, a: (real, real, real, real), b: (real, real, real, real))
    requires n >= 0, is_form(f, n), obtuse4(f, s, n)
    ensures fv(f, lc4(s, a.0, a.1, a.2, a.3), lc4(s, b.0, b.1, b.2, b.3)) == polar(f, s, a, b)
{
    let y = lc4(s, b.0, b.1, b.2, b.3);
    assert(s[0].len() == n && s[1].len() == n && s[2].len() == n && s[3].len() == n);
    lemma_lc4(f, n, s, a.0, a.1, a.2, a.3, y);
    let (g01, g02, g03, g12, g13, g23) = (fv(f, s[0], s[1]), fv(f, s[0], s[2]), fv(f, s[0], s[3]), fv(f, s[1], s[2]), fv(f, s[1], s[3]), fv(f, s[2], s[3]));
    let ones = lc4(s, 1real, 1real, 1real, 1real);
    lemma_lc4(f, n, s, b.0, b.1, b.2, b.3, s[0]); lemma_lc4(f, n, s, 1real, 1real, 1real, 1real, s[0]); lemma_fv_zero(f, n, s[0]);
    lemma_lc4(f, n, s, b.0, b.1, b.2, b.3, s[1]); lemma_lc4(f, n, s, 1real, 1real, 1real, 1real, s[1]); lemma_fv_zero(f, n, s[1]);
    lemma_lc4(f, n, s, b.0, b.1, b.2, b.3, s[2]); lemma_lc4(f, n, s, 1real, 1real, 1real, 1real, s[2]); lemma_fv_zero(f, n, s[2]);
    lemma_lc4(f, n, s, b.0, b.1, b.2, b.3, s[3]); lemma_lc4(f, n, s, 1real, 1real, 1real, 1real, s[3]); lemma_fv_zero(f, n, s[3]);
    assert(fv(f, s[1], s[0]) == g01 && fv(f, s[2], s[0]) == g02 && fv(f, s[3], s[0]) == g03 && fv(f, s[2], s[1]) == g12 && fv(f, s[3], s[1]) == g13 && fv(f, s[3], s[2]) == g23);
    assert(y.len() == n);
    assert(fv(f, s[0], y) == fv(f, y, s[0]) && fv(f, s[1], y) == fv(f, y, s[1]) && fv(f, s[2], y) == fv(f, y, s[2]) && fv(f, s[3], y) == fv(f, y, s[3]));
    let (g00, g11, g22, g33) = (fv(f, s[0], s[0]), fv(f, s[1], s[1]), fv(f, s[2], s[2]), fv(f, s[3], s[3]));
    assert(g00 == -g01 - g02 - g03 && g11 == -g01 - g12 - g13 && g22 == -g02 - g12 - g23 && g33 == -g03 - g13 - g23);
    lemma_split(b.0, g00, g01, g02, g03); lemma_split(b.1, g11, g01, g12, g13); lemma_split(b.2, g22, g02, g12, g23); lemma_split(b.3, g33, g03, g13, g23);
    lemma_pr2(g01, a.0, a.1, b.0, b.1); lemma_pr2(g02, a.0, a.2, b.0, b.2); lemma_pr2(g03, a.0, a.3, b.0, b.3);
    lemma_pr2(g12, a.1, a.2, b.1, b.2); lemma_pr2(g13, a.1, a.3, b.1, b.3); lemma_pr2(g23, a.2, a.3, b.2, b.3);
    let y0 = fv(f, y, s[0]); let y1 = fv(f, y, s[1]); let y2 = fv(f, y, s[2]); let y3 = fv(f, y, s[3]);
    assert(b.1 * g01 == g01 * b.1 && b.2 * g02 == g02 * b.2 && b.3 * g03 == g03 * b.3 && b.0 * g01 == g01 * b.0 && b.2 * g12 == g12 * b.2 && b.3 * g13 == g13 * b.3) by (nonlinear_arith);
    assert(b.0 * g02 == g02 * b.0 && b.1 * g12 == g12 * b.1 && b.3 * g23 == g23 * b.3 && b.0 * g03 == g03 * b.0 && b.1 * g13 == g13 * b.1 && b.2 * g23 == g23 * b.2) by (nonlinear_arith);
    lemma_split3(a.0, y0, g01 * b.1 - g01 * b.0, g02 * b.2 - g02 * b.0, g03 * b.3 - g03 * b.0);
    lemma_split3(a.1, y1, g01 * b.0 - g01 * b.1, g12 * b.2 - g12 * b.1, g13 * b.3 - g13 * b.1);
    lemma_split3(a.2, y2, g02 * b.0 - g02 * b.2, g12 * b.1 - g12 * b.2, g23 * b.3 - g23 * b.2);
    lemma_split3(a.3, y3, g03 * b.0 - g03 * b.3, g13 * b.1 - g13 * b.3, g23 * b.2 - g23 * b.3);
}
pub proof fn lemma_split(b: real, g: real, x: real, y: real, z: real)
    requires g == -x - y - z
    ensures b * g == -(x * b) - y * b - z * b
{ assert(b * (-x - y - z) == -(x * b) - y * b - z * b) by (nonlinear_arith); }
pub proof fn lemma_split3(a: real, y: real, p: real, q: real, r: real)
    requires y == p + q + r
    ensures a * y == a * p + a * q + a * r
{ assert(a * (p + q + r) == a * p + a * q + a * r) by (nonlinear_arith); }
pub type I4 = (int, int, int, int);
pub type R4 = (real, real, real, real);
pub open spec fn re(n: I4) -> R4 { (n.0 as real, n.1 as real, n.2 as real, n.3 as real) }
/// the lattice vector with these coefficients
pub open spec fn lv(s: Seq<RV>, n: I4) -> RV { lc4(s, n.0 as real, n.1 as real, n.2 as real, n.3 as real) }
pub open spec fn nrm(f: Form, v: RV) -> real { fv(f, v, v) }
pub open spec fn par(n: I4) -> I4 { (n.0 % 2, n.1 % 2, n.2 % 2, n.3 % 2) }
pub open spec fn sub4(n: I4, m: I4) -> I4 { (n.0 - m.0, n.1 - m.1, n.2 - m.2, n.3 - m.3) }
pub open spec fn bits(n: I4) -> bool { 0 <= n.0 <= 1 && 0 <= n.1 <= 1 && 0 <= n.2 <= 1 && 0 <= n.3 <= 1 }
pub open spec fn same4(n: I4) -> bool { n.0 == n.1 && n.1 == n.2 && n.2 == n.3 }
pub proof fn lemma_pr_mono(q: real, ni: int, nj: int)
    requires q <= 0real
    ensures pr(q, (ni % 2) as real, (nj % 2) as real, (ni % 2) as real, (nj % 2) as real) <= pr(q, ni as real, nj as real, ni as real, nj as real)
{
    let d = ni % 2 - nj % 2;
    let e = ni - nj;
    assert(d * d <= e * e) by (nonlinear_arith) requires d == 0 || ((d == 1 || d == -1) && (e >= 1 || e <= -1));
    let (dr, er) = (d as real, e as real);
    assert(dr * dr == (d * d) as real) by { lemma_mulr(d, d); }
    assert(er * er == (e * e) as real) by { lemma_mulr(e, e); }
    assert(-(q * dr) * dr == -q * (dr * dr)) by (nonlinear_arith);
    assert(-(q * er) * er == -q * (er * er)) by (nonlinear_arith);
    let (x, y) = (dr * dr, er * er);
    assert(-q * x <= -q * y) by (nonlinear_arith) requires x <= y, q <= 0real;
}
pub proof fn lemma_mulr(a: int, b: int)
    ensures (a as real) * (b as real) == (a * b) as real
    decreases (if b < 0 { -b } else { b })
{
    if b == 0 { assert((a as real) * 0real == 0real); assert(a * 0 == 0); assert(b as real == 0real); }
    else if b > 0 {
        lemma_mulr(a, b - 1);
        assert(a * b == a * (b - 1) + a) by (nonlinear_arith);
        let (x, y, z) = (a as real, b as real, (b - 1) as real);
        assert(x * y == x * z + x) by (nonlinear_arith) requires y == z + 1real;
    } else {
        lemma_mulr(a, b + 1);
        assert(a * b == a * (b + 1) - a) by (nonlinear_arith);
        let (x, y, z) = (a as real, b as real, (b + 1) as real);
        assert(x * y == x * z - x) by (nonlinear_arith) requires y == z - 1real;
    }
}
/// no vector of the class of n modulo twice the lattice is shorter than the partial sum of that class
pub proof fn lemma_class(f: Form, n: int, s: Seq<RV>, m: I4)
    requires n >= 0, is_form(f, n), obtuse4(f, s, n)
    ensures nrm(f, lv(s, par(m))) <= nrm(f, lv(s, m))
{
    lemma_polar(f, n, s, re(m), re(m));
    lemma_polar(f, n, s, re(par(m)), re(par(m)));
    lemma_pr_mono(fv(f, s[0], s[1]), m.0, m.1); lemma_pr_mono(fv(f, s[0], s[2]), m.0, m.2); lemma_pr_mono(fv(f, s[0], s[3]), m.0, m.3);
    lemma_pr_mono(fv(f, s[1], s[2]), m.1, m.2); lemma_pr_mono(fv(f, s[1], s[3]), m.1, m.3); lemma_pr_mono(fv(f, s[2], s[3]), m.2, m.3);
}
pub open spec fn max4(n: I4) -> int {
    let a = if n.0 >= n.1 { n.0 } else { n.1 };
    let b = if n.2 >= n.3 { n.2 } else { n.3 };
    if a >= b { a } else { b }
}
pub open spec fn top(n: I4) -> I4 {
    let m = max4(n);
    (if n.0 == m { 1int } else { 0 }, if n.1 == m { 1int } else { 0 }, if n.2 == m { 1int } else { 0 }, if n.3 == m { 1int } else { 0 })
}
pub open spec fn spread(n: I4) -> int { let m = max4(n); 4 * m - n.0 - n.1 - n.2 - n.3 }
pub proof fn lemma_lv_plus(s: Seq<RV>, d: int, n: I4, m: I4)
    requires s.len() == 4, widthr(s, d)
    ensures lv(s, n) == plus(lv(s, sub4(n, m)), lv(s, m))
{
    assert(s[0].len() == d && s[1].len() == d && s[2].len() == d && s[3].len() == d);
    let (u, v) = (lv(s, n), plus(lv(s, sub4(n, m)), lv(s, m)));
    assert forall|k: int| 0 <= k < d implies u[k] == v[k] by {
        lemma_dist(s[0][k], n.0, m.0); lemma_dist(s[1][k], n.1, m.1); lemma_dist(s[2][k], n.2, m.2); lemma_dist(s[3][k], n.3, m.3);
    }
    assert(u =~= v);
}
pub proof fn lemma_dist(x: real, a: int, b: int)
    ensures (a as real) * x == ((a - b) as real) * x + (b as real) * x
{
    let (p, q, r) = (a as real, (a - b) as real, b as real);
    assert(p * x == q * x + r * x) by (nonlinear_arith) requires p == q + r;
}
pub proof fn lemma_pr_top(q: real, x: int, y: int, u: int, v: int)
    requires q <= 0real, (u == v) || (u == 1 && v == 0 && x >= y) || (u == 0 && v == 1 && x <= y)
    ensures pr(q, u as real, v as real, x as real, y as real) >= 0real
{
    let (d, e) = ((x - y) as real, (u - v) as real);
    assert(-(q * d) * e == -q * (d * e)) by (nonlinear_arith);
    assert(d * e >= 0real) by (nonlinear_arith) requires e == 0real || (e == 1real && d >= 0real) || (e == -1real && d <= 0real);
    let t = d * e;
    assert(-q * t >= 0real) by (nonlinear_arith) requires t >= 0real, q <= 0real;
}
/// taking off the partial sum of the largest coefficients
pub proof fn lemma_peel(f: Form, d: int, s: Seq<RV>, n: I4)
    requires d >= 0, is_form(f, d), obtuse4(f, s, d), !same4(n)
    ensures nrm(f, lv(s, n)) >= nrm(f, lv(s, sub4(n, top(n)))) + nrm(f, lv(s, top(n))), lv(s, n) == plus(lv(s, sub4(n, top(n))), lv(s, top(n))),
        bits(top(n)), !same4(top(n)), 0 <= spread(sub4(n, top(n))) < spread(n)
{
    let m = top(n);
    let k = sub4(n, m);
    lemma_lv_plus(s, d, n, m);
    lemma_polar(f, d, s, re(m), re(k));
    lemma_pr_top(fv(f, s[0], s[1]), k.0, k.1, m.0, m.1); lemma_pr_top(fv(f, s[0], s[2]), k.0, k.2, m.0, m.2); lemma_pr_top(fv(f, s[0], s[3]), k.0, k.3, m.0, m.3);
    lemma_pr_top(fv(f, s[1], s[2]), k.1, k.2, m.1, m.2); lemma_pr_top(fv(f, s[1], s[3]), k.1, k.3, m.1, m.3); lemma_pr_top(fv(f, s[2], s[3]), k.2, k.3, m.2, m.3);
    lemma_nrm_plus(f, d, lv(s, k), lv(s, m));
    assert(fv(f, lv(s, m), lv(s, k)) >= 0real);
}
pub proof fn lemma_nrm_plus(f: Form, d: int, u: RV, v: RV)
    requires is_form(f, d), u.len() == d, v.len() == d
    ensures nrm(f, plus(u, v)) == nrm(f, u) + nrm(f, v) + 2real * fv(f, u, v), fv(f, u, v) == fv(f, v, u)
{
    let w = plus(u, v);
    lemma_fv_r(f, d, u, 1real, v, 1real, w);
    lemma_fv_r(f, d, u, 1real, v, 1real, u);
    lemma_fv_r(f, d, u, 1real, v, 1real, v);
    assert(fv(f, u, w) == fv(f, w, u) && fv(f, v, w) == fv(f, w, v));
}
pub proof fn lemma_same4(s: Seq<RV>, d: int, n: I4)
    requires s.len() == 4, widthr(s, d), lc4(s, 1real, 1real, 1real, 1real) == zr(d), same4(n), d >= 0
    ensures lv(s, n) == zr(d)
{
    assert(s[0].len() == d && s[1].len() == d && s[2].len() == d && s[3].len() == d);
    let o = lc4(s, 1real, 1real, 1real, 1real);
    assert forall|k: int| 0 <= k < d implies lv(s, n)[k] == 0real by {
        assert(o[k] == 0real);
        let (w, x, y, z, t) = (s[0][k], s[1][k], s[2][k], s[3][k], n.0 as real);
        assert(t * w + t * x + t * y + t * z == 0real) by (nonlinear_arith) requires w + x + y + z == 0real;
    }
    assert(lv(s, n) =~= zr(d));
}
/// y has no more than half its norm in the direction of p
pub open spec fn halved(f: Form, p: RV, y: RV) -> bool { -nrm(f, y) <= 2real * fv(f, p, y) && 2real * fv(f, p, y) <= nrm(f, y) }
/// p is as close to the origin as to any lattice vector, if it is so for the partial sums
pub proof fn lemma_near(f: Form, d: int, s: Seq<RV>, p: RV, n: I4)
    requires d >= 0, is_form(f, d), obtuse4(f, s, d), p.len() == d,
        forall|m: I4| bits(m) && m.3 == 0 ==> #[trigger] halved(f, p, lv(s, m))
    ensures nrm(f, lv(s, n)) + 2real * fv(f, p, lv(s, n)) >= 0real
    decreases spread(n)
{
    if same4(n) {
        lemma_same4(s, d, n);
        lemma_fv_zero(f, d, p);
        lemma_fv_zero(f, d, zr(d));
    } else {
        lemma_peel(f, d, s, n);
        let m = top(n);
        let k = sub4(n, m);
        lemma_near(f, d, s, p, k);
        lemma_fv_r(f, d, lv(s, k), 1real, lv(s, m), 1real, p);
        lemma_halved(f, d, s, p, m);
    }
}
pub proof fn lemma_halved(f: Form, d: int, s: Seq<RV>, p: RV, m: I4)
    requires d >= 0, is_form(f, d), obtuse4(f, s, d), p.len() == d, bits(m),
        forall|m: I4| bits(m) && m.3 == 0 ==> #[trigger] halved(f, p, lv(s, m))
    ensures halved(f, p, lv(s, m))
{
    if m.3 == 1 {
        let c: I4 = (1 - m.0, 1 - m.1, 1 - m.2, 0);
        assert(halved(f, p, lv(s, c)));
        lemma_compl(f, d, s, p, m);
    }
}
pub proof fn lemma_compl(f: Form, d: int, s: Seq<RV>, p: RV, m: I4)
    requires d >= 0, is_form(f, d), obtuse4(f, s, d), p.len() == d, bits(m),
    ensures ({ let c: I4 = (1 - m.0, 1 - m.1, 1 - m.2, 1 - m.3); nrm(f, lv(s, m)) == nrm(f, lv(s, c)) && fv(f, p, lv(s, m)) == -fv(f, p, lv(s, c)) && lv(s, c) == neg1(lv(s, m)) })
{
    let c: I4 = (1 - m.0, 1 - m.1, 1 - m.2, 1 - m.3);
    let o: I4 = (1, 1, 1, 1);
    assert(sub4(o, m) == c);
    lemma_lv_plus(s, d, o, m);
    lemma_same4(s, d, o);
    assert(s[0].len() == d && s[1].len() == d && s[2].len() == d && s[3].len() == d);
    let (u, v) = (lv(s, m), lv(s, c));
    assert forall|k: int| 0 <= k < d implies v[k] == neg1(u)[k] by { assert(plus(v, u)[k] == zr(d)[k]); }
    assert(v =~= neg1(u));
    lemma_fv_r(f, d, u, -1real, u, 0real, p);
    lemma_fv_r(f, d, u, -1real, u, 0real, v);
    lemma_fv_r(f, d, u, -1real, u, 0real, u);
    assert(fv(f, u, v) == fv(f, v, u));
}
pub proof fn lemma_lat(w: spec_fn(RV) -> bool, d: int, u: RV, a: int, v: RV, b: int)
    requires latp(w, d), u.len() == d, v.len() == d, w(u), w(v)
    ensures w(cb(u, a as real, v, b as real))
{ assert(w(cbi(u, a, v, b))); }
pub proof fn lemma_lat_neg(w: spec_fn(RV) -> bool, d: int, u: RV, v: RV)
    requires latp(w, d), u.len() == d, w(v), v == neg1(u)
    ensures w(u)
{
    lemma_lat(w, d, v, -1, v, 0);
    assert(cb(v, (-1int) as real, v, 0int as real) =~= u);
}
/// of a lattice vector outside of the subspace w, some partial sum outside is no longer
pub proof fn lemma_outside(f: Form, d: int, s: Seq<RV>, w: spec_fn(RV) -> bool, n: I4) -> (m: I4)
    requires d >= 0, is_form(f, d), obtuse4(f, s, d), w(zr(d)), latp(w, d), !w(lv(s, n))
    ensures bits(m), m.3 == 0, !w(lv(s, m)), nrm(f, lv(s, m)) <= nrm(f, lv(s, n))
    decreases spread(n)
{
    assert(s[0].len() == d && s[1].len() == d && s[2].len() == d && s[3].len() == d);
    if same4(n) { lemma_same4(s, d, n); n } else {
        lemma_peel(f, d, s, n);
        let m = top(n);
        let k = sub4(n, m);
        lemma_nonneg(f, d, lv(s, k)); lemma_nonneg(f, d, lv(s, m));
        if !w(lv(s, m)) {
            if m.3 == 0 { m } else {
                let c: I4 = (1 - m.0, 1 - m.1, 1 - m.2, 0);
                lemma_compl(f, d, s, lv(s, m), m);
                if w(lv(s, c)) { lemma_lat_neg(w, d, lv(s, m), lv(s, c)); }
                c
            }
        } else {
            if w(lv(s, k)) { lemma_lat(w, d, lv(s, k), 1, lv(s, m), 1); }
            lemma_outside(f, d, s, w, k)
        }
    }
}
pub proof fn lemma_nonneg(f: Form, d: int, v: RV)
    requires d >= 0, is_form(f, d), v.len() == d
    ensures nrm(f, v) >= 0real
{ if v == zr(d) { lemma_fv_zero(f, d, v); } else { assert(fv(f, v, v) > 0real); } }
