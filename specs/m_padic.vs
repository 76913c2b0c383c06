@# src/arithmetic/modular_solver.rs: lifting an inverse modulo a prime to the exact rational solution
/// w is the square root of h, lam = 1/phi the golden section
pub open spec fn golden(w: real, lam: real, h: int) -> bool { w > 0real && lam > 0real && lam * lam + lam == 1real && w * w == h as real }
pub open spec fn small(x: int, w: real, lam: real) -> bool { -(lam * w) < x as real && (x as real) < lam * w }
pub open spec fn iabs2(x: int) -> int { if x < 0 { -x } else { x } }
/// the invariant of the remainder sequence for s and h
pub open spec fn recon_inv(s: int, h: int, u: int, u1: int, v: int, v1: int, sign: int) -> bool {
    &&& sign == 1 || sign == -1
    &&& u * v1 + u1 * v == h
    &&& u * v1 >= 0 && u1 * v >= 0
    &&& iabs(u1) < iabs(u) && v1 != 0 && u != 0
    &&& cg(sign * u1, s * v1, h) && cg(-sign * u, s * v, h)
    &&& u * u > h
}
pub proof fn lemma_recon_step(s: int, h: int, u: int, u1: int, v: int, v1: int, sign: int, q: int, r: int)
    requires h >= 2, recon_inv(s, h, u, u1, v, v1, sign), u1 * u1 > h, q == tdiv(u, u1), r == trem(u, u1)
    ensures recon_inv(s, h, u1, r, v1, v + q * v1, -sign), iabs(r) < iabs(u1)
{
    assert(u1 != 0) by (nonlinear_arith) requires u1 * u1 > h, h >= 2;
    lemma_tdiv(u, u1);
    assert(u == u1 * q + r);
    let v2 = v + q * v1;
    assert(u1 * v2 + r * v1 == u * v1 + u1 * v) by (nonlinear_arith) requires u == u1 * q + r, v2 == v + q * v1;
    // signs
    let qu = q * u1;
    assert(u1 * q == qu) by (nonlinear_arith) requires qu == q * u1;
    assert(u >= 0 ==> qu >= 0) by { if u >= 0 && qu < 0 { assert(iabs(qu) >= iabs(u1)) by (nonlinear_arith) requires qu == q * u1, qu < 0, iabs(qu) == (if qu < 0 { -qu } else { qu }), iabs(u1) == (if u1 < 0 { -u1 } else { u1 }); assert(false); } }
    assert(u <= 0 ==> qu <= 0) by { if u <= 0 && qu > 0 { assert(iabs(qu) >= iabs(u1)) by (nonlinear_arith) requires qu == q * u1, qu > 0, iabs(qu) == (if qu < 0 { -qu } else { qu }), iabs(u1) == (if u1 < 0 { -u1 } else { u1 }); assert(false); } }
    assert(r * v1 >= 0) by (nonlinear_arith) requires u * v1 >= 0, u >= 0 ==> r >= 0, u <= 0 ==> r <= 0, u != 0;
    assert(qu * v1 >= 0) by (nonlinear_arith) requires u * v1 >= 0, u >= 0 ==> qu >= 0, u <= 0 ==> qu <= 0, u != 0;
    assert(u1 * v2 == u1 * v + qu * v1) by (nonlinear_arith) requires v2 == v + q * v1, qu == q * u1;
    // v2 is not zero
    assert(q != 0) by { if q == 0 { assert(u1 * 0 == 0); } }
    assert(v2 != 0) by {
        if v2 == 0 {
            assert(u1 * v2 == 0) by (nonlinear_arith) requires v2 == 0;
            assert(qu != 0) by (nonlinear_arith) requires qu == q * u1, q != 0, u1 != 0;
            assert(qu * v1 != 0) by (nonlinear_arith) requires qu != 0, v1 != 0;
        }
    }
    // congruences
    let k = lemma_cg_k(sign * u1, s * v1, h);
    let l = lemma_cg_k(-sign * u, s * v, h);
    let (t, z, sv, sv1) = (sign * u1, -sign * u, s * v, s * v1);
    assert((-sign) * r == z + q * t) by (nonlinear_arith) requires t == sign * u1, z == -sign * u, u == u1 * q + r;
    assert(q * t == q * sv1 + (q * k) * h) by (nonlinear_arith) requires t == sv1 + k * h;
    assert(s * v2 == sv + q * sv1) by (nonlinear_arith) requires v2 == v + q * v1, sv == s * v, sv1 == s * v1;
    assert((-sign) * r == s * v2 + (l + q * k) * h) by (nonlinear_arith)
        requires (-sign) * r == z + q * t, q * t == q * sv1 + (q * k) * h, s * v2 == sv + q * sv1, z == sv + l * h;
    lemma_k_cg((-sign) * r, s * v2, h, l + q * k);
    assert(-(-sign) * u1 == sign * u1);
}
/// products of signs
pub proof fn lemma_same_sign(a: int, b: int, u: int, u1: int, v: int, v1: int)
    requires a != 0, u * v1 >= 0, u1 * v >= 0, a * u > 0 && b * u1 > 0 || a * u < 0 && b * u1 < 0
    ensures (a * v) * (b * v1) >= 0
{
    let (x, y) = (a * u, b * u1);
    let (p, q) = (u * v1, u1 * v);
    let (m, n) = (a * v, b * v1);
    assert(x * y > 0) by (nonlinear_arith) requires x > 0 && y > 0 || x < 0 && y < 0;
    assert(p * q >= 0) by (nonlinear_arith) requires p >= 0, q >= 0;
    let (ab, uu, vv) = (a * b, u * u1, v * v1);
    assert(x * y == ab * uu) by (nonlinear_arith) requires x == a * u, y == b * u1, ab == a * b, uu == u * u1;
    assert(p * q == uu * vv) by (nonlinear_arith) requires p == u * v1, q == u1 * v, uu == u * u1, vv == v * v1;
    assert(m * n == ab * vv) by (nonlinear_arith) requires m == a * v, n == b * v1, ab == a * b, vv == v * v1;
    assert(ab * vv >= 0) by (nonlinear_arith) requires ab * uu > 0, uu * vv >= 0;
}
pub proof fn lemma_recon_small(h: int, u: int, u1: int, v: int, v1: int, sign: int, f: int, g: int, a: int, b: int, w: real, lam: real)
    requires h >= 2, sign == 1 || sign == -1, u * v1 + u1 * v == h, u * v1 >= 0, u1 * v >= 0, v1 != 0, u * u > h, u1 * u1 <= h,
        golden(w, lam, h), small(f, w, lam), small(g, w, lam), a != 0,
        f * v1 - g * (sign * u1) == -a * h, f * v + g * (sign * u) == b * h,
    ensures false
{
    // f = -a u + b u1, sign g = a v + b v1
    let (au, bu1, av, bv1) = (a * u, b * u1, a * v, b * v1);
    let sg = sign * g;
    assert(g * (sign * u1) == sg * u1 && g * (sign * u) == sg * u) by (nonlinear_arith) requires sg == sign * g;
    let (fv1, fv, gu1, gu) = (f * v1, f * v, sg * u1, sg * u);
    assert((-a) * h == -(a * h)) by (nonlinear_arith);
    assert(f * h == u * fv1 + u1 * fv) by (nonlinear_arith) requires u * v1 + u1 * v == h, fv1 == f * v1, fv == f * v;
    assert(u * gu1 == u1 * gu) by (nonlinear_arith) requires gu1 == sg * u1, gu == sg * u;
    assert(u * fv1 == u * gu1 - au * h) by (nonlinear_arith) requires fv1 == gu1 - a * h, au == a * u;
    assert(u1 * fv == bu1 * h - u1 * gu) by (nonlinear_arith) requires fv == b * h - gu, bu1 == b * u1;
    assert(f == bu1 - au) by (nonlinear_arith) requires f * h == bu1 * h - au * h, h >= 2;
    assert(sg * h == v1 * gu + v * gu1) by (nonlinear_arith) requires u * v1 + u1 * v == h, gu == sg * u, gu1 == sg * u1;
    assert(v1 * fv == v * fv1) by (nonlinear_arith) requires fv1 == f * v1, fv == f * v;
    assert(v1 * gu == bv1 * h - v1 * fv) by (nonlinear_arith) requires gu == b * h - fv, bv1 == b * v1;
    assert(v * gu1 == v * fv1 + av * h) by (nonlinear_arith) requires gu1 == fv1 + a * h, av == a * v;
    assert(sg == av + bv1) by (nonlinear_arith) requires sg * h == bv1 * h + av * h, h >= 2;
    assert(iabs2(sg) == iabs2(g)) by { if sign == 1 { assert(1 * g == g); } else { assert((-1) * g == -g); } }
    // sizes
    let (ff, gg, uu, uu1, vv1) = (iabs2(f) as real, iabs2(g) as real, iabs2(u) as real, iabs2(u1) as real, iabs2(v1) as real);
    let lw = lam * w;
    assert(ff < lw && gg < lw);
    assert(lam < 1real) by (nonlinear_arith) requires lam * lam + lam == 1real, lam > 0real;
    assert(lw < w && lw > 0real) by (nonlinear_arith) requires lw == lam * w, lam < 1real, lam > 0real, w > 0real;
    lemma_root(u, h, w);
    lemma_root(u1, h, w);
    assert(uu > w && uu1 <= w);
    assert(iabs2(au) >= iabs2(u)) by (nonlinear_arith) requires au == a * u, a != 0, iabs2(au) == (if au < 0 { -au } else { au }), iabs2(u) == (if u < 0 { -u } else { u });
    assert(iabs2(f) < iabs2(u)) by { assert(ff < uu); }
    assert(au > 0 && bu1 > 0 || au < 0 && bu1 < 0);
    lemma_same_sign(a, b, u, u1, v, v1);
    assert(av * bv1 >= 0);
    assert(iabs2(sg) == iabs2(av) + iabs2(bv1)) by (nonlinear_arith) requires av * bv1 >= 0, sg == av + bv1,
        iabs2(sg) == (if sg < 0 { -sg } else { sg }), iabs2(av) == (if av < 0 { -av } else { av }), iabs2(bv1) == (if bv1 < 0 { -bv1 } else { bv1 });
    assert(b != 0) by { if b == 0 { assert(0 * u1 == 0); } }
    assert(iabs2(bv1) >= iabs2(v1)) by (nonlinear_arith) requires bv1 == b * v1, b != 0, iabs2(bv1) == (if bv1 < 0 { -bv1 } else { bv1 }), iabs2(v1) == (if v1 < 0 { -v1 } else { v1 });
    assert(iabs2(v1) <= iabs2(g));
    // |f| |v1| + |g| |u1| >= h, but both terms are too small
    let (p, q) = (iabs2(f) * iabs2(v1), iabs2(g) * iabs2(u1));
    assert(f * v1 - sg * u1 == -(a * h)) by (nonlinear_arith) requires f * v1 - g * (sign * u1) == -a * h, g * (sign * u1) == sg * u1;
    assert(a * h >= h || a * h <= -h) by (nonlinear_arith) requires a != 0, h >= 2;
    assert(p == iabs2(fv1)) by (nonlinear_arith) requires p == iabs2(f) * iabs2(v1), fv1 == f * v1, iabs2(f) == (if f < 0 { -f } else { f }), iabs2(v1) == (if v1 < 0 { -v1 } else { v1 }), iabs2(fv1) == (if fv1 < 0 { -fv1 } else { fv1 });
    assert(q == iabs2(gu1)) by (nonlinear_arith) requires q == iabs2(sg) * iabs2(u1), gu1 == sg * u1, iabs2(sg) == (if sg < 0 { -sg } else { sg }), iabs2(u1) == (if u1 < 0 { -u1 } else { u1 }), iabs2(gu1) == (if gu1 < 0 { -gu1 } else { gu1 });
    assert(p + q >= h);
    lemma_too_small(iabs2(f), iabs2(v1), iabs2(g), iabs2(u1), h, w, lam);
}
pub proof fn lemma_root(u: int, h: int, w: real)
    requires w > 0real, w * w == h as real
    ensures u * u > h ==> (iabs2(u) as real) > w, u * u <= h ==> (iabs2(u) as real) <= w
{
    let x = iabs2(u);
    assert(x * x == u * u) by (nonlinear_arith) requires x == u || x == -u;
    lemma_mul_real(x, x);
    let y = x as real;
    assert(u * u > h ==> (x * x) as real > h as real);
    assert(u * u <= h ==> (x * x) as real <= h as real);
    assert(y * y > w * w ==> y > w) by (nonlinear_arith) requires y >= 0real, w > 0real;
    assert(y * y <= w * w ==> y <= w) by (nonlinear_arith) requires y >= 0real, w > 0real;
}
pub proof fn lemma_too_small(f: int, v: int, g: int, u: int, h: int, w: real, lam: real)
    requires golden(w, lam, h), f >= 0, v >= 1, g >= 0, u >= 0, (f as real) < lam * w, (v as real) < lam * w, (g as real) < lam * w, (u as real) <= w
    ensures f * v + g * u < h
{
    lemma_mul_real(f, v);
    lemma_mul_real(g, u);
    let (a, b, c, d, lw) = (f as real, v as real, g as real, u as real, lam * w);
    assert(a * b < lw * lw) by (nonlinear_arith) requires 0real <= a, a < lw, 0real < b, b < lw;
    assert(c * d <= lw * w) by (nonlinear_arith) requires 0real <= c, c < lw, 0real <= d, d <= w;
    assert(lw * lw + lw * w == w * w) by (nonlinear_arith) requires lw == lam * w, lam * lam + lam == 1real;
    let (p, q) = (f * v, g * u);
    assert(p as real == a * b);
    assert(q as real == c * d);
    assert(((p + q) as real) < h as real);
}
pub proof fn lemma_mul_real(a: int, b: int)
    ensures (a * b) as real == a as real * b as real
{ assert((a * b) as real == a as real * b as real) by (nonlinear_arith); }
/// the quotient found is the only small fraction congruent to s
pub proof fn lemma_recon_unique(s: int, h: int, u: int, u1: int, v: int, v1: int, sign: int, f: int, g: int, w: real, lam: real)
    requires h >= 2, recon_inv(s, h, u, u1, v, v1, sign), u1 * u1 <= h, golden(w, lam, h), small(f, w, lam), small(g, w, lam), cg(f, s * g, h)
    ensures f * v1 == sign * u1 * g
{
    let t = sign * u1;
    let t0 = sign * u;
    let k = lemma_cg_k(t, s * v1, h);
    let l = lemma_cg_k(-sign * u, s * v, h);
    let m = lemma_cg_k(f, s * g, h);
    assert(-sign * u == -t0) by (nonlinear_arith) requires t0 == sign * u;
    // coordinates of (f, g): f = -a t0 + b t, g = a v + b v1
    let a = g * k - m * v1;
    let b = m * v - g * l;
    let (sv1, sv) = (s * v1, s * v);
    let x = f * v1 - g * t;
    assert(x == -a * h) by (nonlinear_arith) requires x == f * v1 - g * t, f == s * g + m * h, t == sv1 + k * h, sv1 == s * v1, a == g * k - m * v1;
    let y = f * v + g * t0;
    assert(y == b * h) by (nonlinear_arith) requires y == f * v + g * t0, f == s * g + m * h, -t0 == sv + l * h, sv == s * v, b == m * v - g * l;
    assert(t0 * v1 + t * v == sign * h) by (nonlinear_arith) requires t0 == sign * u, t == sign * u1, u * v1 + u1 * v == h;
    if a != 0 {
        lemma_recon_small(h, u, u1, v, v1, sign, f, g, a, b, w, lam);
        assert(false);
    }
    assert(x == 0) by (nonlinear_arith) requires x == -a * h, a == 0;
    assert(g * t == sign * u1 * g) by (nonlinear_arith) requires t == sign * u1;
}
global size_of usize == 8;
pub open spec fn is_prime_spec(n: int) -> bool { n > 1 && forall|d: int| 2 <= d < n ==> #[trigger] (n % d) != 0 }
/// no divisor up to the square root: no divisor at all
pub proof fn lemma_prime(n: int, k: int)
    requires n > 1, k >= 2, k * k > n, forall|d: int| 2 <= d < k ==> #[trigger] (n % d) != 0
    ensures is_prime_spec(n)
{
    assert forall|d: int| 2 <= d < n implies #[trigger] (n % d) != 0 by {
        if n % d == 0 && d >= k {
            lemma_fundamental_div_mod(n, d);
            let e = n / d;
            assert(n == e * d + 0) by (nonlinear_arith) requires n == d * e + 0;
            assert(2 <= e) by (nonlinear_arith) requires n == e * d, d < n, d >= 2, n > 1;
            assert(e < k) by (nonlinear_arith) requires n == e * d, d >= k, k * k > n, k >= 2;
            lemma_fundamental_div_mod_converse(n, e, d, 0);
            assert(n % e == 0);
        }
    }
}
@fn arithmetic/modular_solver.rs :: is_prime
    nopub
    cmp
    litops i64
@spec
    ensures res == is_prime_spec(n as int)
@loop 1
    start1 == 2, n > 1, it1 <= n, it1 == 2 || it1 < n,
    invariant_except_break
    acc1, forall|d: int| 2 <= d < it1 ==> #[trigger] (n as int % d) != 0,
    ensures acc1 == is_prime_spec(n as int),
    decreases n - it1
@at loop 1 start
    proof {
        let (c, m) = (cur1 as int, n as int);
        assert(cur1 * cur1 <= n ==> cur1 + 1 < n) by (nonlinear_arith) requires cur1 >= 2;
        if c * c > m { lemma_prime(m, c); }
        lemma_trem_pos(m, c);
    }
@endfn
pub proof fn lemma_trem_pos(a: int, b: int)
    requires a >= 0, b > 0
    ensures trem(a, b) == a % b
{ lemma_fundamental_div_mod(a, b); }
@fn arithmetic/modular_solver.rs :: rational_reconstruction
    nopub
    sub BigInt=Int
    sub BigRational=Rat
    lit i64
    cmp
@spec
    requires h.v() >= 2, -h.v() < s.v() < h.v()
    ensures forall|f: int, g: int, w: real, lam: real| g != 0 && golden(w, lam, h.v()) && #[trigger] small(f, w, lam) && #[trigger] small(g, w, lam) && cg(f, s.v() * g, h.v())
        ==> res.v() * (g as real) == f as real,
@at before loop 1
    proof { lemma_recon_start(s.v(), h.v()); }
@loop 1
    h.v() >= 2, recon_inv(s.v(), h.v(), u.v(), u1.v(), v.v(), v1.v(), sign.v()),
    decreases iabs(u1.v())
@at loop 1 start
    proof { lemma_recon_step(s.v(), h.v(), u.v(), u1.v(), v.v(), v1.v(), sign.v(), tdiv(u.v(), u1.v()), trem(u.v(), u1.v())); }
@at after loop 1
    proof {
        let (hv, sv, uv, u1v, vv, v1v, gv) = (h.v(), s.v(), u.v(), u1.v(), v.v(), v1.v(), sign.v());
        assert forall|f: int, g: int, w: real, lam: real| g != 0 && golden(w, lam, hv) && #[trigger] small(f, w, lam) && #[trigger] small(g, w, lam) && cg(f, sv * g, hv)
            implies (((gv * u1v) as real) / (v1v as real)) * (g as real) == f as real by {
            lemma_recon_unique(sv, hv, uv, u1v, vv, v1v, gv, f, g, w, lam);
            let t = gv * u1v;
            lemma_mul_real(f, v1v);
            lemma_mul_real(t, g);
            let (a, b, c, d) = (t as real, v1v as real, g as real, f as real);
            assert((a / b) * c == d) by (nonlinear_arith) requires d * b == a * c, b != 0real;
        }
    }
@endfn
pub proof fn lemma_recon_start(s: int, h: int)
    requires h >= 2, -h < s < h
    ensures recon_inv(s, h, h, s, 0, 1, 1)
{
    lemma_cg_refl(s, h);
    assert(1 * s == s && s * 1 == s && s * 0 == 0 && -1 * h == -h && h * 1 == h);
    assert(-1 * h == s * 0 + (-1) * h) by (nonlinear_arith);
    lemma_k_cg(-1 * h, s * 0, h, -1);
    assert(h * h > h) by (nonlinear_arith) requires h >= 2;
}
/// a has no inverse modulo any prime of q .. max, and that are at least k primes or all there are
pub open spec fn no_inverse_mod(a: Seq<Vec<i64>>, p: int) -> bool { forall|y: Seq<Vec<i64>>| rect(y, a.len(), a.len()) ==> !#[trigger] mod_inv(a, y, p) }
pub open spec fn primes_in(lo: int, hi: int) -> nat
    decreases hi - lo
{ if lo >= hi { 0 } else { primes_in(lo + 1, hi) + (if is_prime_spec(lo) { 1nat } else { 0nat }) } }
pub open spec fn singular_mod_all(a: Seq<Vec<i64>>, q: int, max: int, k: nat) -> bool {
    &&& 2 <= q <= max + 1
    &&& forall|p: int| q <= p <= max && #[trigger] is_prime_spec(p) ==> no_inverse_mod(a, p)
    &&& primes_in(q, max + 1) >= k || q == 2
}
/// the number of lifting steps the floating point estimate gives
pub uninterp spec fn padic_steps(a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, p: int) -> nat;
pub open spec fn ipow(p: int, k: nat) -> int
    decreases k
{ if k == 0 { 1 } else { p * ipow(p, (k - 1) as nat) } }
/// column j of an integer matrix
pub open spec fn dot(c: Seq<int>, y: Seq<int>, n: nat) -> int
    decreases n
{ if n == 0 { 0 } else { dot(c, y, (n - 1) as nat) + c[n - 1] * y[n - 1] } }
/// y / d is column j of a solution of a * X = b, with numerators and denominator below the bound for the modulus h
pub open spec fn small_solution(a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, j: int, y: Seq<int>, d: int, h: int, w: real, lam: real) -> bool {
    &&& d != 0 && y.len() == a.len() && golden(w, lam, h) && small(d, w, lam)
    &&& forall|i: int| 0 <= i < a.len() ==> small(#[trigger] y[i], w, lam)
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] dot(rowq(a, i), y, a.len()) == d * b[i]@[j]
}
pub open spec fn has_small_solution(a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, j: int, h: int) -> bool {
    exists|y: Seq<int>, d: int, w: real, lam: real| #[trigger] small_solution(a, b, j, y, d, h, w, lam)
}
/// TRUSTED: number_of_p_adic_steps_needed works in floating point. Assumed: for a matrix that is invertible modulo p the number of steps k
/// is so large that Cramer's numerators and determinant stay below the golden section of the square root of p^k (Hadamard's bound).
#[verifier::external_body]
fn number_of_p_adic_steps_needed(a: &Vec<Vec<i64>>, b: &Vec<Vec<i64>>, prime: i64) -> (res: u64)
    ensures res as nat == padic_steps(a@, b@, prime as int),
        b@.len() > 0 && b@.len() == a@.len() && rect(a@, a@.len(), a@.len()) && rect(b@, a@.len(), b@[0]@.len()) && !no_inverse_mod(a@, prime as int)
            ==> forall|j: int| 0 <= j < b@[0]@.len() ==> #[trigger] has_small_solution(a@, b@, j, ipow(prime as int, res as nat)),
{ unimplemented!() }
pub proof fn lemma_primes_step(lo: int, hi: int)
    requires lo < hi
    ensures primes_in(lo, hi) == primes_in(lo + 1, hi) + (if is_prime_spec(lo) { 1nat } else { 0nat })
{}
@fn arithmetic/modular_solver.rs :: inverse_for_some_prime
    nopub
    sub Matrix=Vec<Vec<i64>>
    cmp
    accty 1 Option<(i64,Vec<Vec<i64>>)>
@spec
    ensures res matches Some((p, c)) ==> p >= 2 && a@.len() > 0 && rect(a@, a@.len(), a@.len()) && rect(c@, a@.len(), a@.len()) && in_range(c@, a@.len(), p as int)
            && mod_inv(a@, c@, p as int) && mod_linv(a@, c@, p as int),
        res.is_none() && a@.len() > 0 ==> exists|q: int| #[trigger] singular_mod_all(a@, q, 9999991, padic_steps(a@, b@, 9999991)),
@at init loop 1
    let ghost mut gq: int = 9999992;
@loop 1
    start1 == 2, end1 == 9999992, lim1 as nat == padic_steps(a@, b@, 9999991), cnt1 == primes_in(gq, end1 as int), a@.len() > 0,
    acc1.is_none() ==> forall|p: int| gq <= p < end1 && #[trigger] is_prime_spec(p) ==> no_inverse_mod(a@, p),
    invariant_except_break
    acc1.is_none(), gq == end1 - it1 + 2,
    ensures acc1 matches Some((p, c)) ==> p >= 2 && rect(a@, a@.len(), a@.len()) && rect(c@, a@.len(), a@.len()) && in_range(c@, a@.len(), p as int)
            && mod_inv(a@, c@, p as int) && mod_linv(a@, c@, p as int),
        acc1.is_none() ==> singular_mod_all(a@, gq, 9999991, padic_steps(a@, b@, 9999991)),
@at loop 1 start
    proof {
        let p = end1 + 1 - cur1;
        if !(is_prime_spec(p) && cnt1 >= lim1) { gq = p; }
    }
@at after loop 1
    proof { assert(acc1.is_none() ==> singular_mod_all(a@, gq, 9999991, padic_steps(a@, b@, 9999991))); }
@at loop 1 end
    proof { assert(itm__1.v() == gq); assert(acc1.is_none() ==> no_inverse_mod(a@, itm__1.v())); }
@endfn
// ---- sums of products
pub proof fn lemma_dot_lin(c: Seq<int>, x: Seq<Vec<i64>>, y: Seq<int>, j: int, n: nat)
    requires n <= y.len(), forall|k: int| 0 <= k < n ==> #[trigger] y[k] == x[k]@[j]
    ensures dot(c, y, n) == lin(c, x, j, n)
    decreases n
{ if n > 0 { lemma_dot_lin(c, x, y, j, (n - 1) as nat); assert(y[n - 1] == x[n - 1]@[j]); } }
/// z = x + t * y
pub proof fn lemma_dot_add(c: Seq<int>, x: Seq<int>, y: Seq<int>, z: Seq<int>, t: int, n: nat)
    requires forall|k: int| 0 <= k < n ==> #[trigger] z[k] == x[k] + t * y[k]
    ensures dot(c, z, n) == dot(c, x, n) + t * dot(c, y, n)
    decreases n
{
    if n > 0 {
        let h = (n - 1) as nat;
        lemma_dot_add(c, x, y, z, t, h);
        let (a, b, e, l) = (x[n - 1], y[n - 1], c[n - 1], dot(c, y, h));
        assert(z[n - 1] == a + t * b);
        assert(e * (a + t * b) + t * l == e * a + t * (l + e * b)) by (nonlinear_arith);
    } else { assert(t * 0 == 0); }
}
pub proof fn lemma_dot_addc(x: Seq<int>, y: Seq<int>, z: Seq<int>, t: int, v: Seq<int>, n: nat)
    requires forall|k: int| 0 <= k < n ==> #[trigger] z[k] == x[k] + t * y[k]
    ensures dot(z, v, n) == dot(x, v, n) + t * dot(y, v, n)
    decreases n
{
    if n > 0 {
        let h = (n - 1) as nat;
        lemma_dot_addc(x, y, z, t, v, h);
        let (a, b, e, l) = (x[n - 1], y[n - 1], v[n - 1], dot(y, v, h));
        assert(z[n - 1] == a + t * b);
        assert((a + t * b) * e + t * l == a * e + t * (l + b * e)) by (nonlinear_arith);
    } else { assert(t * 0 == 0); }
}
pub proof fn lemma_dot_cg(c: Seq<int>, d: Seq<int>, x: Seq<int>, y: Seq<int>, n: nat, p: int)
    requires p >= 1, forall|k: int| 0 <= k < n ==> cg(#[trigger] c[k], d[k], p), forall|k: int| 0 <= k < n ==> cg(#[trigger] x[k], y[k], p)
    ensures cg(dot(c, x, n), dot(d, y, n), p)
    decreases n
{
    if n == 0 { lemma_cg_refl(0, p); }
    else {
        lemma_dot_cg(c, d, x, y, (n - 1) as nat, p);
        assert(cg(c[n - 1], d[n - 1], p) && cg(x[n - 1], y[n - 1], p));
        lemma_cg_step(dot(c, x, (n - 1) as nat), dot(d, y, (n - 1) as nat), c[n - 1], d[n - 1], x[n - 1], y[n - 1], p);
    }
}
pub proof fn lemma_dot_unit(z: Seq<int>, k: int, len: nat, n: nat)
    requires n <= len
    ensures dot(unit(len, k), z, n) == (if 0 <= k < n { z[k] } else { 0 })
    decreases n
{ if n > 0 { lemma_dot_unit(z, k, len, (n - 1) as nat); let x = z[n - 1]; assert(0 * x == 0 && 1 * x == x); } }
pub proof fn lemma_dot_zero(c: Seq<int>, z: Seq<int>, n: nat)
    requires forall|k: int| 0 <= k < n ==> #[trigger] c[k] == 0
    ensures dot(c, z, n) == 0
    decreases n
{ if n > 0 { lemma_dot_zero(c, z, (n - 1) as nat); let x = z[n - 1]; assert(c[n - 1] == 0); assert(0 * x == 0); } }
pub open spec fn mv(a: Seq<Vec<i64>>, z: Seq<int>, n: nat) -> Seq<int> { Seq::new(n, |l: int| dot(rowq(a, l), z, z.len())) }
pub proof fn lemma_assoc_dot(c: Seq<int>, a: Seq<Vec<i64>>, z: Seq<int>, n: nat, m: nat)
    requires n <= m, m <= a.len(), n <= c.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@.len() >= z.len()
    ensures dot(c, mv(a, z, m), n) == dot(lrow(c, a, z.len(), n), z, z.len())
    decreases n
{
    if n > 0 {
        let h = (n - 1) as nat;
        lemma_assoc_dot(c, a, z, h, m);
        lemma_dot_addc(lrow(c, a, z.len(), h), rowq(a, n - 1), lrow(c, a, z.len(), n), c[n - 1], z, z.len());
    } else { lemma_dot_zero(lrow(c, a, z.len(), 0), z, z.len()); }
}
/// an integer vector that a matrix, invertible modulo p, maps to zero modulo p^k vanishes modulo p^k
pub proof fn lemma_lift(a: Seq<Vec<i64>>, c: Seq<Vec<i64>>, p: int, k: nat, z: Seq<int>)
    requires p >= 2, rect(a, a.len(), a.len()), rect(c, a.len(), a.len()), mod_linv(a, c, p), z.len() == a.len(),
        forall|i: int| 0 <= i < a.len() ==> cg(#[trigger] dot(rowq(a, i), z, z.len()), 0, ipow(p, k)),
    ensures forall|i: int| 0 <= i < a.len() ==> cg(#[trigger] z[i], 0, ipow(p, k)), ipow(p, k) >= 1
    decreases k
{
    let n = a.len();
    if k == 0 {
        assert forall|i: int| 0 <= i < n implies cg(#[trigger] z[i], 0, 1) by { lemma_k_cg(z[i], 0, 1, z[i]); }
    } else {
        let h = ipow(p, (k - 1) as nat);
        lemma_ipow_pos(p, (k - 1) as nat);
        let ph = ipow(p, k);
        assert(ph == p * h);
        assert(ph >= 1) by (nonlinear_arith) requires ph == p * h, p >= 2, h >= 1;
        let az = mv(a, z, n);
        assert forall|l: int| 0 <= l < n implies cg(#[trigger] az[l], 0, p) by {
            assert(cg(dot(rowq(a, l), z, z.len()), 0, ph));
            let t = lemma_cg_k(az[l], 0, ph);
            assert(az[l] == 0 + (t * h) * p) by (nonlinear_arith) requires az[l] == 0 + t * ph, ph == p * h;
            lemma_k_cg(az[l], 0, p, t * h);
        }
        assert forall|i: int| 0 <= i < n implies cg(#[trigger] z[i], 0, p) by {
            let ci = rowq(c, i);
            lemma_assoc_dot(ci, a, z, n, n);
            let zero = Seq::new(n, |q: int| 0int);
            assert forall|q: int| 0 <= q < n implies cg(#[trigger] ci[q], ci[q], p) by { lemma_cg_refl(ci[q], p); }
            lemma_dot_cg(ci, ci, az, zero, n, p);
            lemma_dot_zero_r(ci, zero, n);
            let u = unit(n, i);
            let l = lrow(ci, a, n, n);
            assert forall|q: int| 0 <= q < n implies cg(#[trigger] l[q], u[q], p) by { assert(cg(lin(ci, a, q, n), if i == q { 1int } else { 0int }, p)); }
            assert forall|q: int| 0 <= q < n implies cg(#[trigger] z[q], z[q], p) by { lemma_cg_refl(z[q], p); }
            lemma_dot_cg(l, u, z, z, n, p);
            lemma_dot_unit(z, i, n, n);
            lemma_cg_sym(dot(l, z, n), z[i], p);
            lemma_cg_trans(z[i], dot(l, z, n), 0, p);
        }
        let y = Seq::new(n, |i: int| z[i] / p);
        assert forall|i: int| 0 <= i < n implies #[trigger] z[i] == 0 * z[i] + p * y[i] by {
            assert(cg(z[i], 0, p));
            lemma_fundamental_div_mod(z[i], p);
            assert(0 * z[i] == 0);
        }
        let zz = Seq::new(n, |i: int| 0int);
        assert forall|i: int| 0 <= i < n implies cg(#[trigger] dot(rowq(a, i), y, y.len()), 0, h) by {
            let ai = rowq(a, i);
            assert forall|q: int| 0 <= q < n implies #[trigger] z[q] == zz[q] + p * y[q] by { assert(0 * z[q] == 0); }
            lemma_dot_add(ai, zz, y, z, p, n);
            lemma_dot_zero_r(ai, zz, n);
            assert(cg(dot(ai, z, z.len()), 0, ph));
            let t = lemma_cg_k(dot(ai, z, n), 0, ph);
            let d = dot(ai, y, n);
            assert(d == 0 + t * h) by (nonlinear_arith) requires p * d == t * ph, ph == p * h, p >= 2;
            lemma_k_cg(d, 0, h, t);
        }
        lemma_lift(a, c, p, (k - 1) as nat, y);
        assert forall|i: int| 0 <= i < n implies cg(#[trigger] z[i], 0, ph) by {
            assert(cg(y[i], 0, h));
            let t = lemma_cg_k(y[i], 0, h);
            assert(z[i] == 0 * z[i] + p * y[i]);
            let (zi, yi) = (z[i], y[i]);
            assert(zi == 0 + t * ph) by (nonlinear_arith) requires zi == 0 * zi + p * yi, yi == t * h, ph == p * h;
            lemma_k_cg(zi, 0, ph, t);
        }
    }
}
pub proof fn lemma_dot_zero_r(c: Seq<int>, z: Seq<int>, n: nat)
    requires forall|k: int| 0 <= k < n ==> #[trigger] z[k] == 0
    ensures dot(c, z, n) == 0
    decreases n
{ if n > 0 { lemma_dot_zero_r(c, z, (n - 1) as nat); let x = c[n - 1]; assert(z[n - 1] == 0); assert(x * 0 == 0); } }
pub proof fn lemma_ipow_pos(p: int, k: nat)
    requires p >= 1
    ensures ipow(p, k) >= 1
    decreases k
{ if k > 0 { lemma_ipow_pos(p, (k - 1) as nat); let h = ipow(p, (k - 1) as nat); assert(p * h >= 1) by (nonlinear_arith) requires p >= 1, h >= 1; } }
/// one lifting step leaves a residue divisible by p
pub proof fn lemma_residue(a: Seq<Vec<i64>>, c: Seq<Vec<i64>>, x: Seq<Vec<i64>>, b: Seq<Vec<i64>>, i: int, j: int, p: int)
    requires p >= 2, rect(a, a.len(), a.len()), rect(c, a.len(), a.len()), mod_inv(a, c, p), b.len() == a.len(), x.len() == a.len(), 0 <= i < a.len(),
        forall|k: int| 0 <= k < a.len() ==> mod_entry(#[trigger] x[k]@[j] as int, c, b, k, j, p),
    ensures cg(b[i]@[j] - lin(rowq(a, i), x, j, a.len()), 0, p)
{
    let n = a.len();
    let ai = rowq(a, i);
    let bc = Seq::new(n, |k: int| b[k]@[j] as int);
    let xc = Seq::new(n, |k: int| x[k]@[j] as int);
    let cb = mv(c, bc, n);
    lemma_dot_lin(ai, x, xc, j, n);
    assert forall|k: int| 0 <= k < n implies cg(#[trigger] xc[k], cb[k], p) by {
        lemma_dot_lin(rowq(c, k), b, bc, j, n);
        assert(mod_entry(x[k]@[j] as int, c, b, k, j, p));
    }
    assert forall|k: int| 0 <= k < n implies cg(#[trigger] ai[k], ai[k], p) by { lemma_cg_refl(ai[k], p); }
    lemma_dot_cg(ai, ai, xc, cb, n, p);
    lemma_assoc_dot(ai, c, bc, n, n);
    let l = lrow(ai, c, n, n);
    let u = unit(n, i);
    assert forall|q: int| 0 <= q < n implies cg(#[trigger] l[q], u[q], p) by { assert(cg(lin(ai, c, q, n), if i == q { 1int } else { 0int }, p)); }
    assert forall|q: int| 0 <= q < n implies cg(#[trigger] bc[q], bc[q], p) by { lemma_cg_refl(bc[q], p); }
    lemma_dot_cg(l, u, bc, bc, n, p);
    lemma_dot_unit(bc, i, n, n);
    let (s, t) = (dot(ai, xc, n), bc[i]);
    lemma_cg_trans(s, dot(l, bc, n), t, p);
    let k = lemma_cg_k(s, t, p);
    assert(t - s == 0 + (-k) * p) by (nonlinear_arith) requires s == t + k * p;
    lemma_k_cg(t - s, 0, p, -k);
}
