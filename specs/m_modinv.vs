@# modular_inverse from src/arithmetic/modular_solver.rs
pub open spec fn is_modinv(x: int, n: int, m: int) -> bool { 1 <= x < m && (n * x) % m == 1 }
/// an inverse excludes a common factor
pub proof fn lemma_modinv_coprime(x: int, n: int, m: int, d: int)
    requires m >= 2, is_modinv(x, n, m), divides(d, n), divides(d, m)
    ensures d == 1 || d == -1
{
    let k = choose|k: int| n == #[trigger] (k * d);
    let l = choose|l: int| m == #[trigger] (l * d);
    let t = (n * x) / m;
    lemma_fundamental_div_mod(n * x, m);
    assert((k * x - l * t) * d == 1) by (nonlinear_arith) requires n * x == m * t + 1, n == k * d, m == l * d;
    let u = k * x - l * t;
    assert(d == 1 || d == -1) by (nonlinear_arith) requires u * d == 1;
}
@fn arithmetic/modular_solver.rs :: modular_inverse
    lit i64
    call .rem_euclid=vrem_euclid
    cmp
@spec
    requires modulus.v() >= 2
    ensures res matches Some(x) ==> is_modinv(x.v(), argument.v(), modulus.v()),
        res.is_none() ==> exists|d: int| d > 1 && #[trigger] divides(d, argument.v()) && divides(d, modulus.v())
@at start
    let ghost (n, m) = (argument.v(), modulus.v());
    let ghost e = n % m;
    proof { lemma_fundamental_div_mod(n, m); lemma_mod_bound(n, m); }
    let ghost mut s = 1int;
    let ghost mut s1 = 0int;
@at before loop 1
    proof { assert(0 * e + 1 * m == m && 1 * e + 0 * m == e) by (nonlinear_arith); }
@loop 1
    m >= 2, 0 <= e < m, n == m * (n / m) + e, n == argument.v(), m == modulus.v(),
    t.v() * e + s * m == r.v(), t1.v() * e + s1 * m == r1.v(),
    0 <= r1.v() < r.v() <= m,
    t.v() * s1 - s * t1.v() == 1 || t.v() * s1 - s * t1.v() == -1,
    iabs(t.v()) <= iabs(t1.v()), iabs(t.v()) * r1.v() + iabs(t1.v()) * r.v() == m,
    t.v() >= 0 && t1.v() <= 0 || t.v() <= 0 && t1.v() >= 0,
    decreases r1.v()
@at loop 1 start
    let ghost (gt, gt1, gr, gr1, gs, gs1) = (t.v(), t1.v(), r.v(), r1.v(), s, s1);
@at loop 1 end
    proof {
        let q = gr / gr1;
        lemma_fundamental_div_mod(gr, gr1);
        lemma_mod_bound(gr, gr1);
        assert(q >= 1) by (nonlinear_arith) requires gr == gr1 * q + gr % gr1, gr % gr1 < gr1, gr1 < gr, gr1 > 0;
        assert(r1.v() == gr % gr1) by (nonlinear_arith) requires r1.v() == gr - q * gr1, gr == gr1 * q + gr % gr1;
        s = gs1;
        s1 = gs - q * gs1;
        assert((gt - q * gt1) * e + (gs - q * gs1) * m == gr - q * gr1) by (nonlinear_arith)
            requires gt * e + gs * m == gr, gt1 * e + gs1 * m == gr1;
        assert(gt1 * (gs - q * gs1) - gs1 * (gt - q * gt1) == -(gt * gs1 - gs * gt1)) by (nonlinear_arith);
        let t2 = gt - q * gt1;
        assert(iabs(t2) == iabs(gt) + q * iabs(gt1)) by (nonlinear_arith) requires t2 == gt - q * gt1, q >= 1,
            gt >= 0 && gt1 <= 0 || gt <= 0 && gt1 >= 0, iabs(t2) == (if t2 < 0 { -t2 } else { t2 }), iabs(gt) == (if gt < 0 { -gt } else { gt }), iabs(gt1) == (if gt1 < 0 { -gt1 } else { gt1 });
        assert(iabs(t2) >= iabs(gt1)) by (nonlinear_arith) requires iabs(t2) == iabs(gt) + q * iabs(gt1), q >= 1, iabs(gt) >= 0, iabs(gt1) >= 0;
        assert(iabs(gt1) * (gr - q * gr1) + iabs(t2) * gr1 == m) by (nonlinear_arith)
            requires iabs(gt) * gr1 + iabs(gt1) * gr == m, iabs(t2) == iabs(gt) + q * iabs(gt1);
        assert(gt1 >= 0 && t2 <= 0 || gt1 <= 0 && t2 >= 0) by (nonlinear_arith) requires t2 == gt - q * gt1, q >= 1, gt >= 0 && gt1 <= 0 || gt <= 0 && gt1 >= 0;
    }
@at after loop 1
    proof {
        assert(r1.v() == 0);
        assert(iabs(t.v()) * 0 == 0);
        assert(iabs(t1.v()) * r.v() == m);
        let (k, rr) = (t.v(), r.v());
        if rr == 1 {
            assert(iabs(k) <= m);
            // n*k and n*(k+m) leave the remainder 1
            assert(n * k == m * ((n / m) * k - s) + 1) by (nonlinear_arith) requires k * e + s * m == 1, n == m * (n / m) + e;
            lemma_fundamental_div_mod_converse(n * k, m, (n / m) * k - s, 1);
            assert(n * (k + m) == m * ((n / m) * k - s + n) + 1) by (nonlinear_arith) requires n * k == m * ((n / m) * k - s) + 1;
            lemma_fundamental_div_mod_converse(n * (k + m), m, (n / m) * k - s + n, 1);
            if k == m || k == -m { assert(false) by (nonlinear_arith) requires k * e + s * m == 1, k == m || k == -m, m >= 2; }
            if k == 0 { assert(n * 0 == 0); lemma_small_mod(0nat, m as nat); }
        } else {
            // rr divides m and n
            lemma_gcdx_end(e, m, rr, k, s, t1.v(), s1);
            let a = choose|a: int| e == #[trigger] (a * rr);
            let b = choose|b: int| m == #[trigger] (b * rr);
            assert(n == (b * (n / m) + a) * rr) by (nonlinear_arith) requires n == m * (n / m) + e, e == a * rr, m == b * rr;
            assert(divides(rr, n));
        }
    }
@endfn
