@# gcdx from src/arithmetic/linear_algebra.rs
/// d divides n
pub open spec fn divides(d: int, n: int) -> bool { exists|k: int| n == #[trigger] (k * d) }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
pub proof fn lemma_tdiv(a: int, b: int)
    requires b != 0
    ensures iabs(trem(a, b)) < iabs(b), a == b * tdiv(a, b) + trem(a, b), a >= 0 ==> trem(a, b) >= 0, a <= 0 ==> trem(a, b) <= 0
{
    let (x, y) = (iabs(a), iabs(b));
    lemma_fundamental_div_mod(x, y);
    lemma_mod_bound(x, y);
    let q = x / y;
    assert(trem(a, b) == (if a >= 0 { x % y } else { -(x % y) })) by (nonlinear_arith)
        requires x == y * q + x % y, x == iabs(a), y == iabs(b), b != 0, q == x / y, trem(a, b) == a - b * tdiv(a, b),
            tdiv(a, b) == (if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } });
}
/// what gcdx promises
pub open spec fn gcdx_post(a: int, b: int, g: int, p: int, q: int, r: int, s: int) -> bool {
    &&& p * a + q * b == g
    &&& r * a + s * b == 0
    &&& p * s - q * r == 1 || p * s - q * r == -1
    &&& divides(g, a) && divides(g, b)
    &&& (g == 0 <==> a == 0 && b == 0)
}
pub proof fn lemma_gcdx_end(a: int, b: int, g: int, p: int, q: int, r: int, s: int)
    requires p * a + q * b == g, r * a + s * b == 0, p * s - q * r == 1 || p * s - q * r == -1
    ensures gcdx_post(a, b, g, p, q, r, s)
{
    let d = p * s - q * r;
    assert(s * g == p * s * a + q * (s * b)) by (nonlinear_arith) requires g == p * a + q * b;
    assert(r * g == r * p * a + q * r * b) by (nonlinear_arith) requires g == p * a + q * b;
    let (ra, sb) = (r * a, s * b);
    assert(q * sb == -(q * r * a)) by (nonlinear_arith) requires sb == -(r * a);
    assert(r * p * a == -(p * s * b)) by (nonlinear_arith) requires r * a == -(s * b);
    assert(s * g == d * a) by (nonlinear_arith) requires s * g == p * s * a - q * r * a, d == p * s - q * r;
    assert(r * g == -(d * b)) by (nonlinear_arith) requires r * g == q * r * b - p * s * b, d == p * s - q * r;
    if d == 1 { assert(a == (d * s) * g && b == (-d * r) * g) by (nonlinear_arith) requires d == 1, s * g == d * a, r * g == -(d * b); }
    else { assert(a == (d * s) * g && b == (-d * r) * g) by (nonlinear_arith) requires d == -1, s * g == d * a, r * g == -(d * b); }
    assert(divides(g, a)) by { assert(a == (d * s) * g); }
    assert(divides(g, b)) by { assert(b == (-d * r) * g); }
    if g == 0 { assert((d * s) * g == 0 && (-d * r) * g == 0) by (nonlinear_arith) requires g == 0; }
    if a == 0 && b == 0 { assert(p * a + q * b == 0) by (nonlinear_arith) requires a == 0, b == 0; }
}
@fn arithmetic/linear_algebra.rs :: gcdx
    sub T=Int
@spec
    ensures gcdx_post(a.v(), b.v(), res.0.v(), res.1.v(), res.2.v(), res.3.v(), res.4.v())
@at start
    let ghost (a0, b0) = (a.v(), b.v());
    proof { assert(1 * a0 + 0 * b0 == a0 && 0 * a0 + 1 * b0 == b0); }
@loop 1
    r.v() * a0 + s.v() * b0 == a.v(), r_next.v() * a0 + s_next.v() * b0 == a_next.v(),
    r.v() * s_next.v() - s.v() * r_next.v() == 1 || r.v() * s_next.v() - s.v() * r_next.v() == -1,
    decreases iabs(a_next.v())
@at loop 1 start
    let ghost (ga, gan, gr, grn, gs, gsn) = (a.v(), a_next.v(), r.v(), r_next.v(), s.v(), s_next.v());
    proof { lemma_tdiv(ga, gan); }
@at loop 1 end
    proof {
        let gq = tdiv(ga, gan);
        assert(a_next.v() == trem(ga, gan)) by (nonlinear_arith) requires a_next.v() == ga - gq * gan, trem(ga, gan) == ga - gan * gq;
        assert((gr - gq * grn) * a0 + (gs - gq * gsn) * b0 == ga - gq * gan) by (nonlinear_arith)
            requires gr * a0 + gs * b0 == ga, grn * a0 + gsn * b0 == gan;
        assert(grn * (gs - gq * gsn) - gsn * (gr - gq * grn) == -(gr * gsn - gs * grn)) by (nonlinear_arith);
    }
@at end
    proof { lemma_gcdx_end(a0, b0, res.0.v(), res.1.v(), res.2.v(), res.3.v(), res.4.v()); }
@endfn
