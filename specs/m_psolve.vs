@# src/arithmetic/modular_solver.rs: solve
pub open spec fn scol(s: Seq<Vec<Int>>, j: int) -> Seq<int> { Seq::new(s.len(), |k: int| s[k]@[j].v()) }
pub open spec fn rcol(s: Seq<Vec<Rat>>, j: int) -> Seq<real> { Seq::new(s.len(), |k: int| s[k]@[j].v()) }
pub open spec fn rdot(c: Seq<int>, y: Seq<real>, n: nat) -> real
    decreases n
{ if n == 0 { 0real } else { rdot(c, y, (n - 1) as nat) + c[n - 1] as real * y[n - 1] } }
pub open spec fn irect(s: Seq<Vec<Int>>, nr: nat, nc: nat) -> bool { s.len() == nr && forall|i: int| 0 <= i < nr ==> (#[trigger] s[i])@.len() == nc }
pub open spec fn rrect(s: Seq<Vec<Rat>>, nr: nat, nc: nat) -> bool { s.len() == nr && forall|i: int| 0 <= i < nr ==> (#[trigger] s[i])@.len() == nc }
/// what is lifted so far and what is left make up the right hand side
pub open spec fn lifted(a: Seq<Vec<i64>>, s: Seq<Vec<Int>>, b: Seq<Vec<i64>>, b0: Seq<Vec<i64>>, h: int, i: int, j: int) -> bool {
    dot(rowq(a, i), scol(s, j), a.len()) + h * b[i]@[j] == b0[i]@[j]
}
pub open spec fn lifted_mod(a: Seq<Vec<i64>>, s: Seq<Vec<Int>>, b0: Seq<Vec<i64>>, h: int, i: int, j: int) -> bool {
    cg(b0[i]@[j] as int, dot(rowq(a, i), scol(s, j), a.len()), h)
}
pub proof fn lemma_lifted(a: Seq<Vec<i64>>, c: Seq<Vec<i64>>, x: Seq<Vec<i64>>, b: Seq<Vec<i64>>, b0: Seq<Vec<i64>>, s: Seq<Vec<Int>>, s2: Seq<Vec<Int>>, h: int, p: int, nc: nat, i: int, j: int)
    requires p >= 2, h >= 1, rect(a, a.len(), a.len()), rect(c, a.len(), a.len()), mod_inv(a, c, p), b.len() == a.len(), rect(x, a.len(), nc), 0 <= i < a.len(), 0 <= j < nc,
        forall|k: int, l: int| 0 <= k < a.len() && 0 <= l < nc ==> mod_entry(#[trigger] x[k]@[l] as int, c, b, k, l, p),
        irect(s, a.len(), nc), irect(s2, a.len(), nc),
        forall|k: int, l: int| 0 <= k < a.len() && 0 <= l < nc ==> (#[trigger] s2[k]@[l]).v() == s[k]@[l].v() + h * x[k]@[l],
        lifted(a, s, b, b0, h, i, j),
    ensures lifted_mod(a, s2, b0, h * p, i, j),
        dot(rowq(a, i), scol(s2, j), a.len()) + (h * p) * tdiv(b[i]@[j] - lin(rowq(a, i), x, j, a.len()), p) == b0[i]@[j],
{
    let n = a.len();
    let ai = rowq(a, i);
    let xc = Seq::new(n, |k: int| x[k]@[j] as int);
    lemma_dot_lin(ai, x, xc, j, n);
    assert forall|k: int| 0 <= k < n implies #[trigger] scol(s2, j)[k] == scol(s, j)[k] + h * xc[k] by { assert(s2[k]@[j].v() == s[k]@[j].v() + h * x[k]@[j]); }
    lemma_dot_add(ai, scol(s, j), xc, scol(s2, j), h, n);
    assert forall|k: int| 0 <= k < a.len() implies mod_entry(#[trigger] x[k]@[j] as int, c, b, k, j, p) by {}
    lemma_residue(a, c, x, b, i, j, p);
    let l = lin(ai, x, j, n);
    let d = b[i]@[j] - l;
    let k = lemma_cg_k(d, 0, p);
    lemma_tdiv_exact(d, p, k);
    let (s2d, sd, bij, b0v) = (dot(ai, scol(s2, j), n), dot(ai, scol(s, j), n), b[i]@[j] as int, b0[i]@[j] as int);
    assert(h * bij == h * l + h * d) by (nonlinear_arith) requires d == bij - l;
    assert(h * d == (h * p) * k) by (nonlinear_arith) requires d == 0 + k * p;
    assert(s2d + (h * p) * k == b0v);
    assert((h * p) * k == k * (h * p)) by (nonlinear_arith);
    assert(h * p >= 1) by (nonlinear_arith) requires h >= 1, p >= 2;
    lemma_k_cg(b0v, s2d, h * p, k);
}
pub proof fn lemma_tdiv_exact(d: int, p: int, k: int)
    requires p >= 1, d == 0 + k * p
    ensures tdiv(d, p) == k
{
    if d >= 0 { lemma_fundamental_div_mod_converse(d, p, k, 0); }
    else { assert(-d == p * (-k) + 0) by (nonlinear_arith) requires d == 0 + k * p; lemma_fundamental_div_mod_converse(-d, p, -k, 0); }
}
/// sizes of the lifted entries
pub proof fn lemma_bound(s: int, x: int, h: int, p: int)
    requires -h < s < h, -p < x < p, p >= 2, h >= 1
    ensures -(h * p) < s + h * x < h * p
{ assert(-(h * p) < s + h * x < h * p) by (nonlinear_arith) requires -h < s < h, -p < x < p, h >= 1; }
pub proof fn lemma_rdot_int(c: Seq<int>, x: Seq<real>, y: Seq<int>, d: int, n: nat)
    requires forall|k: int| 0 <= k < n ==> #[trigger] x[k] * (d as real) == y[k] as real
    ensures rdot(c, x, n) * (d as real) == dot(c, y, n) as real
    decreases n
{
    if n > 0 {
        let h = (n - 1) as nat;
        lemma_rdot_int(c, x, y, d, h);
        assert(x[n - 1] * (d as real) == y[n - 1] as real);
        lemma_mul_real(c[n - 1], y[n - 1]);
        let (u, e, f, g, w) = (rdot(c, x, h), c[n - 1] as real, x[n - 1], d as real, y[n - 1] as real);
        assert((u + e * f) * g == u * g + e * w) by (nonlinear_arith) requires f * g == w;
    } else { assert(0real * (d as real) == 0real); }
}
pub proof fn lemma_small_h(a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, j: int, h: int)
    requires has_small_solution(a, b, j, h)
    ensures h >= 2
{
    let (y, d, w, lam) = choose|y: Seq<int>, d: int, w: real, lam: real| #[trigger] small_solution(a, b, j, y, d, h, w, lam);
    let t = lam * w;
    assert(t > 1real);
    let u = lam * lam;
    assert(u > 0real) by (nonlinear_arith) requires lam > 0real, u == lam * lam;
    assert(t * t > 1real) by (nonlinear_arith) requires t > 1real;
    let ww = w * w;
    assert(t * t == u * ww) by (nonlinear_arith) requires t == lam * w, u == lam * lam, ww == w * w;
    assert(ww > 0real) by (nonlinear_arith) requires w > 0real, ww == w * w;
    assert(u * ww <= ww) by (nonlinear_arith) requires u < 1real, ww > 0real;
}
pub open spec fn recon(r: real, s: int, h: int) -> bool {
    forall|f: int, g: int, w: real, lam: real| g != 0 && golden(w, lam, h) && #[trigger] small(f, w, lam) && #[trigger] small(g, w, lam) && cg(f, s * g, h) ==> r * (g as real) == f as real
}
/// the fractions found solve the system
pub proof fn lemma_solution(a: Seq<Vec<i64>>, c: Seq<Vec<i64>>, b: Seq<Vec<i64>>, s: Seq<Vec<Int>>, r: Seq<Vec<Rat>>, p: int, k: nat, nc: nat, j: int)
    requires p >= 2, rect(a, a.len(), a.len()), rect(c, a.len(), a.len()), mod_linv(a, c, p), irect(s, a.len(), nc), rrect(r, a.len(), nc), rect(b, a.len(), nc), 0 <= j < nc,
        has_small_solution(a, b, j, ipow(p, k)),
        forall|i: int| 0 <= i < a.len() ==> #[trigger] lifted_mod(a, s, b, ipow(p, k), i, j),
        forall|i: int| 0 <= i < a.len() ==> recon((#[trigger] r[i]@[j]).v(), s[i]@[j].v(), ipow(p, k)),
    ensures forall|i: int| 0 <= i < a.len() ==> #[trigger] rdot(rowq(a, i), rcol(r, j), a.len()) == b[i]@[j] as real
{
    let n = a.len();
    let h = ipow(p, k);
    lemma_ipow_pos(p, k);
    let (y, d, w, lam) = choose|y: Seq<int>, d: int, w: real, lam: real| #[trigger] small_solution(a, b, j, y, d, h, w, lam);
    let sc = scol(s, j);
    let z = Seq::new(n, |i: int| y[i] + (-d) * sc[i]);
    assert forall|i: int| 0 <= i < n implies cg(#[trigger] dot(rowq(a, i), z, z.len()), 0, h) by {
        let ai = rowq(a, i);
        lemma_dot_add(ai, y, sc, z, -d, n);
        assert(lifted_mod(a, s, b, h, i, j));
        let (bv, sv) = (b[i]@[j] as int, dot(ai, sc, n));
        let t = lemma_cg_k(bv, sv, h);
        assert(dot(ai, y, a.len()) == d * b[i]@[j]);
        let dz = dot(ai, z, n);
        assert(dz == 0 + (d * t) * h) by (nonlinear_arith) requires dz == d * bv + (-d) * sv, bv == sv + t * h;
        lemma_k_cg(dz, 0, h, d * t);
    }
    lemma_lift(a, c, p, k, z);
    let x = rcol(r, j);
    assert forall|i: int| 0 <= i < n implies #[trigger] x[i] * (d as real) == y[i] as real by {
        assert(cg(z[i], 0, h));
        let t = lemma_cg_k(z[i], 0, h);
        let (yi, si) = (y[i], sc[i]);
        assert(yi == si * d + t * h) by (nonlinear_arith) requires yi + (-d) * si == 0 + t * h;
        lemma_k_cg(yi, si * d, h, t);
        assert(small(y[i], w, lam) && small(d, w, lam));
        assert(recon(r[i]@[j].v(), s[i]@[j].v(), h));
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] rdot(rowq(a, i), x, n) == b[i]@[j] as real by {
        lemma_rdot_int(rowq(a, i), x, y, d, n);
        assert(dot(rowq(a, i), y, a.len()) == d * b[i]@[j]);
        lemma_mul_real(d, b[i]@[j] as int);
        let (u, g, v) = (rdot(rowq(a, i), x, n), d as real, b[i]@[j] as real);
        assert(u == v) by (nonlinear_arith) requires u * g == g * v, g != 0real;
    }
}
pub open spec fn solves_col(a: Seq<Vec<i64>>, r: Seq<Vec<Rat>>, b: Seq<Vec<i64>>, j: int) -> bool {
    forall|i: int| 0 <= i < a.len() ==> #[trigger] rdot(rowq(a, i), rcol(r, j), a.len()) == b[i]@[j] as real
}
@fn arithmetic/modular_solver.rs :: solve
    sub Matrix=Vec<Vec<i64>>
    sub BigInt=Int
    sub BigRational=Rat
    accty 1 Vec<Vec<Int>>
    accty 2 Vec<Int>
    accty 8 Vec<Vec<Rat>>
    accty 9 Vec<Rat>
    letty s Vec<Vec<Int>>
@spec
    requires a@.len() > 0 ==> b@.len() == a@.len() && rect(b@, a@.len(), b@[0]@.len())
    ensures
        res matches Some(x) ==> {
            &&& a@.len() > 0 && rect(a@, a@.len(), a@.len()) && rrect(x@, a@.len(), b@[0]@.len())
            &&& forall|i: int, j: int| 0 <= i < a@.len() && 0 <= j < b@[0]@.len() ==> #[trigger] rdot(rowq(a@, i), rcol(x@, j), a@.len()) == b@[i]@[j] as real
            &&& exists|p: int, c: Seq<Vec<i64>>| p >= 2 && #[trigger] mod_linv(a@, c, p)
        },
        res.is_none() && a@.len() > 0 ==> exists|q: int| #[trigger] singular_mod_all(a@, q, 9999991, padic_steps(a@, b@, 9999991)),
@at then 1
    let ghost n = a@.len();
    let ghost b0 = b@;
    let ghost pr = prime as int;
    let ghost nc = b@[0]@.len();
    let ghost am = a@;
    let ghost cm = c@;
@loop 1
    irect(acc1@, it1 as nat, nc), nrows == n, ncols == nc,
    forall|i: int, j: int| 0 <= i < it1 && 0 <= j < nc ==> (#[trigger] acc1@[i]@[j]).v() == 0,
@loop 2
    acc2@.len() == it2, forall|j: int| 0 <= j < it2 ==> (#[trigger] acc2@[j]).v() == 0,
@at before loop 3
    let ghost mut h: int = 1;
    proof {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < nc implies #[trigger] lifted(am, s@, b@, b0, 1, i, j) by { lemma_dot_zero_r(rowq(am, i), scol(s@, j), n); }
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < nc implies #[trigger] lifted_mod(am, s@, b0, 1, i, j) by { lemma_k_cg(b0[i]@[j] as int, dot(rowq(am, i), scol(s@, j), n), 1, b0[i]@[j] - dot(rowq(am, i), scol(s@, j), n)); }
    }
@loop 3
    h == ipow(pr, it3 as nat), h >= 1, p.v() == h, prime == pr, pr >= 2, a@ == am, c@ == cm, am.len() == n, n > 0,
    nrows == n, ncols == nc, irect(s@, n, nc), rect(b@, n, nc), rect(b0, n, nc), rect(am, n, n), rect(cm, n, n), mod_inv(am, cm, pr), mod_linv(am, cm, pr),
    forall|i: int, j: int| 0 <= i < n && 0 <= j < nc ==> -h < (#[trigger] s@[i]@[j]).v() < h,
    it3 < end3 ==> forall|i: int, j: int| 0 <= i < n && 0 <= j < nc ==> #[trigger] lifted(am, s@, b@, b0, h, i, j),
    forall|i: int, j: int| 0 <= i < n && 0 <= j < nc ==> #[trigger] lifted_mod(am, s@, b0, h, i, j),
@at before loop 4
    let ghost s2 = s@;
    let ghost b2 = b@;
@loop 4
    irect(s@, n, nc),
    forall|i: int, j: int| it4 <= i < n && 0 <= j < nc ==> (#[trigger] s@[i]@[j]).v() == s2[i]@[j].v(),
    forall|i: int, j: int| 0 <= i < it4 && 0 <= j < nc ==> (#[trigger] s@[i]@[j]).v() == s2[i]@[j].v() + h * x@[i]@[j],
@at before loop 5
    let ghost s3 = s@;
@loop 5
    irect(s@, n, nc), 0 <= i < n,
    forall|k: int, j: int| 0 <= k < n && k != i && 0 <= j < nc ==> (#[trigger] s@[k]@[j]).v() == s3[k]@[j].v(),
    forall|j: int| it5 <= j < nc ==> (#[trigger] s@[i as int]@[j]).v() == s2[i as int]@[j].v(),
    forall|j: int| 0 <= j < it5 ==> (#[trigger] s@[i as int]@[j]).v() == s2[i as int]@[j].v() + h * x@[i as int]@[j],
@at after loop 4
    let ghost h2 = h * pr;
    proof {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < nc implies #[trigger] lifted_mod(am, s@, b0, h2, i, j) && -h2 < s@[i]@[j].v() < h2
            && dot(rowq(am, i), scol(s@, j), n) + h2 * tdiv(b2[i]@[j] - lin(rowq(am, i), x@, j, n), pr) == b0[i]@[j] by {
            assert(lifted(am, s2, b2, b0, h, i, j));
            lemma_lifted(am, cm, x@, b2, b0, s2, s@, h, pr, nc, i, j);
            assert(mod_entry(x@[i]@[j] as int, cm, b2, i, j, pr));
            assert(s@[i]@[j].v() == s2[i]@[j].v() + h * x@[i]@[j]);
            assert(-h < s2[i]@[j].v() < h);
            lemma_bound(s2[i]@[j].v(), x@[i]@[j] as int, h, pr);
        }
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < nc implies -h2 < (#[trigger] s@[i]@[j]).v() < h2 by { assert(lifted_mod(am, s@, b0, h2, i, j)); }
        assert(h2 == pr * h) by (nonlinear_arith) requires h2 == h * pr;
        lemma_ipow_pos(pr, it3 as nat);
        assert(ipow(pr, it3 as nat) == pr * ipow(pr, (it3 - 1) as nat));
        h = h2;
    }
@loop 6
    rect(b@, n, nc),
    forall|i: int, j: int| it6 <= i < n && 0 <= j < nc ==> #[trigger] b@[i]@[j] == b2[i]@[j],
    forall|i: int, j: int| 0 <= i < it6 && 0 <= j < nc ==> #[trigger] b@[i]@[j] == tdiv(b2[i]@[j] - ax@[i]@[j], pr),
@at before loop 7
    let ghost b3 = b@;
@loop 7
    rect(b@, n, nc), 0 <= i < n,
    forall|k: int| 0 <= k < n && k != i ==> #[trigger] b@[k] == b3[k],
    forall|j: int| it7 <= j < nc ==> #[trigger] b@[i as int]@[j] == b2[i as int]@[j],
    forall|j: int| 0 <= j < it7 ==> #[trigger] b@[i as int]@[j] == tdiv(b2[i as int]@[j] - ax@[i as int]@[j], pr),
@at after loop 6
    proof {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < nc implies #[trigger] lifted(am, s@, b@, b0, h, i, j) by {
            assert(lifted_mod(am, s@, b0, h, i, j));
            assert(b@[i]@[j] == tdiv(b2[i]@[j] - ax@[i]@[j], pr));
            assert(ax@[i]@[j] == lin(rowq(am, i), x@, j, n));
        }
    }
@at before loop 8
    proof { if nc > 0 { assert(has_small_solution(am, b0, 0, h)); lemma_small_h(am, b0, 0, h); } }
@loop 8
    rrect(acc8@, it8 as nat, nc), nc > 0 ==> h >= 2,
    forall|i: int, j: int| 0 <= i < it8 && 0 <= j < nc ==> recon((#[trigger] acc8@[i]@[j]).v(), s@[i]@[j].v(), h),
@loop 9
    acc9@.len() == it9, row@ == s@[cur8 as int]@,
    forall|j: int| 0 <= j < it9 ==> recon((#[trigger] acc9@[j]).v(), s@[cur8 as int]@[j].v(), h),
@at after loop 8
    proof {
        assert forall|j: int| 0 <= j < nc implies #[trigger] solves_col(am, acc8@, b0, j) by {
            assert(has_small_solution(am, b0, j, h));
            assert forall|i: int| 0 <= i < n implies #[trigger] lifted_mod(am, s@, b0, h, i, j) by {}
            assert forall|i: int| 0 <= i < n implies recon((#[trigger] acc8@[i]@[j]).v(), s@[i]@[j].v(), h) by {}
            lemma_solution(am, cm, b0, s@, acc8@, pr, nr_steps as nat, nc, j);
        }
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < nc implies #[trigger] rdot(rowq(am, i), rcol(acc8@, j), n) == b0[i]@[j] as real by {
            assert(solves_col(am, acc8@, b0, j));
        }
        assert(mod_linv(am, cm, pr));
    }
@endfn
