@# vectors and row spaces modulo p
pub open spec fn cg(a: int, b: int, p: int) -> bool { (a - b) % p == 0 }
pub proof fn lemma_cg_k(a: int, b: int, p: int) -> (k: int)
    requires p >= 1, cg(a, b, p)
    ensures a == b + k * p
{
    lemma_fundamental_div_mod(a - b, p);
    let k = (a - b) / p;
    assert(a == b + k * p) by (nonlinear_arith) requires a - b == p * k + 0;
    k
}
pub proof fn lemma_k_cg(a: int, b: int, p: int, k: int)
    requires p >= 1, a == b + k * p
    ensures cg(a, b, p)
{
    assert(a - b == p * k + 0) by (nonlinear_arith) requires a == b + k * p;
    lemma_fundamental_div_mod_converse(a - b, p, k, 0);
}
/// two numbers in [0,p) that agree modulo p are equal
pub proof fn lemma_cg_eq(a: int, b: int, p: int)
    requires p >= 1, cg(a, b, p), 0 <= a < p, 0 <= b < p
    ensures a == b
{
    let k = lemma_cg_k(a, b, p);
    assert(k == 0) by (nonlinear_arith) requires a == b + k * p, 0 <= a < p, 0 <= b < p;
}
pub proof fn lemma_mod_cg(a: int, p: int)
    requires p >= 1
    ensures cg(a % p, a, p), cg(a, a % p, p), 0 <= a % p < p
{
    lemma_fundamental_div_mod(a, p);
    lemma_mod_bound(a, p);
    let q = a / p;
    assert(a % p == a + (-q) * p && a == a % p + q * p) by (nonlinear_arith) requires a == p * q + a % p;
    lemma_k_cg(a % p, a, p, -q);
    lemma_k_cg(a, a % p, p, q);
}
pub proof fn lemma_trem_cg(a: int, p: int)
    requires p >= 1
    ensures cg(trem(a, p), a, p), -p < trem(a, p) < p, a >= 0 ==> trem(a, p) == a % p && 0 <= trem(a, p)
{
    lemma_tdiv(a, p);
    let q = tdiv(a, p);
    assert(trem(a, p) == a + (-q) * p) by (nonlinear_arith) requires a == p * q + trem(a, p);
    lemma_k_cg(trem(a, p), a, p, -q);
    lemma_fundamental_div_mod(a, p);
}
pub proof fn lemma_cg_trans(a: int, b: int, c: int, p: int)
    requires p >= 1, cg(a, b, p), cg(b, c, p)
    ensures cg(a, c, p)
{
    let k = lemma_cg_k(a, b, p);
    let l = lemma_cg_k(b, c, p);
    assert(a == c + (k + l) * p) by (nonlinear_arith) requires a == b + k * p, b == c + l * p;
    lemma_k_cg(a, c, p, k + l);
}
/// a == b, c == d implies a + x*c == b + y*d when also x == y
pub proof fn lemma_cg_step(a: int, b: int, x: int, y: int, c: int, d: int, p: int)
    requires p >= 1, cg(a, b, p), cg(x, y, p), cg(c, d, p)
    ensures cg(a + x * c, b + y * d, p), cg(a - x * c, b - y * d, p), cg(x * c, y * d, p), cg(a + c, b + d, p), cg(a - c, b - d, p)
{
    let k = lemma_cg_k(a, b, p);
    let l = lemma_cg_k(x, y, p);
    let m = lemma_cg_k(c, d, p);
    let t = y * m + l * d + l * m * p;
    assert(x * c == y * d + t * p) by (nonlinear_arith) requires x == y + l * p, c == d + m * p, t == y * m + l * d + l * m * p;
    assert(a + x * c == b + y * d + (k + t) * p && a - x * c == b - y * d + (k - t) * p) by (nonlinear_arith) requires a == b + k * p, x * c == y * d + t * p;
    assert(a + c == b + d + (k + m) * p && a - c == b - d + (k - m) * p) by (nonlinear_arith) requires a == b + k * p, c == d + m * p;
    lemma_k_cg(x * c, y * d, p, t);
    lemma_k_cg(a + x * c, b + y * d, p, k + t);
    lemma_k_cg(a - x * c, b - y * d, p, k - t);
    lemma_k_cg(a + c, b + d, p, k + m);
    lemma_k_cg(a - c, b - d, p, k - m);
}
pub proof fn lemma_cg_refl(a: int, p: int)
    requires p >= 1
    ensures cg(a, a, p)
{ lemma_k_cg(a, a, p, 0); }
pub proof fn lemma_cg_sym(a: int, b: int, p: int)
    requires p >= 1, cg(a, b, p)
    ensures cg(b, a, p)
{
    let k = lemma_cg_k(a, b, p);
    assert(b == a + (-k) * p) by (nonlinear_arith) requires a == b + k * p;
    lemma_k_cg(b, a, p, -k);
}
pub open spec fn in_range(m: Seq<Vec<i64>>, nc: nat, p: int) -> bool {
    forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < nc ==> 0 <= #[trigger] m[i]@[j] < p
}
/// the first n rows have leading ones at the columns piv, alone in their columns, below column k; rows from n on are zero before column k
pub open spec fn rref(m: Seq<Vec<i64>>, nc: nat, piv: Seq<int>, k: int) -> bool {
    &&& piv.len() <= m.len()
    &&& forall|a: int, b: int| 0 <= a < b < piv.len() ==> #[trigger] piv[a] < #[trigger] piv[b]
    &&& forall|a: int| 0 <= a < piv.len() ==> 0 <= #[trigger] piv[a] < k
    &&& forall|a: int, i: int| 0 <= a < piv.len() && 0 <= i < m.len() ==> #[trigger] m[i]@[piv[a]] == (if i == a { 1int } else { 0int })
    &&& forall|a: int, j: int| 0 <= a < piv.len() && 0 <= j < piv[a] ==> #[trigger] m[a]@[j] == 0
    &&& forall|i: int, j: int| piv.len() <= i < m.len() && 0 <= j < k ==> #[trigger] m[i]@[j] == 0
}
/// echelon form with leading ones and zeros elsewhere in the leading columns
pub open spec fn is_rref(m: Seq<Vec<i64>>, nc: nat) -> bool { exists|piv: Seq<int>| #[trigger] rref(m, nc, piv, nc as int) }
/// the coefficient of column j in the first n rows combined by c
pub open spec fn lin(c: Seq<int>, m: Seq<Vec<i64>>, j: int, n: nat) -> int
    decreases n
{ if n == 0 { 0 } else { lin(c, m, j, (n - 1) as nat) + c[n - 1] * (m[n - 1]@[j] as int) } }
pub open spec fn rect(m: Seq<Vec<i64>>, nr: nat, nc: nat) -> bool { m.len() == nr && forall|i: int| 0 <= i < nr ==> (#[trigger] m[i])@.len() == nc }
/// w is congruent to the combination of the rows of m by c
pub open spec fn comb(c: Seq<int>, m: Seq<Vec<i64>>, w: Seq<int>, p: int) -> bool {
    c.len() == m.len() && forall|j: int| 0 <= j < w.len() ==> cg(#[trigger] w[j], lin(c, m, j, m.len()), p)
}
pub open spec fn inspan(m: Seq<Vec<i64>>, w: Seq<int>, p: int) -> bool { exists|c: Seq<int>| #[trigger] comb(c, m, w, p) }
/// the same row space modulo p
pub open spec fn same_space(a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, nc: nat, p: int) -> bool {
    forall|w: Seq<int>| w.len() == nc ==> (#[trigger] inspan(a, w, p) <==> inspan(b, w, p))
}
/// no combination of the rows vanishes modulo p unless all its coefficients do
pub open spec fn null_comb(c: Seq<int>, m: Seq<Vec<i64>>, nc: nat, p: int) -> bool {
    c.len() == m.len() && forall|j: int| 0 <= j < nc ==> cg(#[trigger] lin(c, m, j, m.len()), 0, p)
}
pub open spec fn all_zero(c: Seq<int>, p: int) -> bool { forall|i: int| 0 <= i < c.len() ==> cg(#[trigger] c[i], 0, p) }
pub open spec fn indep(m: Seq<Vec<i64>>, nc: nat, p: int) -> bool {
    forall|c: Seq<int>| #[trigger] null_comb(c, m, nc, p) ==> all_zero(c, p)
}
pub proof fn lemma_lin_upd(c: Seq<int>, m: Seq<Vec<i64>>, j: int, k: int, x: int, n: nat)
    requires 0 <= k < c.len(), n <= c.len()
    ensures lin(c.update(k, x), m, j, n) == lin(c, m, j, n) + (if k < n { (x - c[k]) * (m[k]@[j] as int) } else { 0 })
    decreases n
{
    if n > 0 {
        lemma_lin_upd(c, m, j, k, x, (n - 1) as nat);
        if k == n - 1 {
            let e = m[k]@[j] as int;
            assert(x * e == c[k] * e + (x - c[k]) * e) by (nonlinear_arith);
        }
    }
}
/// rows other than i agree in column j
pub proof fn lemma_lin_row(c: Seq<int>, m1: Seq<Vec<i64>>, m2: Seq<Vec<i64>>, j: int, i: int, n: nat)
    requires forall|k: int| 0 <= k < n && k != i ==> (#[trigger] m2[k])@[j] == m1[k]@[j]
    ensures lin(c, m2, j, n) == lin(c, m1, j, n) + (if 0 <= i < n { c[i] * (m2[i]@[j] - m1[i]@[j]) } else { 0 })
    decreases n
{
    if n > 0 {
        lemma_lin_row(c, m1, m2, j, i, (n - 1) as nat);
        if i == n - 1 {
            let (x, y) = (m2[i]@[j] as int, m1[i]@[j] as int);
            let ci = c[i];
            assert(ci * x == ci * y + ci * (x - y)) by (nonlinear_arith);
        } else { assert(m2[n - 1]@[j] == m1[n - 1]@[j]); }
    }
}
/// row i of b is s * row i of a + t * row r of a, the other rows agree
pub open spec fn row_op(a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, i: int, r: int, s: int, t: int, nc: nat, p: int) -> bool {
    &&& 0 <= i < a.len() && 0 <= r < a.len() && (i != r || t == 0) && rect(a, a.len(), nc) && rect(b, a.len(), nc)
    &&& forall|k: int| 0 <= k < a.len() && k != i ==> #[trigger] b[k] == a[k]
    &&& forall|j: int| 0 <= j < nc ==> cg(#[trigger] b[i]@[j] as int, s * a[i]@[j] + t * a[r]@[j], p)
}
pub open spec fn back(c: Seq<int>, i: int, r: int, s: int, t: int) -> Seq<int> {
    if i == r { c.update(i, c[i] * s) } else { c.update(i, c[i] * s).update(r, c[r] + t * c[i]) }
}
pub proof fn lemma_row_op_lin(a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, i: int, r: int, s: int, t: int, nc: nat, p: int, c: Seq<int>, j: int)
    requires p >= 1, row_op(a, b, i, r, s, t, nc, p), c.len() == a.len(), 0 <= j < nc
    ensures cg(lin(c, b, j, b.len()), lin(back(c, i, r, s, t), a, j, a.len()), p)
{
    let n = a.len();
    lemma_lin_row(c, a, b, j, i, n);
    lemma_lin_upd(c, a, j, i, c[i] * s, n);
    let c1 = c.update(i, c[i] * s);
    if i != r { lemma_lin_upd(c1, a, j, r, c[r] + t * c[i], n); }
    let (bi, ai, ar, ci) = (b[i]@[j] as int, a[i]@[j] as int, a[r]@[j] as int, c[i]);
    let x = lin(c, b, j, n);
    let y = lin(back(c, i, r, s, t), a, j, n);
    let k = lemma_cg_k(bi, s * ai + t * ar, p);
    let l = lin(c, a, j, n);
    assert(x == l + ci * (bi - ai));
    if i == r {
        assert(y == l + (ci * s - ci) * ai);
        assert(x == y + (ci * k) * p) by (nonlinear_arith) requires x == l + ci * (bi - ai), y == l + (ci * s - ci) * ai, bi == s * ai + t * ar + k * p, t == 0;
    } else {
        assert((c[r] + t * c[i] - c1[r]) * ar == (t * ci) * ar);
        assert(y == l + (ci * s - ci) * ai + (t * ci) * ar);
        let u = ci * s;
        let w = t * ci;
        assert(ci * bi == u * ai + w * ar + (ci * k) * p) by (nonlinear_arith) requires bi == s * ai + t * ar + k * p, u == ci * s, w == t * ci;
        assert(ci * (bi - ai) == ci * bi - ci * ai && (u - ci) * ai == u * ai - ci * ai) by (nonlinear_arith);
    }
    lemma_k_cg(x, y, p, ci * k);
}
pub proof fn lemma_row_op_span(a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, i: int, r: int, s: int, t: int, nc: nat, p: int, w: Seq<int>)
    requires p >= 1, row_op(a, b, i, r, s, t, nc, p), w.len() == nc, inspan(b, w, p)
    ensures inspan(a, w, p)
{
    let c = choose|c: Seq<int>| comb(c, b, w, p);
    let d = back(c, i, r, s, t);
    assert forall|j: int| 0 <= j < w.len() implies cg(#[trigger] w[j], lin(d, a, j, a.len()), p) by {
        lemma_row_op_lin(a, b, i, r, s, t, nc, p, c, j);
        lemma_cg_trans(w[j], lin(c, b, j, b.len()), lin(d, a, j, a.len()), p);
    }
    assert(comb(d, a, w, p));
}
/// the inverse operation
pub proof fn lemma_row_op_inv(a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, i: int, r: int, s: int, t: int, nc: nat, p: int, f: int)
    requires p >= 1, row_op(a, b, i, r, s, t, nc, p), cg(f * s, 1, p)
    ensures row_op(b, a, i, r, f, -f * t, nc, p)
{
    assert forall|j: int| 0 <= j < nc implies cg(#[trigger] a[i]@[j] as int, f * b[i]@[j] + (-f * t) * b[r]@[j], p) by {
        let (bi, ai, ar) = (b[i]@[j] as int, a[i]@[j] as int, a[r]@[j] as int);
        let k = lemma_cg_k(bi, s * ai + t * ar, p);
        let l = lemma_cg_k(f * s, 1, p);
        if i == r { assert((-f * t) * b[r]@[j] == 0 && t * ar == 0) by (nonlinear_arith) requires t == 0; }
        else { assert(b[r]@[j] == ar); }
        let u = (-f * t) * b[r]@[j];
        assert(u == -(f * (t * ar))) by (nonlinear_arith) requires u == (-f * t) * b[r]@[j], b[r]@[j] == ar || t == 0;
        let v = t * ar;
        assert(f * bi == (f * s) * ai + f * v + (f * k) * p) by (nonlinear_arith) requires bi == s * ai + v + k * p;
        assert((f * s) * ai == ai + (l * ai) * p) by (nonlinear_arith) requires f * s == 1 + l * p;
        assert(ai == f * bi + u + (-(f * k) - l * ai) * p) by (nonlinear_arith) requires f * bi == ai + (l * ai) * p + f * v + (f * k) * p, u == -(f * v);
        lemma_k_cg(ai, f * bi + u, p, -(f * k) - l * ai);
    }
    assert(t == 0 ==> -f * t == 0) by (nonlinear_arith);
}
/// an invertible row operation keeps the row space and independence
pub proof fn lemma_row_op(a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, i: int, r: int, s: int, t: int, nc: nat, p: int, f: int)
    requires p >= 1, row_op(a, b, i, r, s, t, nc, p), cg(f * s, 1, p)
    ensures same_space(a, b, nc, p), indep(a, nc, p) ==> indep(b, nc, p)
{
    lemma_row_op_inv(a, b, i, r, s, t, nc, p, f);
    assert forall|w: Seq<int>| w.len() == nc implies (#[trigger] inspan(a, w, p) <==> inspan(b, w, p)) by {
        if inspan(b, w, p) { lemma_row_op_span(a, b, i, r, s, t, nc, p, w); }
        if inspan(a, w, p) { lemma_row_op_span(b, a, i, r, f, -f * t, nc, p, w); }
    }
    if indep(a, nc, p) {
        assert forall|c: Seq<int>| #[trigger] null_comb(c, b, nc, p) implies all_zero(c, p) by {
            let d = back(c, i, r, s, t);
            assert forall|j: int| 0 <= j < nc implies cg(#[trigger] lin(d, a, j, a.len()), 0, p) by {
                lemma_row_op_lin(a, b, i, r, s, t, nc, p, c, j);
                lemma_cg_sym(lin(c, b, j, b.len()), lin(d, a, j, a.len()), p);
                lemma_cg_trans(lin(d, a, j, a.len()), lin(c, b, j, b.len()), 0, p);
            }
            assert(null_comb(d, a, nc, p));
            assert(cg(d[i], 0, p));
            assert(d[i] == c[i] * s);
            let k = lemma_cg_k(c[i] * s, 0, p);
            let l = lemma_cg_k(f * s, 1, p);
            let ci = c[i];
            assert(ci == (f * k - l * ci) * p) by (nonlinear_arith) requires ci * s == k * p, f * s == 1 + l * p;
            lemma_k_cg(ci, 0, p, f * k - l * ci);
            assert forall|q: int| 0 <= q < c.len() implies cg(#[trigger] c[q], 0, p) by {
                assert(cg(d[q], 0, p));
                if q == r && i != r {
                    let m = lemma_cg_k(d[r], 0, p);
                    let n = f * k - l * ci;
                    let cr = c[r];
                    assert(cr == (m - t * n) * p) by (nonlinear_arith) requires cr + t * ci == m * p, ci == n * p;
                    lemma_k_cg(cr, 0, p, m - t * n);
                }
            }
        }
    }
}
pub open spec fn swapped(a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, i: int, r: int) -> bool {
    0 <= i < a.len() && 0 <= r < a.len() && b == a.update(i, a[r]).update(r, a[i])
}
pub proof fn lemma_swap_lin(a: Seq<Vec<i64>>, i: int, r: int, c: Seq<int>, j: int)
    requires 0 <= i < a.len(), 0 <= r < a.len(), c.len() == a.len(), i != r
    ensures lin(c, a.update(i, a[r]).update(r, a[i]), j, a.len()) == lin(c.update(i, c[r]).update(r, c[i]), a, j, a.len())
{
    let n = a.len();
    let b1 = a.update(i, a[r]);
    let b = b1.update(r, a[i]);
    let c1 = c.update(i, c[r]);
    lemma_lin_row(c, a, b1, j, i, n);
    lemma_lin_row(c, b1, b, j, r, n);
    lemma_lin_upd(c, a, j, i, c[r], n);
    lemma_lin_upd(c1, a, j, r, c[i], n);
    let (x, y, u, v) = (a[i]@[j] as int, a[r]@[j] as int, c[i], c[r]);
    assert(u * (y - x) + v * (x - y) == (v - u) * x + (u - v) * y) by (nonlinear_arith);
}
pub proof fn lemma_swap(a: Seq<Vec<i64>>, i: int, r: int, nc: nat, p: int)
    requires p >= 1, 0 <= i < a.len(), 0 <= r < a.len(), i != r
    ensures same_space(a, a.update(i, a[r]).update(r, a[i]), nc, p), indep(a, nc, p) ==> indep(a.update(i, a[r]).update(r, a[i]), nc, p)
{
    let b = a.update(i, a[r]).update(r, a[i]);
    assert(a =~= b.update(i, b[r]).update(r, b[i]));
    assert forall|w: Seq<int>| w.len() == nc implies (#[trigger] inspan(a, w, p) <==> inspan(b, w, p)) by {
        if inspan(b, w, p) {
            let c = choose|c: Seq<int>| comb(c, b, w, p);
            let d = c.update(i, c[r]).update(r, c[i]);
            assert forall|j: int| 0 <= j < w.len() implies cg(#[trigger] w[j], lin(d, a, j, a.len()), p) by { lemma_swap_lin(a, i, r, c, j); }
            assert(comb(d, a, w, p));
        }
        if inspan(a, w, p) {
            let c = choose|c: Seq<int>| comb(c, a, w, p);
            let d = c.update(i, c[r]).update(r, c[i]);
            assert forall|j: int| 0 <= j < w.len() implies cg(#[trigger] w[j], lin(d, b, j, b.len()), p) by { lemma_swap_lin(b, i, r, c, j); }
            assert(comb(d, b, w, p));
        }
    }
    if indep(a, nc, p) {
        assert forall|c: Seq<int>| #[trigger] null_comb(c, b, nc, p) implies all_zero(c, p) by {
            let d = c.update(i, c[r]).update(r, c[i]);
            assert forall|j: int| 0 <= j < nc implies cg(#[trigger] lin(d, a, j, a.len()), 0, p) by {
                lemma_swap_lin(a, i, r, c, j);
                assert(cg(lin(c, b, j, b.len()), 0, p));
            }
            assert(null_comb(d, a, nc, p));
            assert forall|q: int| 0 <= q < c.len() implies cg(#[trigger] c[q], 0, p) by {
                assert(cg(d[q], 0, p) && cg(d[i], 0, p) && cg(d[r], 0, p));
            }
        }
    }
}
pub proof fn lemma_space_trans(a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, c: Seq<Vec<i64>>, nc: nat, p: int)
    requires same_space(a, b, nc, p), same_space(b, c, nc, p)
    ensures same_space(a, c, nc, p)
{
    assert forall|w: Seq<int>| w.len() == nc implies (#[trigger] inspan(a, w, p) <==> inspan(c, w, p)) by { assert(inspan(b, w, p) || !inspan(b, w, p)); }
}
/// entrywise congruent rows
pub proof fn lemma_reduced(a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, nc: nat, p: int)
    requires p >= 1, b.len() == a.len(), forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < nc ==> cg(#[trigger] a[i]@[j] as int, b[i]@[j] as int, p)
    ensures same_space(a, b, nc, p), indep(a, nc, p) <==> indep(b, nc, p)
{
    assert forall|c: Seq<int>, j: int| c.len() == a.len() && 0 <= j < nc implies cg(#[trigger] lin(c, a, j, a.len()), lin(c, b, j, b.len()), p) by { lemma_lin_cg(c, a, b, j, p, a.len()); }
    assert forall|w: Seq<int>| w.len() == nc implies (#[trigger] inspan(a, w, p) <==> inspan(b, w, p)) by {
        if inspan(b, w, p) {
            let c = choose|c: Seq<int>| comb(c, b, w, p);
            assert forall|j: int| 0 <= j < w.len() implies cg(#[trigger] w[j], lin(c, a, j, a.len()), p) by {
                lemma_cg_sym(lin(c, a, j, a.len()), lin(c, b, j, b.len()), p);
                lemma_cg_trans(w[j], lin(c, b, j, b.len()), lin(c, a, j, a.len()), p);
            }
            assert(comb(c, a, w, p));
        }
        if inspan(a, w, p) {
            let c = choose|c: Seq<int>| comb(c, a, w, p);
            assert forall|j: int| 0 <= j < w.len() implies cg(#[trigger] w[j], lin(c, b, j, b.len()), p) by {
                lemma_cg_trans(w[j], lin(c, a, j, a.len()), lin(c, b, j, b.len()), p);
            }
            assert(comb(c, b, w, p));
        }
    }
    assert forall|c: Seq<int>| null_comb(c, a, nc, p) <==> null_comb(c, b, nc, p) by {
        if null_comb(c, a, nc, p) {
            assert forall|j: int| 0 <= j < nc implies cg(#[trigger] lin(c, b, j, b.len()), 0, p) by {
                lemma_cg_sym(lin(c, a, j, a.len()), lin(c, b, j, b.len()), p);
                lemma_cg_trans(lin(c, b, j, b.len()), lin(c, a, j, a.len()), 0, p);
            }
        }
        if null_comb(c, b, nc, p) {
            assert forall|j: int| 0 <= j < nc implies cg(#[trigger] lin(c, a, j, a.len()), 0, p) by {
                lemma_cg_trans(lin(c, a, j, a.len()), lin(c, b, j, b.len()), 0, p);
            }
        }
    }
}
pub proof fn lemma_lin_cg(c: Seq<int>, a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, j: int, p: int, n: nat)
    requires p >= 1, n <= a.len(), forall|i: int| 0 <= i < n ==> cg(#[trigger] a[i]@[j] as int, b[i]@[j] as int, p)
    ensures cg(lin(c, a, j, n), lin(c, b, j, n), p)
    decreases n
{
    if n == 0 { lemma_cg_refl(0, p); }
    else {
        lemma_lin_cg(c, a, b, j, p, (n - 1) as nat);
        assert(cg(a[n - 1]@[j] as int, b[n - 1]@[j] as int, p));
        lemma_cg_refl(c[n - 1], p);
        lemma_cg_step(lin(c, a, j, (n - 1) as nat), lin(c, b, j, (n - 1) as nat), c[n - 1], c[n - 1], a[n - 1]@[j] as int, b[n - 1]@[j] as int, p);
    }
}
pub open spec fn rowq(m: Seq<Vec<i64>>, i: int) -> Seq<int> { Seq::new(m[i]@.len(), |j: int| m[i]@[j] as int) }
pub open spec fn unit(n: nat, k: int) -> Seq<int> { Seq::new(n, |i: int| if i == k { 1int } else { 0int }) }
pub proof fn lemma_lin_unit(m: Seq<Vec<i64>>, k: int, len: nat, j: int, n: nat)
    requires n <= len, 0 <= k < len
    ensures lin(unit(len, k), m, j, n) == (if k < n { m[k]@[j] as int } else { 0 })
    decreases n
{
    if n > 0 {
        lemma_lin_unit(m, k, len, j, (n - 1) as nat);
        let x = m[n - 1]@[j] as int;
        assert(0 * x == 0 && 1 * x == x);
    }
}
pub proof fn lemma_lin_delta(c: Seq<int>, m: Seq<Vec<i64>>, j: int, k: int, n: nat)
    requires n <= c.len(), forall|i: int| 0 <= i < n ==> (#[trigger] m[i])@[j] == (if i == k { 1int } else { 0int }), 0 <= k
    ensures lin(c, m, j, n) == (if k < n { c[k] } else { 0 })
    decreases n
{
    if n > 0 {
        lemma_lin_delta(c, m, j, k, (n - 1) as nat);
        assert(m[n - 1]@[j] == (if n - 1 == k { 1int } else { 0int }));
        let x = c[n - 1];
        assert(x * 1 == x && x * 0 == 0);
    }
}
pub proof fn lemma_lin_coef(c: Seq<int>, d: Seq<int>, m: Seq<Vec<i64>>, j: int, n: nat, p: int)
    requires p >= 1, n <= c.len(), n <= d.len(), forall|i: int| 0 <= i < n ==> cg(#[trigger] c[i], d[i], p)
    ensures cg(lin(c, m, j, n), lin(d, m, j, n), p)
    decreases n
{
    if n == 0 { lemma_cg_refl(0, p); }
    else {
        lemma_lin_coef(c, d, m, j, (n - 1) as nat, p);
        let x = m[n - 1]@[j] as int;
        lemma_cg_refl(x, p);
        assert(cg(c[n - 1], d[n - 1], p));
        lemma_cg_step(lin(c, m, j, (n - 1) as nat), lin(d, m, j, (n - 1) as nat), c[n - 1], d[n - 1], x, x, p);
    }
}
/// the same entries in column j of a and column k of b
pub proof fn lemma_lin_same(c: Seq<int>, d: Seq<int>, a: Seq<Vec<i64>>, j: int, b: Seq<Vec<i64>>, k: int, n: nat)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] a[i])@[j] == b[i]@[k] && c[i] == d[i]
    ensures lin(c, a, j, n) == lin(d, b, k, n)
    decreases n
{
    if n > 0 { lemma_lin_same(c, d, a, j, b, k, (n - 1) as nat); assert(a[n - 1]@[j] == b[n - 1]@[k] && c[n - 1] == d[n - 1]); }
}
/// c * A as a row
pub open spec fn lrow(c: Seq<int>, a: Seq<Vec<i64>>, w: nat, n: nat) -> Seq<int> { Seq::new(w, |k: int| lin(c, a, k, n)) }
/// the sum over i < n of c_i * (row i of a times y) in column j
pub open spec fn lin2(c: Seq<int>, a: Seq<Vec<i64>>, y: Seq<Vec<i64>>, j: int, n: nat) -> int
    decreases n
{ if n == 0 { 0 } else { lin2(c, a, y, j, (n - 1) as nat) + c[n - 1] * lin(rowq(a, n - 1), y, j, y.len()) } }
pub proof fn lemma_lin_add(x: Seq<int>, y: Seq<int>, z: Seq<int>, t: int, m: Seq<Vec<i64>>, j: int, n: nat)
    requires n <= x.len(), n <= y.len(), n <= z.len(), forall|k: int| 0 <= k < n ==> #[trigger] z[k] == x[k] + t * y[k]
    ensures lin(z, m, j, n) == lin(x, m, j, n) + t * lin(y, m, j, n)
    decreases n
{
    if n > 0 {
        let h = (n - 1) as nat;
        lemma_lin_add(x, y, z, t, m, j, h);
        let (a, b, e, l) = (x[n - 1], y[n - 1], m[n - 1]@[j] as int, lin(y, m, j, h));
        assert(z[n - 1] == a + t * b);
        assert((a + t * b) * e + t * l == a * e + t * (l + b * e)) by (nonlinear_arith);
    } else { assert(t * 0 == 0); }
}
pub proof fn lemma_assoc(c: Seq<int>, a: Seq<Vec<i64>>, y: Seq<Vec<i64>>, j: int, n: nat)
    requires n <= a.len(), n <= c.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@.len() >= y.len()
    ensures lin2(c, a, y, j, n) == lin(lrow(c, a, y.len(), n), y, j, y.len())
    decreases n
{
    if n > 0 {
        let h = (n - 1) as nat;
        lemma_assoc(c, a, y, j, h);
        lemma_lin_add(lrow(c, a, y.len(), h), rowq(a, n - 1), lrow(c, a, y.len(), n), c[n - 1], y, j, y.len());
    } else { lemma_lin_zero(lrow(c, a, y.len(), 0), y, j, y.len()); }
}
pub proof fn lemma_lin_zero(z: Seq<int>, m: Seq<Vec<i64>>, j: int, n: nat)
    requires n <= z.len(), forall|k: int| 0 <= k < n ==> #[trigger] z[k] == 0
    ensures lin(z, m, j, n) == 0
    decreases n
{
    if n > 0 { lemma_lin_zero(z, m, j, (n - 1) as nat); let x = m[n - 1]@[j] as int; assert(z[n - 1] == 0); assert(0 * x == 0); }
}
/// A * X is the identity modulo p
pub open spec fn mod_inv(a: Seq<Vec<i64>>, x: Seq<Vec<i64>>, p: int) -> bool {
    forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() ==> cg(#[trigger] lin(rowq(a, i), x, j, a.len()), if i == j { 1int } else { 0int }, p)
}
/// X * A is the identity modulo p
pub open spec fn mod_linv(a: Seq<Vec<i64>>, x: Seq<Vec<i64>>, p: int) -> bool {
    forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() ==> cg(#[trigger] lin(rowq(x, i), a, j, a.len()), if i == j { 1int } else { 0int }, p)
}
/// the matrix with the identity put to its right
pub open spec fn augmented(a: Seq<Vec<i64>>, m: Seq<Vec<i64>>) -> bool {
    let n = a.len();
    &&& rect(a, n, n) && rect(m, n, 2 * n)
    &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] m[i]@[j] == a[i]@[j]
    &&& forall|i: int, j: int| 0 <= i < n && n <= j < 2 * n ==> #[trigger] m[i]@[j] == (if j == n + i { 1int } else { 0int })
}
pub proof fn lemma_aug_indep(a: Seq<Vec<i64>>, m: Seq<Vec<i64>>, p: int)
    requires augmented(a, m), p >= 2
    ensures indep(m, 2 * a.len(), p)
{
    let n = a.len();
    assert forall|c: Seq<int>| #[trigger] null_comb(c, m, 2 * n, p) implies all_zero(c, p) by {
        assert forall|i: int| 0 <= i < c.len() implies cg(#[trigger] c[i], 0, p) by {
            lemma_lin_delta(c, m, n + i, i, n);
            assert(cg(lin(c, m, n + i, n), 0, p));
        }
    }
}
/// a row of a matrix lies in its space
pub proof fn lemma_row_in(m: Seq<Vec<i64>>, i: int, nc: nat, p: int)
    requires 0 <= i < m.len(), m[i]@.len() == nc, p >= 1
    ensures inspan(m, rowq(m, i), p)
{
    let e = unit(m.len(), i);
    assert forall|j: int| 0 <= j < nc implies cg(#[trigger] rowq(m, i)[j], lin(e, m, j, m.len()), p) by { lemma_lin_unit(m, i, m.len(), j, m.len()); lemma_cg_refl(m[i]@[j] as int, p); }
    assert(comb(e, m, rowq(m, i), p));
}
/// the reduced augmented matrix holds the inverse
pub proof fn lemma_inverse_found(a: Seq<Vec<i64>>, m: Seq<Vec<i64>>, r: Seq<Vec<i64>>, x: Seq<Vec<i64>>, p: int)
    requires augmented(a, m), p >= 2, rect(r, a.len(), 2 * a.len()), same_space(m, r, 2 * a.len(), p), rect(x, a.len(), a.len()),
        forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() ==> #[trigger] r[i]@[j] == (if i == j { 1int } else { 0int }),
        forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() ==> #[trigger] x[i]@[j] == r[i]@[a.len() + j],
    ensures mod_inv(a, x, p), mod_linv(a, x, p)
{
    let n = a.len();
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies cg(#[trigger] lin(rowq(x, i), a, j, n), if i == j { 1int } else { 0int }, p) by {
        let w = rowq(r, i);
        lemma_row_in(r, i, 2 * n, p);
        assert(inspan(m, w, p));
        let c = choose|c: Seq<int>| comb(c, m, w, p);
        let xi = rowq(x, i);
        assert forall|k: int| 0 <= k < n implies cg(#[trigger] xi[k], c[k], p) by {
            lemma_lin_delta(c, m, n + k, k, n);
            assert(cg(w[n + k], lin(c, m, n + k, n), p));
            assert(x[i]@[k] == r[i]@[n + k]);
        }
        lemma_lin_coef(xi, c, a, j, n, p);
        lemma_lin_same(c, c, a, j, m, j, n);
        assert(cg(w[j], lin(c, m, j, n), p));
        lemma_cg_sym(w[j], lin(c, m, j, n), p);
        lemma_cg_trans(lin(xi, a, j, n), lin(c, a, j, n), w[j], p);
        assert(r[i]@[j] == (if i == j { 1int } else { 0int }));
    }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies cg(#[trigger] lin(rowq(a, i), x, j, n), if i == j { 1int } else { 0int }, p) by {
        let w = rowq(m, i);
        lemma_row_in(m, i, 2 * n, p);
        assert(inspan(r, w, p));
        let c = choose|c: Seq<int>| comb(c, r, w, p);
        let ai = rowq(a, i);
        assert forall|k: int| 0 <= k < n implies cg(#[trigger] ai[k], c[k], p) by {
            lemma_lin_delta(c, r, k, k, n);
            assert(cg(w[k], lin(c, r, k, n), p));
        }
        lemma_lin_coef(ai, c, r, n + j, n, p);
        lemma_lin_same(ai, ai, x, j, r, n + j, n);
        assert(cg(w[n + j], lin(c, r, n + j, n), p));
        lemma_cg_sym(w[n + j], lin(c, r, n + j, n), p);
        lemma_cg_trans(lin(ai, r, n + j, n), lin(c, r, n + j, n), w[n + j], p);
        assert(w[n + j] == (if i == j { 1int } else { 0int }));
    }
}
/// a matrix whose reduced form is not the identity has no inverse
pub proof fn lemma_no_inverse(a: Seq<Vec<i64>>, m: Seq<Vec<i64>>, r: Seq<Vec<i64>>, piv: Seq<int>, y: Seq<Vec<i64>>, p: int, i0: int, j0: int)
    requires augmented(a, m), p >= 2, rect(r, a.len(), 2 * a.len()), same_space(m, r, 2 * a.len(), p), indep(r, 2 * a.len(), p),
        in_range(r, 2 * a.len(), p), rref(r, 2 * a.len(), piv, 2 * a.len() as int),
        0 <= i0 < a.len(), 0 <= j0 < a.len(), r[i0]@[j0] != (if i0 == j0 { 1int } else { 0int }),
        rect(y, a.len(), a.len()), mod_inv(a, y, p)
    ensures false
{
    let n = a.len();
    let l = n - 1;
    // the last row starts with n zeros
    lemma_piv_low(r, 2 * n, piv, 2 * n as int);
    assert forall|j: int| 0 <= j < n implies (#[trigger] r[l]@[j]) == 0 by {
        if piv.len() == n {
            if piv[l] < n {
                lemma_piv_full(r, 2 * n, piv, 2 * n as int);
                assert(piv[j0] == j0);
                assert(r[i0]@[piv[j0]] == (if i0 == j0 { 1int } else { 0int }));
                assert(false);
            }
        }
    }
    let w = rowq(r, l);
    lemma_row_in(r, l, 2 * n, p);
    assert(inspan(m, w, p));
    let c = choose|c: Seq<int>| comb(c, m, w, p);
    let ca = lrow(c, a, n, n);
    assert forall|k: int| 0 <= k < n implies cg(#[trigger] ca[k], 0, p) by {
        lemma_lin_same(c, c, a, k, m, k, n);
        assert(cg(w[k], lin(c, m, k, n), p));
        lemma_cg_sym(w[k], lin(c, m, k, n), p);
    }
    assert forall|j: int| 0 <= j < n implies #[trigger] r[l]@[n + j] == 0 by {
        lemma_assoc(c, a, y, j, n);
        let z = Seq::new(n, |k: int| 0int);
        lemma_lin_coef(ca, z, y, j, n, p);
        lemma_lin_zero(z, y, j, n);
        lemma_lin2_inv(c, a, y, j, n, p);
        lemma_lin_delta(c, m, n + j, j, n);
        assert(cg(w[n + j], lin(c, m, n + j, n), p));
        lemma_cg_sym(lin2(c, a, y, j, n), c[j], p);
        lemma_cg_trans(c[j], lin2(c, a, y, j, n), 0, p);
        lemma_cg_trans(w[n + j], c[j], 0, p);
        assert(0 <= r[l]@[n + j] < p);
        lemma_cg_eq(w[n + j], 0, p);
    }
    let e = unit(n, l);
    assert forall|j: int| 0 <= j < 2 * n implies cg(#[trigger] lin(e, r, j, r.len()), 0, p) by {
        lemma_lin_unit(r, l, n, j, n);
        if j >= n { assert(r[l]@[n + (j - n)] == 0); } else { assert(r[l]@[j] == 0); }
        lemma_cg_refl(0, p);
    }
    assert(null_comb(e, r, 2 * n, p));
    assert(cg(e[l], 0, p));
    lemma_cg_eq(1, 0, p);
}
pub proof fn lemma_lin2_inv(c: Seq<int>, a: Seq<Vec<i64>>, y: Seq<Vec<i64>>, j: int, n: nat, p: int)
    requires p >= 1, n <= a.len(), c.len() == a.len(), y.len() == a.len(), mod_inv(a, y, p), 0 <= j < a.len()
    ensures cg(lin2(c, a, y, j, n), if j < n { c[j] } else { 0 }, p)
    decreases n
{
    if n == 0 { lemma_cg_refl(0, p); }
    else {
        lemma_lin2_inv(c, a, y, j, (n - 1) as nat, p);
        let d = if n - 1 == j { 1int } else { 0int };
        let q = lin(rowq(a, n - 1), y, j, y.len());
        assert(cg(q, d, p));
        lemma_cg_refl(c[n - 1], p);
        lemma_cg_step(lin2(c, a, y, j, (n - 1) as nat), if j < n - 1 { c[j] } else { 0 }, c[n - 1], c[n - 1], q, d, p);
        let x = c[n - 1];
        assert(x * 0 == 0 && x * 1 == x);
    }
}
pub proof fn lemma_piv_low(m: Seq<Vec<i64>>, nc: nat, piv: Seq<int>, k: int)
    requires rref(m, nc, piv, k)
    ensures forall|a: int| 0 <= a < piv.len() ==> a <= #[trigger] piv[a]
{ if piv.len() > 0 { lemma_piv_low_at(m, nc, piv, k, piv.len() - 1); } }
pub proof fn lemma_piv_low_at(m: Seq<Vec<i64>>, nc: nat, piv: Seq<int>, k: int, b: int)
    requires rref(m, nc, piv, k), 0 <= b < piv.len()
    ensures forall|a: int| 0 <= a <= b ==> a <= #[trigger] piv[a]
    decreases b
{ if b > 0 { lemma_piv_low_at(m, nc, piv, k, b - 1); assert(piv[b - 1] < piv[b]); } }
/// n leading columns below n are all of 0 .. n-1
pub proof fn lemma_piv_full(m: Seq<Vec<i64>>, nc: nat, piv: Seq<int>, k: int)
    requires rref(m, nc, piv, k), piv.len() > 0, piv[piv.len() - 1] < piv.len()
    ensures forall|a: int| 0 <= a < piv.len() ==> #[trigger] piv[a] == a
{ lemma_piv_low(m, nc, piv, k); lemma_piv_high(m, nc, piv, k, 0); }
pub proof fn lemma_piv_high(m: Seq<Vec<i64>>, nc: nat, piv: Seq<int>, k: int, b: int)
    requires rref(m, nc, piv, k), 0 <= b < piv.len(), piv[piv.len() - 1] < piv.len()
    ensures forall|a: int| b <= a < piv.len() ==> #[trigger] piv[a] <= a
    decreases piv.len() - b
{ if b + 1 < piv.len() { lemma_piv_high(m, nc, piv, k, b + 1); assert(piv[b] < piv[b + 1]); } }
