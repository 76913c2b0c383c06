@# Linear systems: the theory behind solve, null_space and inverse, once over the reals and once over the integers.
@template SOLVE0 L S V Z O
impl $L {
    pub open spec fn dotp(u: Seq<$V>, v: Seq<$V>, k: int) -> $V decreases k { if k <= 0 { $Z } else { Self::dotp(u, v, k - 1) + u[k - 1] * v[k - 1] } }
    pub open spec fn colv(b: Seq<Seq<$V>>, j: int) -> Seq<$V> { Seq::new(b.len(), |i: int| b[i][j]) }
    pub open spec fn lt(t: Seq<Seq<$V>>, c: int) -> Seq<Seq<$V>> { Seq::new(t.len(), |i: int| t[i].subrange(0, c)) }
    pub open spec fn rt(t: Seq<Seq<$V>>, c: int) -> Seq<Seq<$V>> { Seq::new(t.len(), |i: int| t[i].subrange(c, t[i].len() as int)) }
    /// a * x == b, row by row
    pub open spec fn sat(a: Seq<Seq<$V>>, x: Seq<Seq<$V>>, b: Seq<Seq<$V>>, c: int, d: int) -> bool {
        a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> Self::lc(#[trigger] a[i], x, d, c) == b[i]
    }
    pub proof fn lemma_dotp_sym(u: Seq<$V>, v: Seq<$V>, k: int)
        ensures Self::dotp(u, v, k) == Self::dotp(v, u, k)
        decreases k
    { if k > 0 { Self::lemma_dotp_sym(u, v, k - 1); let (x, y) = (u[k - 1], v[k - 1]); assert(x * y == y * x) by (nonlinear_arith); } }
    pub proof fn lemma_dotp_zero(u: Seq<$V>, v: Seq<$V>, k: int)
        requires forall|i: int| 0 <= i < k ==> #[trigger] u[i] == $Z || v[i] == $Z
        ensures Self::dotp(u, v, k) == $Z
        decreases k
    { if k > 0 { Self::lemma_dotp_zero(u, v, k - 1); let (x, y) = (u[k - 1], v[k - 1]); assert(x * y == $Z) by (nonlinear_arith) requires x == $Z || y == $Z; } }
    pub proof fn lemma_dotp_ext(u: Seq<$V>, v: Seq<$V>, u2: Seq<$V>, v2: Seq<$V>, k: int)
        requires forall|i: int| 0 <= i < k ==> #[trigger] u[i] == u2[i], forall|i: int| 0 <= i < k ==> #[trigger] v[i] == v2[i]
        ensures Self::dotp(u, v, k) == Self::dotp(u2, v2, k)
        decreases k
    { if k > 0 { Self::lemma_dotp_ext(u, v, u2, v2, k - 1); assert(u[k - 1] == u2[k - 1] && v[k - 1] == v2[k - 1]); } }
    pub proof fn lemma_dotp_tail(u: Seq<$V>, v: Seq<$V>, k: int, m: int)
        requires 0 <= k <= m, forall|i: int| k <= i < m ==> #[trigger] u[i] == $Z || v[i] == $Z
        ensures Self::dotp(u, v, m) == Self::dotp(u, v, k)
        decreases m - k
    { if m > k { Self::lemma_dotp_tail(u, v, k, m - 1); let (x, y) = (u[m - 1], v[m - 1]); assert(x * y == $Z) by (nonlinear_arith) requires x == $Z || y == $Z; } }
    pub proof fn lemma_dotp_comb(u: Seq<$V>, a: $V, v: Seq<$V>, b: $V, w: Seq<$V>, k: int)
        requires 0 <= k <= u.len()
        ensures Self::dotp(Self::comb(u, a, v, b), w, k) == a * Self::dotp(u, w, k) + b * Self::dotp(v, w, k)
        decreases k
    {
        if k > 0 {
            Self::lemma_dotp_comb(u, a, v, b, w, k - 1);
            let (x, y, z, p, q) = (u[k - 1], v[k - 1], w[k - 1], Self::dotp(u, w, k - 1), Self::dotp(v, w, k - 1));
            let (xz, yz) = (x * z, y * z);
            assert((a * x + b * y) * z == (a * x) * z + (b * y) * z) by (nonlinear_arith);
            assert((a * x) * z == a * (x * z)) by (nonlinear_arith);
            assert((b * y) * z == b * (y * z)) by (nonlinear_arith);
            assert(a * (p + xz) == a * p + a * xz) by (nonlinear_arith);
            assert(b * (q + yz) == b * q + b * yz) by (nonlinear_arith);
        } else { assert(a * $Z == $Z && b * $Z == $Z) by (nonlinear_arith); }
    }
    pub proof fn lemma_lc_dot(c: Seq<$V>, b: Seq<Seq<$V>>, n: int, k: int, j: int)
        requires 0 <= k <= b.len(), 0 <= j < n
        ensures Self::lc(c, b, n, k).len() == n, Self::lc(c, b, n, k)[j] == Self::dotp(c, Self::colv(b, j), k)
        decreases k
    {
        Self::lemma_lc_len(c, b, n, k);
        if k > 0 {
            Self::lemma_lc_dot(c, b, n, k - 1, j);
            assert(Self::colv(b, j)[k - 1] == b[k - 1][j]);
            assert($O * Self::lc(c, b, n, k - 1)[j] == Self::lc(c, b, n, k - 1)[j]) by (nonlinear_arith);
            let (x, y) = (c[k - 1], b[k - 1][j]);
        }
    }
    pub proof fn lemma_lc_ext(c: Seq<$V>, b: Seq<Seq<$V>>, c2: Seq<$V>, b2: Seq<Seq<$V>>, n: int, k: int)
        requires n >= 0, forall|i: int| 0 <= i < k ==> #[trigger] c[i] == c2[i], forall|i: int| 0 <= i < k ==> #[trigger] b[i] == b2[i]
        ensures Self::lc(c, b, n, k) == Self::lc(c2, b2, n, k)
        decreases k
    { if k > 0 { Self::lemma_lc_ext(c, b, c2, b2, n, k - 1); assert(c[k - 1] == c2[k - 1] && b[k - 1] == b2[k - 1]); } }
    /// (c a) x == c (a x)
    pub proof fn lemma_lc_assoc(c: Seq<$V>, a: Seq<Seq<$V>>, x: Seq<Seq<$V>>, ax: Seq<Seq<$V>>, m: int, d: int, k: int)
        requires 0 <= k <= a.len(), c.len() == a.len(), Self::width(a, m), x.len() == m, ax.len() == a.len(), d >= 0, Self::width(x, d),
            forall|i: int| 0 <= i < a.len() ==> #[trigger] ax[i] == Self::lc(a[i], x, d, m)
        ensures Self::lc(Self::lc(c, a, m, k), x, d, m) == Self::lc(c, ax, d, k)
        decreases k
    {
        if k > 0 {
            Self::lemma_lc_assoc(c, a, x, ax, m, d, k - 1);
            let u = Self::lc(c, a, m, k - 1);
            Self::lemma_lc_len(c, a, m, k - 1);
            assert(a[k - 1].len() == m);
            Self::lemma_lc_comb(u, $O, a[k - 1], c[k - 1], x, d, m);
            assert(ax[k - 1] == Self::lc(a[k - 1], x, d, m));
        } else {
            Self::lemma_lc_zero(Self::zero(m), x, d, m, m);
        }
    }
    pub proof fn lemma_sol_sub(x: Seq<Seq<$V>>, c: int, d: int)
        requires c >= 0, d >= 0, x.len() == c, Self::width(x, d)
        ensures Self::sub(|v: Seq<$V>| Self::lc(v.subrange(0, c), x, d, c) == v.subrange(c, c + d), c + d)
    {
        let p = |v: Seq<$V>| Self::lc(v.subrange(0, c), x, d, c) == v.subrange(c, c + d);
        let z = Self::zero(c + d);
        Self::lemma_lc_zero(z.subrange(0, c), x, d, c, c);
        assert(z.subrange(c, c + d) =~= Self::zero(d));
        assert forall|u: Seq<$V>, a: $V, v: Seq<$V>, b: $V| u.len() == c + d && v.len() == c + d && p(u) && p(v) implies p(#[trigger] Self::comb(u, a, v, b)) by {
            let w = Self::comb(u, a, v, b);
            Self::lemma_lc_comb(u.subrange(0, c), a, v.subrange(0, c), b, x, d, c);
            assert(w.subrange(0, c) =~= Self::comb(u.subrange(0, c), a, v.subrange(0, c), b));
            assert(w.subrange(c, c + d) =~= Self::comb(u.subrange(c, c + d), a, v.subrange(c, c + d), b));
        }
    }
    /// augmented matrices with the same row space (lattice) have the same solutions
    pub proof fn lemma_sat_span(s: Seq<Seq<$V>>, t: Seq<Seq<$V>>, x: Seq<Seq<$V>>, c: int, d: int)
        requires c >= 0, d >= 0, x.len() == c, Self::width(x, d), Self::width(s, c + d), Self::width(t, c + d), Self::span_eq(s, t, c + d)
        ensures Self::sat(Self::lt(s, c), x, Self::rt(s, c), c, d) <==> Self::sat(Self::lt(t, c), x, Self::rt(t, c), c, d)
    {
        let p = |v: Seq<$V>| Self::lc(v.subrange(0, c), x, d, c) == v.subrange(c, c + d);
        Self::lemma_sol_sub(x, c, d);
        Self::lemma_sat_all(s, x, c, d);
        Self::lemma_sat_all(t, x, c, d);
    }
    pub proof fn lemma_sat_all(s: Seq<Seq<$V>>, x: Seq<Seq<$V>>, c: int, d: int)
        requires c >= 0, d >= 0, Self::width(s, c + d)
        ensures Self::sat(Self::lt(s, c), x, Self::rt(s, c), c, d) <==> Self::all(|v: Seq<$V>| Self::lc(v.subrange(0, c), x, d, c) == v.subrange(c, c + d), s)
    {
        let p = |v: Seq<$V>| Self::lc(v.subrange(0, c), x, d, c) == v.subrange(c, c + d);
        let (a, b) = (Self::lt(s, c), Self::rt(s, c));
        if Self::sat(a, x, b, c, d) { assert forall|i: int| 0 <= i < s.len() implies p(#[trigger] s[i]) by { assert(s[i].len() == c + d); assert(Self::lc(a[i], x, d, c) == b[i]); } }
        if Self::all(p, s) { assert forall|i: int| 0 <= i < a.len() implies Self::lc(#[trigger] a[i], x, d, c) == b[i] by { assert(s[i].len() == c + d); assert(p(s[i])); } }
    }
    /// the first q rows lead before column c, the others do not
    pub open spec fn split(t: Seq<Seq<$V>>, c: int, q: int) -> bool {
        &&& 0 <= q <= t.len()
        &&& forall|i: int| 0 <= i < q ==> Self::piv(#[trigger] t[i]) < c
        &&& forall|i: int| q <= i < t.len() ==> Self::piv(#[trigger] t[i]) >= c
    }
    pub proof fn lemma_split(t: Seq<Seq<$V>>, n: int, c: int, k: int) -> (q: int)
        requires Self::echelon(t, n), 0 <= k <= t.len()
        ensures Self::split(t.take(k), c, q), k == t.len() ==> Self::split(t, c, q)
        decreases k
    {
        let s = t.take(k);
        assert(k == t.len() ==> s =~= t);
        if k == 0 { 0 } else {
            let q = Self::lemma_split(t, n, c, k - 1);
            let r = t.take(k - 1);
            assert forall|i: int| 0 <= i < k - 1 implies s[i] == r[i] by { }
            if q == k - 1 && Self::piv(t[k - 1]) < c {
                assert forall|i: int| 0 <= i < k implies Self::piv(#[trigger] s[i]) < c by { if i < k - 1 { assert(Self::piv(r[i]) < c); } }
                k
            } else {
                assert forall|i: int| 0 <= i < q implies Self::piv(#[trigger] s[i]) < c by { assert(Self::piv(r[i]) < c); }
                assert forall|i: int| q <= i < k implies Self::piv(#[trigger] s[i]) >= c by {
                    if i < k - 1 { assert(Self::piv(r[i]) >= c); } else if q < k - 1 { assert(Self::piv(r[q]) >= c); assert(Self::piv(t[q]) < Self::piv(t[k - 1])); }
                }
                q
            }
        }
    }
    pub proof fn lemma_piv_take(v: Seq<$V>, c: int)
        requires 0 <= c <= v.len()
        ensures Self::piv(v) < c ==> Self::piv(v.subrange(0, c)) == Self::piv(v), Self::piv(v) >= c ==> v.subrange(0, c) == Self::zero(c),
            Self::piv(v) >= c ==> Self::piv(v.subrange(c, v.len() as int)) == Self::piv(v) - c
    {
        Self::lemma_piv(v);
        let w = v.subrange(0, c);
        if Self::piv(v) < c { assert forall|i: int| 0 <= i < Self::piv(v) implies #[trigger] w[i] == $Z by { assert(v[i] == $Z); } Self::lemma_piv_is(w, Self::piv(v)); }
        else {
            assert forall|i: int| 0 <= i < c implies #[trigger] w[i] == $Z by { assert(v[i] == $Z); }
            assert(w =~= Self::zero(c));
            let r = v.subrange(c, v.len() as int);
            assert forall|i: int| 0 <= i < Self::piv(v) - c implies #[trigger] r[i] == $Z by { assert(v[c + i] == $Z); }
            Self::lemma_piv_is(r, Self::piv(v) - c);
        }
    }
    /// the rank of the left part of an echelon matrix is the number of rows that lead there
    pub proof fn lemma_rank_lt(t: Seq<Seq<$V>>, n: int, c: int, q: int)
        requires Self::echelon(t, n), 0 <= c <= n, Self::split(t, c, q)
        ensures Self::rank_is(Self::lt(t, c), c, q), Self::echelon(Self::lt(t, c).take(q), c)
    {
        let l = Self::lt(t, c);
        let e = l.take(q);
        assert forall|i: int| 0 <= i < q implies Self::piv(#[trigger] e[i]) == Self::piv(t[i]) && Self::piv(t[i]) < c && e[i].len() == c by {
            assert(t[i].len() == n); Self::lemma_piv_take(t[i], c); assert(e[i] == l[i]);
        }
        assert forall|i: int, j: int| 0 <= i < j < e.len() implies Self::piv(#[trigger] e[i]) < Self::piv(#[trigger] e[j]) by { assert(Self::piv(t[i]) < Self::piv(t[j])); }
        assert forall|p: spec_fn(Seq<$V>) -> bool| #[trigger] Self::sub(p, c) implies (Self::all(p, e) <==> Self::all(p, l)) by {
            if Self::all(p, e) {
                assert forall|i: int| 0 <= i < l.len() implies p(#[trigger] l[i]) by {
                    if i < q { assert(p(e[i])); } else { assert(t[i].len() == n); Self::lemma_piv_take(t[i], c); }
                }
            }
            if Self::all(p, l) { assert forall|i: int| 0 <= i < e.len() implies p(#[trigger] e[i]) by { assert(p(l[i])); } }
        }
        assert(Self::basis_of(e, l, c));
    }
    /// echelon rows are independent
    pub proof fn lemma_indep(b: Seq<Seq<$V>>, n: int, c: Seq<$V>)
        requires Self::echelon(b, n), c.len() == b.len(), n >= 0, Self::lc(c, b, n, b.len() as int) == Self::zero(n)
        ensures c == Self::zero(b.len() as int)
    {
        let i = Self::piv(c);
        Self::lemma_piv(c);
        if i < c.len() {
            Self::lemma_lc_lead(c, b, n, i, b.len() as int);
            assert(b[i].len() == n);
            Self::lemma_piv(b[i]);
            assert(c[i] * b[i][Self::piv(b[i])] != $Z) by (nonlinear_arith) requires c[i] != $Z, b[i][Self::piv(b[i])] != $Z;
            assert(false);
        }
        assert(c =~= Self::zero(b.len() as int));
    }
    /// more than n vectors of length n are dependent
    pub proof fn lemma_dependent(a: Seq<Seq<$V>>, n: int) -> (w: Seq<$V>)
        requires n >= 0, Self::width(a, n), a.len() > n
        ensures w.len() == a.len(), w != Self::zero(a.len() as int), Self::lc(w, a, n, a.len() as int) == Self::zero(n)
        decreases n
    {
        let m = a.len() as int;
        if n == 0 {
            let w = Self::unitc(m, 0);
            assert(w[0] == $O && Self::zero(m)[0] == $Z);
            Self::lemma_lc_len(w, a, n, m);
            assert(Self::lc(w, a, n, m) =~= Self::zero(n));
            w
        } else if forall|i: int| 0 <= i < m ==> (#[trigger] a[i])[n - 1] == $Z {
            let b = Seq::new(a.len(), |i: int| a[i].subrange(0, n - 1));
            assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).len() == n - 1 by { assert(a[i].len() == n); }
            let w = Self::lemma_dependent(b, n - 1);
            Self::lemma_lc_len(w, a, n, m);
            assert forall|j: int| 0 <= j < n implies Self::lc(w, a, n, m)[j] == $Z by {
                Self::lemma_lc_dot(w, a, n, m, j);
                if j < n - 1 {
                    Self::lemma_lc_dot(w, b, n - 1, m, j);
                    assert forall|i: int| 0 <= i < m implies #[trigger] Self::colv(a, j)[i] == Self::colv(b, j)[i] by { assert(a[i].len() == n); }
                    Self::lemma_dotp_ext(w, Self::colv(a, j), w, Self::colv(b, j), m);
                } else {
                    assert forall|i: int| 0 <= i < m implies #[trigger] w[i] == $Z || Self::colv(a, j)[i] == $Z by { assert(a[i][n - 1] == $Z); }
                    Self::lemma_dotp_zero(w, Self::colv(a, j), m);
                }
            }
            assert(Self::lc(w, a, n, m) =~= Self::zero(n));
            w
        } else {
            let r = choose|r: int| 0 <= r < m && (#[trigger] a[r])[n - 1] != $Z;
            let x = a[r][n - 1];
            // the other rows with a multiple of row r taken off
            let b = Seq::new((m - 1) as nat, |i: int| Seq::new((n - 1) as nat, |j: int| x * a[if i < r { i } else { i + 1 }][j] - a[if i < r { i } else { i + 1 }][n - 1] * a[r][j]));
            let u = Self::lemma_dependent(b, n - 1);
            let lasts = Self::colv(a, n - 1);
            let y = Seq::new(m as nat, |i: int| if i == r { $Z } else { u[if i < r { i } else { i - 1 }] });
            let s = Self::dotp(y, lasts, m);
            let w = Seq::new(m as nat, |i: int| if i == r { $Z - s } else { x * y[i] });
            let k = choose|k: int| 0 <= k < m - 1 && u[k] != $Z;
            assert(exists|k: int| 0 <= k < m - 1 && u[k] != $Z) by { if forall|k: int| 0 <= k < m - 1 ==> u[k] == $Z { assert(u =~= Self::zero(m - 1)); } }
            let k2 = if k < r { k } else { k + 1 };
            assert(w[k2] != $Z) by { assert(y[k2] == u[k]); assert(x * u[k] != $Z) by (nonlinear_arith) requires x != $Z, u[k] != $Z; }
            assert(Self::zero(m)[k2] == $Z);
            Self::lemma_lc_len(w, a, n, m);
            // w = x * y - s * unit(r)
            let e = Self::unitc(m, r);
            assert forall|i: int| 0 <= i < m implies w[i] == #[trigger] Self::comb(y, x, e, $Z - s)[i] by {
                assert(x * $Z == $Z && ($Z - s) * $O == $Z - s && ($Z - s) * $Z == $Z) by (nonlinear_arith);
            }
            assert(w =~= Self::comb(y, x, e, $Z - s));
            assert forall|j: int| 0 <= j < n implies Self::lc(w, a, n, m)[j] == $Z by {
                let col = Self::colv(a, j);
                Self::lemma_lc_dot(w, a, n, m, j);
                Self::lemma_dotp_comb(y, x, e, $Z - s, col, m);
                Self::lemma_lc_unit(a, n, r, m);
                Self::lemma_lc_dot(e, a, n, m, j);
                // dotp(e, col) = a[r][j]
                let (f, g) = (Self::dotp(y, col, m), a[r][j]);
                if j == n - 1 {
                    assert(x * s + ($Z - s) * x == $Z) by (nonlinear_arith);
                } else {
                    Self::lemma_lc_dot(u, b, n - 1, m - 1, j);
                    let bc = Self::colv(b, j);
                    // x * y.col - y.lasts * g = u . bc, splitting off place r
                    Self::lemma_dependent_step(y, col, lasts, u, bc, x, g, r, m, m);
                    assert(x * f + ($Z - s) * g == x * f - s * g) by (nonlinear_arith);
                }
            }
            assert(Self::lc(w, a, n, m) =~= Self::zero(n));
            w
        }
    }
    pub open spec fn dep(col: Seq<$V>, lasts: Seq<$V>, bc: Seq<$V>, x: $V, g: $V, r: int, i: int) -> bool { bc[if i < r { i } else { i - 1 }] == x * col[i] - lasts[i] * g }
    pub proof fn lemma_dependent_step(y: Seq<$V>, col: Seq<$V>, lasts: Seq<$V>, u: Seq<$V>, bc: Seq<$V>, x: $V, g: $V, r: int, m: int, k: int)
        requires 0 <= r < m, 0 <= k <= m, y.len() == m, u.len() == m - 1, y[r] == $Z,
            forall|i: int| 0 <= i < m && i != r ==> #[trigger] y[i] == u[if i < r { i } else { i - 1 }],
            forall|i: int| 0 <= i < m && i != r ==> #[trigger] Self::dep(col, lasts, bc, x, g, r, i),
        ensures x * Self::dotp(y, col, k) - Self::dotp(y, lasts, k) * g == Self::dotp(u, bc, if k <= r { k } else { k - 1 })
        decreases k
    {
        if k > 0 {
            Self::lemma_dependent_step(y, col, lasts, u, bc, x, g, r, m, k - 1);
            let i = k - 1;
            let (f, s) = (Self::dotp(y, col, i), Self::dotp(y, lasts, i));
            let (a, b, c) = (y[i], col[i], lasts[i]);
            if i == r {
                assert(a * b == $Z && a * c == $Z) by (nonlinear_arith) requires a == $Z;
            } else {
                let i2 = if i < r { i } else { i - 1 };
                assert(Self::dep(col, lasts, bc, x, g, r, i)); assert(y[i] == u[i2]);
                let (ab, ac) = (a * b, a * c);
                assert(x * (f + ab) == x * f + x * ab) by (nonlinear_arith);
                assert((s + ac) * g == s * g + ac * g) by (nonlinear_arith);
                let (xb, cg) = (x * b, c * g);
                assert(a * (xb - cg) == a * xb - a * cg) by (nonlinear_arith);
                assert(a * (x * b) == x * (a * b)) by (nonlinear_arith);
                assert(a * (c * g) == (a * c) * g) by (nonlinear_arith);
            }
        } else { assert(x * $Z - $Z * g == $Z) by (nonlinear_arith); }
    }
    /// row j of [a^T | 1]
    pub open spec fn augt(a: Seq<Seq<$V>>, c: int) -> Seq<Seq<$V>> { Seq::new(c as nat, |j: int| Self::colv(a, j) + Self::unitc(c, j)) }
    pub open spec fn colsv(a: Seq<Seq<$V>>, c: int) -> Seq<Seq<$V>> { Seq::new(c as nat, |j: int| Self::colv(a, j)) }
    /// a combination of rows of [a^T | 1] consists of a applied to the coefficients and the coefficients
    pub proof fn lemma_augt_lc(a: Seq<Seq<$V>>, c: int, x: Seq<$V>)
        requires c >= 0, x.len() == c, Self::width(a, c)
        ensures Self::lc(x, Self::augt(a, c), a.len() + c, c) == Seq::new(a.len(), |i: int| Self::dotp(a[i], x, c)) + x
    {
        let (n, m) = (Self::augt(a, c), a.len() as int);
        let (l, r) = (Self::lc(x, n, m + c, c), Seq::new(a.len(), |i: int| Self::dotp(a[i], x, c)) + x);
        Self::lemma_lc_len(x, n, m + c, c);
        assert forall|i: int| 0 <= i < m + c implies #[trigger] l[i] == r[i] by {
            Self::lemma_lc_dot(x, n, m + c, c, i);
            let col = Self::colv(n, i);
            if i < m {
                assert(a[i].len() == c);
                assert forall|j: int| 0 <= j < c implies #[trigger] col[j] == a[i][j] by { assert(n[j] == Self::colv(a, j) + Self::unitc(c, j)); }
                Self::lemma_dotp_ext(x, col, x, a[i], c);
                Self::lemma_dotp_sym(x, a[i], c);
            } else {
                let e = Self::unitc(c, i - m);
                assert forall|j: int| 0 <= j < c implies #[trigger] col[j] == e[j] by { assert(n[j] == Self::colv(a, j) + Self::unitc(c, j)); }
                Self::lemma_dotp_ext(x, col, x, e, c);
                Self::lemma_dotp_unit(x, c, i - m, c);
            }
        }
        assert(l =~= r);
    }
    pub proof fn lemma_dotp_unit(x: Seq<$V>, c: int, i: int, k: int)
        requires 0 <= i < c, 0 <= k <= c, x.len() == c
        ensures Self::dotp(x, Self::unitc(c, i), k) == if i < k { x[i] } else { $Z }
        decreases k
    {
        if k > 0 { Self::lemma_dotp_unit(x, c, i, k - 1); let y = x[k - 1]; assert(y * $O == y && y * $Z == $Z) by (nonlinear_arith); }
    }
    pub proof fn lemma_augt_width(a: Seq<Seq<$V>>, c: int)
        requires c >= 0
        ensures Self::width(Self::augt(a, c), a.len() + c), Self::augt(a, c).len() == c
    { let n = Self::augt(a, c); assert forall|j: int| 0 <= j < n.len() implies (#[trigger] n[j]).len() == a.len() + c by { } }
    /// the rows of an echelon form of [a^T | 1]: their right parts, and what a maps them to
    pub proof fn lemma_augt_row(a: Seq<Seq<$V>>, c: int, t: Seq<Seq<$V>>, l: int)
        requires c >= 0, Self::width(a, c), Self::width(t, a.len() + c), Self::span_eq(t, Self::augt(a, c), a.len() + c), 0 <= l < t.len()
        ensures forall|i: int| 0 <= i < a.len() ==> #[trigger] t[l][i] == Self::dotp(a[i], Self::rt(t, a.len() as int)[l], c)
    {
        let n = a.len() + c;
        Self::lemma_augt_width(a, c);
        Self::lemma_row_spans(t, Self::augt(a, c), n, l);
        let x = choose|x: Seq<$V>| x.len() == c && t[l] == #[trigger] Self::lc(x, Self::augt(a, c), n, c);
        Self::lemma_augt_lc(a, c, x);
        assert(Self::rt(t, a.len() as int)[l] =~= x);
    }
    /// a vector with its image under a is a combination of the rows of any such form
    pub proof fn lemma_augt_spans(a: Seq<Seq<$V>>, c: int, t: Seq<Seq<$V>>, x: Seq<$V>) -> (y: Seq<$V>)
        requires c >= 0, Self::width(a, c), Self::width(t, a.len() + c), Self::span_eq(t, Self::augt(a, c), a.len() + c), x.len() == c
        ensures y.len() == t.len(), Self::lc(y, t, a.len() + c, t.len() as int) == Seq::new(a.len(), |i: int| Self::dotp(a[i], x, c)) + x
    {
        let n = a.len() + c;
        Self::lemma_augt_width(a, c);
        Self::lemma_augt_lc(a, c, x);
        let z = Self::lc(x, Self::augt(a, c), n, c);
        assert(Self::spans(Self::augt(a, c), n, z));
        Self::lemma_span_eq_spans(t, Self::augt(a, c), n, z);
        choose|y: Seq<$V>| y.len() == t.len() && z == #[trigger] Self::lc(y, t, n, t.len() as int)
    }
    pub proof fn lemma_orth_sub(w: Seq<$V>, k: int, n: int)
        requires 0 <= k <= n
        ensures Self::sub(|v: Seq<$V>| Self::dotp(v, w, k) == $Z, n)
    {
        let p = |v: Seq<$V>| Self::dotp(v, w, k) == $Z;
        Self::lemma_dotp_zero(Self::zero(n), w, k);
        assert forall|u: Seq<$V>, a: $V, v: Seq<$V>, b: $V| u.len() == n && v.len() == n && p(u) && p(v) implies p(#[trigger] Self::comb(u, a, v, b)) by {
            Self::lemma_dotp_comb(u, a, v, b, w, k);
            assert(a * $Z + b * $Z == $Z) by (nonlinear_arith);
        }
    }
    /// for a in echelon form with k rows, the first k rows of an echelon form of [a^T | 1] lead at 0, .., k - 1
    pub proof fn lemma_augt_pivots(a: Seq<Seq<$V>>, c: int, t: Seq<Seq<$V>>)
        requires c >= 0, Self::echelon(a, c), Self::echelon(t, a.len() + c), Self::span_eq(t, Self::augt(a, c), a.len() + c)
        ensures t.len() >= a.len(), forall|i: int| 0 <= i < a.len() ==> Self::piv(#[trigger] t[i]) == i, forall|i: int| a.len() <= i < t.len() ==> Self::piv(#[trigger] t[i]) >= a.len()
    {
        let (k, n) = (a.len() as int, a.len() + c);
        let q = Self::lemma_split(t, n, k, t.len() as int);
        if q > 0 { Self::lemma_ech_len(t, n, q - 1); }
        if q < k {
            let cols = Seq::new(k as nat, |j: int| Seq::new(q as nat, |l: int| t[l][j]));
            let w = Self::lemma_dependent(cols, q);
            Self::lemma_orth_sub(w, k, n);
            let p = |v: Seq<$V>| Self::dotp(v, w, k) == $Z;
            assert forall|l: int| 0 <= l < t.len() implies p(#[trigger] t[l]) by {
                assert(t[l].len() == n);
                if l < q {
                    Self::lemma_lc_dot(w, cols, q, k, l);
                    assert forall|j: int| 0 <= j < k implies #[trigger] Self::colv(cols, l)[j] == t[l][j] by { }
                    Self::lemma_dotp_ext(w, Self::colv(cols, l), w, t[l], k);
                    Self::lemma_dotp_sym(w, t[l], k);
                } else {
                    Self::lemma_piv(t[l]);
                    Self::lemma_dotp_zero(t[l], w, k);
                }
            }
            let m = Self::augt(a, c);
            assert(Self::all(p, m));
            Self::lemma_lc_len(w, a, c, k);
            assert forall|j: int| 0 <= j < c implies Self::lc(w, a, c, k)[j] == $Z by {
                assert(p(m[j]));
                assert(m[j] == Self::colv(a, j) + Self::unitc(c, j));
                assert forall|i: int| 0 <= i < k implies #[trigger] m[j][i] == Self::colv(a, j)[i] by { }
                Self::lemma_dotp_ext(m[j], w, Self::colv(a, j), w, k);
                Self::lemma_dotp_sym(Self::colv(a, j), w, k);
                Self::lemma_lc_dot(w, a, c, k, j);
            }
            assert(Self::lc(w, a, c, k) =~= Self::zero(c));
            Self::lemma_indep(a, c, w);
            assert(false);
        }
        assert(q == k);
        assert forall|i: int| 0 <= i < k implies Self::piv(#[trigger] t[i]) == i by { Self::lemma_ech_len(t, n, i); Self::lemma_piv_upper(t, n, k, i); }
    }
    pub proof fn lemma_piv_upper(t: Seq<Seq<$V>>, n: int, k: int, i: int)
        requires Self::echelon(t, n), 0 <= i < k <= t.len(), Self::piv(t[k - 1]) < k
        ensures Self::piv(t[i]) <= i
        decreases k - i
    { if i < k - 1 { Self::lemma_piv_upper(t, n, k, i + 1); assert(Self::piv(t[i]) < Self::piv(t[i + 1])); } }
    /// a right inverse of a square matrix is a left inverse
    pub proof fn lemma_two_sided(a: Seq<Seq<$V>>, x: Seq<Seq<$V>>, n: int)
        requires n >= 0, a.len() == n, x.len() == n, Self::width(a, n), Self::width(x, n), forall|i: int| 0 <= i < n ==> Self::lc(#[trigger] a[i], x, n, n) == Self::unitc(n, i)
        ensures forall|i: int| 0 <= i < n ==> Self::lc(#[trigger] x[i], a, n, n) == Self::unitc(n, i)
    {
        let xa = Seq::new(n as nat, |i: int| Self::lc(x[i], a, n, n));
        let ax = Seq::new(n as nat, |i: int| Self::unitc(n, i));
        assert forall|i: int| 0 <= i < n implies Self::lc(#[trigger] x[i], a, n, n) == Self::unitc(n, i) by {
            // w = x_i a - e_i is annihilated by x
            let (m1, e) = ($Z - $O, Self::unitc(n, i));
            Self::lemma_lc_len(x[i], a, n, n);
            let u = Self::lc(x[i], a, n, n);
            let w = Self::comb(u, $O, e, m1);
            Self::lemma_lc_assoc(x[i], a, x, ax, n, n, n);
            assert(x[i].len() == n);
            Self::lemma_lc_id(x[i], ax, n, n);
            Self::lemma_lc_unit(x, n, i, n);
            Self::lemma_lc_comb(u, $O, e, m1, x, n, n);
            assert forall|j: int| 0 <= j < n implies #[trigger] Self::lc(w, x, n, n)[j] == $Z by { let y = x[i][j]; assert($O * y + m1 * y == $Z) by (nonlinear_arith) requires m1 == $Z - $O; }
            Self::lemma_lc_len(w, x, n, n);
            assert(Self::lc(w, x, n, n) =~= Self::zero(n));
            Self::lemma_annihilated(a, x, n, w);
            assert forall|j: int| 0 <= j < n implies u[j] == e[j] by { assert(w[j] == $Z); }
            assert(u =~= e);
        }
    }
    pub proof fn lemma_lc_id(c: Seq<$V>, e: Seq<Seq<$V>>, n: int, k: int)
        requires 0 <= k <= n, c.len() == n, e.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] e[i] == Self::unitc(n, i)
        ensures Self::lc(c, e, n, k).len() == n, forall|j: int| 0 <= j < n ==> #[trigger] Self::lc(c, e, n, k)[j] == if j < k { c[j] } else { $Z },
            k == n ==> Self::lc(c, e, n, k) == c
        decreases k
    {
        Self::lemma_lc_len(c, e, n, k);
        if k > 0 {
            Self::lemma_lc_id(c, e, n, k - 1);
            assert(e[k - 1] == Self::unitc(n, k - 1));
            let y = c[k - 1];
            assert(y * $O == y && y * $Z == $Z) by (nonlinear_arith);
            assert forall|j: int| 0 <= j < n implies #[trigger] Self::lc(c, e, n, k)[j] == if j < k { c[j] } else { $Z } by { let z = Self::lc(c, e, n, k - 1)[j]; assert($O * z == z) by (nonlinear_arith); }
        }
        if k == n { assert(Self::lc(c, e, n, k) =~= c); }
    }
    pub proof fn lemma_annihilated(a: Seq<Seq<$V>>, x: Seq<Seq<$V>>, n: int, w: Seq<$V>)
        requires n >= 0, a.len() == n, x.len() == n, w.len() == n, Self::width(a, n), Self::width(x, n), forall|i: int| 0 <= i < n ==> Self::lc(#[trigger] a[i], x, n, n) == Self::unitc(n, i),
            Self::lc(w, x, n, n) == Self::zero(n)
        ensures w == Self::zero(n)
    {
        let b = a.push(w);
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).len() == n by { if i < n { assert(a[i].len() == n); } }
        let f = Self::lemma_dependent(b, n);
        let bx = Seq::new((n + 1) as nat, |i: int| if i < n { Self::unitc(n, i) } else { Self::zero(n) });
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] bx[i] == Self::lc(b[i], x, n, n) by { if i < n { assert(b[i] == a[i]); assert(Self::lc(a[i], x, n, n) == Self::unitc(n, i)); } }
        Self::lemma_lc_assoc(f, b, x, bx, n, n, n + 1);
        Self::lemma_lc_zero(Self::zero(n), x, n, n, n);
        // f bx = 0: f_i = 0 for i < n
        let g = f.subrange(0, n);
        let e = bx.subrange(0, n);
        Self::lemma_lc_id(g, e, n, n);
        Self::lemma_lc_ext(f, bx, g, e, n, n);
        let fb = Self::lc(f, bx, n, n + 1);
        assert forall|j: int| 0 <= j < n implies #[trigger] g[j] == $Z by {
            let (y, z) = (f[n], g[j]);
            assert(fb[j] == $O * z + y * bx[n][j]);
            assert($O * z == z && y * $Z == $Z) by (nonlinear_arith);
            assert(fb[j] == $Z);
        }
        assert forall|j: int| 0 <= j < n implies #[trigger] f[j] == $Z by { assert(g[j] == $Z); }
        Self::lemma_lc_zero(f, b, n, n, n + 1);
        let y = f[n];
        if y == $Z { assert(f =~= Self::zero(n + 1)); }
        let lb = Self::lc(f, b, n, n + 1);
        assert forall|j: int| 0 <= j < n implies w[j] == $Z by {
            assert(lb[j] == $O * $Z + y * w[j]);
            assert(lb[j] == $Z);
            let v = w[j];
            assert($O * $Z == $Z) by (nonlinear_arith);
            assert(v == $Z) by (nonlinear_arith) requires y * v == $Z, y != $Z;
        }
        assert(w =~= Self::zero(n));
    }
}
@endtemplate
@expand SOLVE0 L=LinR S=Rat V=real Z=0real O=1real
@expand SOLVE0 L=LinZ S=Int V=int Z=0int O=1int
