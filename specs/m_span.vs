@# Row spaces and lattices: the theory behind extend_basis and reduced_basis, once over the reals and once over the integers.
@template SPAN L S V Z O
pub struct $L { }
impl $L {
    pub open spec fn vv(v: Seq<$S>) -> Seq<$V> { Seq::new(v.len(), |k: int| v[k].v()) }
    pub open spec fn rows(b: Seq<Vec<$S>>) -> Seq<Seq<$V>> { Seq::new(b.len(), |i: int| Self::vv(b[i]@)) }
    pub open spec fn mrow(m: Matrix<$S>, i: int) -> Seq<$V> { Seq::new(m.ncols as nat, |j: int| m.el(i, j).v()) }
    pub open spec fn mrows(m: Matrix<$S>) -> Seq<Seq<$V>> { Seq::new(m.nrows as nat, |i: int| Self::mrow(m, i)) }
    pub open spec fn zero(n: int) -> Seq<$V> { Seq::new(n as nat, |k: int| $Z) }
    pub open spec fn comb(u: Seq<$V>, a: $V, v: Seq<$V>, b: $V) -> Seq<$V> { Seq::new(u.len(), |k: int| a * u[k] + b * v[k]) }
    /// the position of the first entry that is not zero, or the length
    pub open spec fn piv_from(v: Seq<$V>, k: int) -> int decreases v.len() - k {
        if k >= v.len() { v.len() as int } else if v[k] != $Z { k } else { Self::piv_from(v, k + 1) }
    }
    pub open spec fn piv(v: Seq<$V>) -> int { Self::piv_from(v, 0) }
    pub proof fn lemma_piv_from(v: Seq<$V>, k: int)
        requires 0 <= k <= v.len()
        ensures k <= Self::piv_from(v, k) <= v.len(), Self::piv_from(v, k) < v.len() ==> v[Self::piv_from(v, k)] != $Z,
            forall|i: int| k <= i < Self::piv_from(v, k) ==> #[trigger] v[i] == $Z
        decreases v.len() - k
    { if k < v.len() && v[k] == $Z { Self::lemma_piv_from(v, k + 1); } }
    pub proof fn lemma_piv(v: Seq<$V>)
        ensures 0 <= Self::piv(v) <= v.len(), Self::piv(v) < v.len() ==> v[Self::piv(v)] != $Z,
            forall|i: int| 0 <= i < Self::piv(v) ==> #[trigger] v[i] == $Z
    { Self::lemma_piv_from(v, 0); }
    pub proof fn lemma_piv_is(v: Seq<$V>, c: int)
        requires 0 <= c <= v.len(), c < v.len() ==> v[c] != $Z, forall|i: int| 0 <= i < c ==> #[trigger] v[i] == $Z
        ensures Self::piv(v) == c
    { Self::lemma_piv(v); }
    pub proof fn lemma_piv_ge(v: Seq<$V>, c: int)
        requires 0 <= c <= v.len(), forall|i: int| 0 <= i < c ==> #[trigger] v[i] == $Z
        ensures Self::piv(v) >= c
    { Self::lemma_piv(v); }
    /// subspaces of the real vectors of length n, or lattices of integer vectors
    pub open spec fn sub(p: spec_fn(Seq<$V>) -> bool, n: int) -> bool {
        &&& p(Self::zero(n))
        &&& forall|u: Seq<$V>, a: $V, v: Seq<$V>, b: $V| u.len() == n && v.len() == n && p(u) && p(v) ==> p(#[trigger] Self::comb(u, a, v, b))
    }
    pub open spec fn all(p: spec_fn(Seq<$V>) -> bool, b: Seq<Seq<$V>>) -> bool { forall|i: int| 0 <= i < b.len() ==> p(#[trigger] b[i]) }
    pub open spec fn width(b: Seq<Seq<$V>>, n: int) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).len() == n }
    /// a and b lie in the same subspaces (lattices): they span the same
    pub open spec fn span_eq(a: Seq<Seq<$V>>, b: Seq<Seq<$V>>, n: int) -> bool {
        forall|p: spec_fn(Seq<$V>) -> bool| #[trigger] Self::sub(p, n) ==> (Self::all(p, a) <==> Self::all(p, b))
    }
    pub open spec fn echelon(b: Seq<Seq<$V>>, n: int) -> bool {
        &&& Self::width(b, n)
        &&& forall|i: int| 0 <= i < b.len() ==> Self::piv(#[trigger] b[i]) < n
        &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> Self::piv(#[trigger] b[i]) < Self::piv(#[trigger] b[j])
    }
    /// reduced echelon form; Hermite normal form over the integers
    pub open spec fn reduced(b: Seq<Seq<$V>>, n: int) -> bool {
        &&& Self::echelon(b, n)
        &&& forall|i: int| 0 <= i < b.len() ==> Self::unit(#[trigger] b[i])
        &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> Self::below(#[trigger] b[i], #[trigger] b[j])
    }
?L=LinR    pub open spec fn unit(v: Seq<real>) -> bool { v[Self::piv(v)] == 1real }
?L=LinR    pub open spec fn below(u: Seq<real>, v: Seq<real>) -> bool { u[Self::piv(v)] == 0real }
?L=LinZ    pub open spec fn unit(v: Seq<int>) -> bool { v[Self::piv(v)] > 0 }
?L=LinZ    pub open spec fn below(u: Seq<int>, v: Seq<int>) -> bool { 0 <= u[Self::piv(v)] < v[Self::piv(v)] }
    /// sum of c_i * b_i
    pub open spec fn lc(c: Seq<$V>, b: Seq<Seq<$V>>, n: int, k: int) -> Seq<$V> decreases k {
        if k <= 0 { Self::zero(n) } else { Self::comb(Self::lc(c, b, n, k - 1), $O, b[k - 1], c[k - 1]) }
    }
    pub open spec fn spans(b: Seq<Seq<$V>>, n: int, v: Seq<$V>) -> bool { exists|c: Seq<$V>| c.len() == b.len() && v == #[trigger] Self::lc(c, b, n, b.len() as int) }
    pub proof fn lemma_lc_len(c: Seq<$V>, b: Seq<Seq<$V>>, n: int, k: int)
        requires n >= 0
        ensures Self::lc(c, b, n, k).len() == n
        decreases k
    { if k > 0 { Self::lemma_lc_len(c, b, n, k - 1); } }
    pub proof fn lemma_lc_in(p: spec_fn(Seq<$V>) -> bool, c: Seq<$V>, b: Seq<Seq<$V>>, n: int, k: int)
        requires Self::sub(p, n), Self::all(p, b), Self::width(b, n), 0 <= k <= b.len(), n >= 0
        ensures p(Self::lc(c, b, n, k))
        decreases k
    { if k > 0 { Self::lemma_lc_in(p, c, b, n, k - 1); Self::lemma_lc_len(c, b, n, k - 1); assert(p(b[k - 1])); } }
    pub proof fn lemma_lc_comb(c: Seq<$V>, x: $V, d: Seq<$V>, y: $V, b: Seq<Seq<$V>>, n: int, k: int)
        requires 0 <= k <= b.len(), c.len() == b.len(), d.len() == b.len(), n >= 0
        ensures Self::lc(Self::comb(c, x, d, y), b, n, k) == Self::comb(Self::lc(c, b, n, k), x, Self::lc(d, b, n, k), y)
        decreases k
    {
        let e = Self::comb(c, x, d, y);
        Self::lemma_lc_len(c, b, n, k); Self::lemma_lc_len(d, b, n, k); Self::lemma_lc_len(e, b, n, k);
        if k > 0 {
            Self::lemma_lc_comb(c, x, d, y, b, n, k - 1);
            Self::lemma_lc_len(c, b, n, k - 1); Self::lemma_lc_len(d, b, n, k - 1);
            let (f, g) = (Self::lc(c, b, n, k - 1), Self::lc(d, b, n, k - 1));
            assert forall|j: int| 0 <= j < n implies Self::lc(e, b, n, k)[j] == Self::comb(Self::lc(c, b, n, k), x, Self::lc(d, b, n, k), y)[j] by {
                let (p, q, r, ck, dk) = (f[j], g[j], b[k - 1][j], c[k - 1], d[k - 1]);
                let (cr, dr) = (ck * r, dk * r);
                assert((x * ck + y * dk) * r == (x * ck) * r + (y * dk) * r) by (nonlinear_arith);
                assert((x * ck) * r == x * (ck * r)) by (nonlinear_arith);
                assert((y * dk) * r == y * (dk * r)) by (nonlinear_arith);
                assert(x * (p + cr) == x * p + x * cr) by (nonlinear_arith);
                assert(y * (q + dr) == y * q + y * dr) by (nonlinear_arith);
            }
        } else {
            assert forall|j: int| 0 <= j < n implies Self::lc(e, b, n, k)[j] == Self::comb(Self::lc(c, b, n, k), x, Self::lc(d, b, n, k), y)[j] by {
                assert(x * $Z + y * $Z == $Z) by (nonlinear_arith);
            }
        }
        assert(Self::lc(e, b, n, k) =~= Self::comb(Self::lc(c, b, n, k), x, Self::lc(d, b, n, k), y));
    }
    pub open spec fn unitc(m: int, i: int) -> Seq<$V> { Seq::new(m as nat, |k: int| if k == i { $O } else { $Z }) }
    pub proof fn lemma_lc_unit(b: Seq<Seq<$V>>, n: int, i: int, k: int)
        requires 0 <= i < b.len(), 0 <= k <= b.len(), Self::width(b, n), n >= 0
        ensures Self::lc(Self::unitc(b.len() as int, i), b, n, k) == if i < k { b[i] } else { Self::zero(n) }
        decreases k
    {
        let c = Self::unitc(b.len() as int, i);
        Self::lemma_lc_len(c, b, n, k);
        if k > 0 { Self::lemma_lc_unit(b, n, i, k - 1); assert(b[k - 1].len() == n); assert(b[i].len() == n); }
        assert(Self::lc(c, b, n, k) =~= if i < k { b[i] } else { Self::zero(n) });
    }
    /// the combinations of b are a subspace (lattice) that contains b, and the least such
    pub proof fn lemma_spans_sub(b: Seq<Seq<$V>>, n: int)
        requires Self::width(b, n), n >= 0
        ensures Self::sub(|v: Seq<$V>| Self::spans(b, n, v), n), Self::all(|v: Seq<$V>| Self::spans(b, n, v), b)
    {
        let p = |v: Seq<$V>| Self::spans(b, n, v);
        let m = b.len() as int;
        let z = Self::zero(m);
        Self::lemma_lc_zero(z, b, n, m, m);
        assert(p(Self::zero(n)));
        assert forall|u: Seq<$V>, x: $V, v: Seq<$V>, y: $V| u.len() == n && v.len() == n && p(u) && p(v) implies p(#[trigger] Self::comb(u, x, v, y)) by {
            let c = choose|c: Seq<$V>| c.len() == b.len() && u == #[trigger] Self::lc(c, b, n, m);
            let d = choose|c: Seq<$V>| c.len() == b.len() && v == #[trigger] Self::lc(c, b, n, m);
            Self::lemma_lc_comb(c, x, d, y, b, n, m);
            assert(Self::comb(u, x, v, y) == Self::lc(Self::comb(c, x, d, y), b, n, m));
        }
        assert forall|i: int| 0 <= i < b.len() implies p(#[trigger] b[i]) by { Self::lemma_lc_unit(b, n, i, m); assert(b[i] == Self::lc(Self::unitc(m, i), b, n, m)); }
    }
    pub proof fn lemma_lc_zero(c: Seq<$V>, b: Seq<Seq<$V>>, n: int, k: int, m: int)
        requires 0 <= k <= m <= b.len(), Self::width(b, n), n >= 0, c.len() == b.len(), forall|i: int| 0 <= i < k ==> #[trigger] c[i] == $Z
        ensures Self::lc(c, b, n, k) == Self::zero(n)
        decreases k
    {
        Self::lemma_lc_len(c, b, n, k);
        if k > 0 { Self::lemma_lc_zero(c, b, n, k - 1, m); assert(b[k - 1].len() == n); assert(c[k - 1] == $Z); }
        assert(Self::lc(c, b, n, k) =~= Self::zero(n));
    }
    /// equal spans in terms of combinations
    pub proof fn lemma_span_eq_spans(a: Seq<Seq<$V>>, b: Seq<Seq<$V>>, n: int, v: Seq<$V>)
        requires Self::span_eq(a, b, n), Self::width(a, n), Self::width(b, n), n >= 0
        ensures Self::spans(a, n, v) <==> Self::spans(b, n, v)
    {
        let (p, q) = (|v: Seq<$V>| Self::spans(a, n, v), |v: Seq<$V>| Self::spans(b, n, v));
        Self::lemma_spans_sub(a, n);
        Self::lemma_spans_sub(b, n);
        assert(Self::all(p, b) && Self::all(q, a));
        if Self::spans(a, n, v) {
            let c = choose|c: Seq<$V>| c.len() == a.len() && v == #[trigger] Self::lc(c, a, n, a.len() as int);
            Self::lemma_lc_in(q, c, a, n, a.len() as int);
            assert(q(v));
        }
        if Self::spans(b, n, v) {
            let c = choose|c: Seq<$V>| c.len() == b.len() && v == #[trigger] Self::lc(c, b, n, b.len() as int);
            Self::lemma_lc_in(p, c, b, n, b.len() as int);
            assert(p(v));
        }
    }
    /// in a combination of echelon rows with c_0 .. c_(i-1) zero, nothing is left of the pivot of row i, and there it is c_i times the pivot
    pub proof fn lemma_lc_lead(c: Seq<$V>, b: Seq<Seq<$V>>, n: int, i: int, k: int)
        requires Self::echelon(b, n), c.len() == b.len(), 0 <= i < b.len(), 0 <= k <= b.len(), n >= 0, forall|j: int| 0 <= j < i ==> #[trigger] c[j] == $Z
        ensures forall|j: int| 0 <= j < Self::piv(b[i]) ==> #[trigger] Self::lc(c, b, n, k)[j] == $Z,
            Self::lc(c, b, n, k)[Self::piv(b[i])] == if i < k { c[i] * b[i][Self::piv(b[i])] } else { $Z }
        decreases k
    {
        Self::lemma_lc_len(c, b, n, k);
        Self::lemma_piv(b[i]);
        if k > 0 {
            Self::lemma_lc_lead(c, b, n, i, k - 1);
            Self::lemma_lc_len(c, b, n, k - 1);
            assert(b[k - 1].len() == n);
            Self::lemma_piv(b[k - 1]);
            let (f, g) = (Self::lc(c, b, n, k - 1), Self::lc(c, b, n, k));
            assert forall|j: int| 0 <= j <= Self::piv(b[i]) && !(j == Self::piv(b[i]) && k - 1 == i) implies c[k - 1] * #[trigger] b[k - 1][j] == $Z by {
                if k - 1 < i { assert(c[k - 1] == $Z); } else { if k - 1 > i { assert(Self::piv(b[i]) < Self::piv(b[k - 1])); } assert(b[k - 1][j] == $Z); }
                assert(c[k - 1] * b[k - 1][j] == $Z) by (nonlinear_arith) requires c[k - 1] == $Z || b[k - 1][j] == $Z;
            }
            assert forall|j: int| 0 <= j < Self::piv(b[i]) implies #[trigger] g[j] == $Z by {
                assert(c[k - 1] * b[k - 1][j] == $Z);
                assert(f[j] == $Z);
            }
            if k - 1 != i { assert(c[k - 1] * b[k - 1][Self::piv(b[i])] == $Z); }
        }
    }
    /// a combination of echelon rows that is not zero leads where one of the rows leads, with a multiple of that row's leading entry
    pub proof fn lemma_spans_lead(b: Seq<Seq<$V>>, n: int, v: Seq<$V>) -> (r: (int, $V))
        requires Self::echelon(b, n), Self::spans(b, n, v), n >= 0, v.len() == n, Self::piv(v) < n
        ensures 0 <= r.0 < b.len(), Self::piv(v) == Self::piv(b[r.0]), v[Self::piv(v)] == r.1 * b[r.0][Self::piv(v)]
    {
        let c = choose|c: Seq<$V>| c.len() == b.len() && v == #[trigger] Self::lc(c, b, n, b.len() as int);
        let m = b.len() as int;
        Self::lemma_piv(v);
        let i = Self::piv(c);
        Self::lemma_piv(c);
        if i == m { Self::lemma_lc_zero(c, b, n, m, m); assert(v[Self::piv(v)] == $Z); }
        Self::lemma_lc_lead(c, b, n, i, m);
        Self::lemma_piv(b[i]);
        assert(c[i] * b[i][Self::piv(b[i])] != $Z) by (nonlinear_arith) requires c[i] != $Z, b[i][Self::piv(b[i])] != $Z;
        Self::lemma_piv_is(v, Self::piv(b[i]));
        (i, c[i])
    }
    /// echelon bases of one space lead at the same places: their number is the dimension
    pub proof fn lemma_same_pivots(a: Seq<Seq<$V>>, b: Seq<Seq<$V>>, n: int, i: int)
        requires Self::echelon(a, n), Self::echelon(b, n), Self::span_eq(a, b, n), n >= 0, 0 <= i < a.len()
        ensures i < b.len(), Self::piv(a[i]) == Self::piv(b[i])
        decreases i
    {
        Self::lemma_row_spans(a, b, n, i);
        let (j, _x) = Self::lemma_spans_lead(b, n, a[i]);
        if i > 0 {
            Self::lemma_same_pivots(a, b, n, i - 1);
            assert(Self::piv(a[i - 1]) < Self::piv(a[i]));
            if j < i { if j < i - 1 { assert(Self::piv(b[j]) < Self::piv(b[i - 1])); } assert(false); }
        }
        Self::lemma_row_spans(b, a, n, i);
        let (k, _y) = Self::lemma_spans_lead(a, n, b[i]);
        if k < i { Self::lemma_same_pivots(a, b, n, k); assert(Self::piv(b[k]) < Self::piv(b[i])); assert(false); }
        if k > i { assert(Self::piv(a[i]) < Self::piv(a[k])); }
        if j > i { assert(Self::piv(b[i]) < Self::piv(b[j])); }
    }
    pub proof fn lemma_row_spans(a: Seq<Seq<$V>>, b: Seq<Seq<$V>>, n: int, i: int)
        requires Self::width(a, n), Self::width(b, n), Self::span_eq(a, b, n), n >= 0, 0 <= i < a.len()
        ensures Self::spans(b, n, a[i]), Self::spans(a, n, a[i]), a[i].len() == n
    {
        Self::lemma_spans_sub(a, n);
        let p = |v: Seq<$V>| Self::spans(a, n, v);
        assert(p(a[i]));
        Self::lemma_span_eq_spans(a, b, n, a[i]);
    }
    pub proof fn lemma_dimension(a: Seq<Seq<$V>>, b: Seq<Seq<$V>>, n: int)
        requires Self::echelon(a, n), Self::echelon(b, n), Self::span_eq(a, b, n), n >= 0
        ensures a.len() == b.len()
    {
        if a.len() > b.len() { Self::lemma_same_pivots(a, b, n, b.len() as int); }
        if b.len() > a.len() { Self::lemma_same_pivots(b, a, n, a.len() as int); }
    }
    /// equal spaces (lattices) have equal reduced bases
    pub proof fn lemma_canonical(a: Seq<Seq<$V>>, b: Seq<Seq<$V>>, n: int)
        requires Self::reduced(a, n), Self::reduced(b, n), Self::span_eq(a, b, n), n >= 0
        ensures a == b
    {
        Self::lemma_dimension(a, b, n);
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { Self::lemma_canonical_row(a, b, n, i); }
        assert(a =~= b);
    }
    pub proof fn lemma_canonical_row(a: Seq<Seq<$V>>, b: Seq<Seq<$V>>, n: int, i: int)
        requires Self::reduced(a, n), Self::reduced(b, n), Self::span_eq(a, b, n), n >= 0, 0 <= i < a.len(), a.len() == b.len()
        ensures a[i] == b[i]
    {
        let p = Self::piv(a[i]);
        Self::lemma_same_pivots(a, b, n, i);
        Self::lemma_row_spans(a, b, n, i);
        Self::lemma_row_spans(b, a, n, i);
        Self::lemma_piv(a[i]);
        Self::lemma_piv(b[i]);
        let (j, x) = Self::lemma_spans_lead(b, n, a[i]);
        let (k, y) = Self::lemma_spans_lead(a, n, b[i]);
        assert(j == i) by { Self::lemma_same_pivots(b, a, n, j); if j < i { assert(Self::piv(b[j]) < Self::piv(b[i])); } if i < j { assert(Self::piv(b[i]) < Self::piv(b[j])); } }
        assert(k == i) by { if k < i { assert(Self::piv(a[k]) < Self::piv(a[i])); } if i < k { assert(Self::piv(a[i]) < Self::piv(a[k])); } }
        assert(Self::unit(a[i]) && Self::unit(b[i]));
?L=LinZ        let (s, t) = (a[i][p], b[i][p]);
?L=LinZ        assert(s == t) by (nonlinear_arith) requires s == x * t, t == y * s, s > 0, t > 0;
        let d = Self::comb(a[i], $O, b[i], $Z - $O);
        Self::lemma_spans_sub(a, n);
        let q = |v: Seq<$V>| Self::spans(a, n, v);
        assert(q(a[i]) && q(b[i]));
        assert(q(d));
        assert(forall|j: int| 0 <= j < n ==> d[j] == a[i][j] - b[i][j]);
        if Self::piv(d) < n {
            Self::lemma_piv(d);
            let (l, z) = Self::lemma_spans_lead(a, n, d);
            let r = Self::piv(d);
            if l < i { assert(Self::piv(a[l]) < Self::piv(a[i])); assert(a[i][r] == $Z && b[i][r] == $Z); }
            if l > i {
                Self::lemma_same_pivots(a, b, n, l);
                assert(Self::below(a[i], a[l]) && Self::below(b[i], b[l]));
?L=LinZ                Self::lemma_row_spans(a, b, n, l);
?L=LinZ                Self::lemma_row_spans(b, a, n, l);
?L=LinZ                Self::lemma_piv(a[l]);
?L=LinZ                let (j2, x2) = Self::lemma_spans_lead(b, n, a[l]);
?L=LinZ                let (k2, y2) = Self::lemma_spans_lead(a, n, b[l]);
?L=LinZ                assert(j2 == l) by { if j2 < l { assert(Self::piv(b[j2]) < Self::piv(b[l])); } if l < j2 { assert(Self::piv(b[l]) < Self::piv(b[j2])); } }
?L=LinZ                assert(k2 == l) by { if k2 < l { assert(Self::piv(a[k2]) < Self::piv(a[l])); } if l < k2 { assert(Self::piv(a[l]) < Self::piv(a[k2])); } }
?L=LinZ                assert(Self::unit(a[l]) && Self::unit(b[l]));
?L=LinZ                let (s2, t2) = (a[l][r], b[l][r]);
?L=LinZ                assert(s2 == t2) by (nonlinear_arith) requires s2 == x2 * t2, t2 == y2 * s2, s2 > 0, t2 > 0;
?L=LinZ                let dr = d[r];
?L=LinZ                assert(false) by (nonlinear_arith) requires dr == z * s2, -s2 < dr < s2, dr != 0;
            }
            assert(false);
        }
        Self::lemma_piv(d);
        assert forall|j: int| 0 <= j < n implies a[i][j] == b[i][j] by { assert(d[j] == $Z); }
        assert(a[i] =~= b[i]);
    }
}
@endtemplate
@expand SPAN L=LinR S=Rat V=real Z=0real O=1real
@expand SPAN L=LinZ S=Int V=int Z=0int O=1int
