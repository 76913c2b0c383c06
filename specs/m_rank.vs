@# rank and reduced_basis of src/arithmetic/linear_algebra.rs
@template RANK L S V Z O C M
impl $L {
    /// some echelon basis of the row space of m has r rows (all of them do: lemma_dimension)
    pub open spec fn rank_is(m: Seq<Seq<$V>>, n: int, r: int) -> bool {
        exists|e: Seq<Seq<$V>>| #[trigger] Self::basis_of(e, m, n) && e.len() == r
    }
    pub proof fn lemma_take(m: Seq<Seq<$V>>, k: int)
        requires 0 <= k < m.len()
        ensures m.take(k).push(m[k]) == m.take(k + 1)
    { assert(m.take(k).push(m[k]) =~= m.take(k + 1)); }
    pub proof fn lemma_span_trans(a: Seq<Seq<$V>>, b: Seq<Seq<$V>>, c: Seq<Seq<$V>>, n: int)
        requires Self::span_eq(a, b, n), Self::span_eq(b, c, n)
        ensures Self::span_eq(a, c, n), Self::span_eq(b, a, n)
    { }
    /// matrices with the same row space (lattice) have the same rank and the same reduced basis
    pub proof fn lemma_reduced_basis_canonical(a: Seq<Seq<$V>>, b: Seq<Seq<$V>>, ra: Seq<Seq<$V>>, rb: Seq<Seq<$V>>, n: int)
        requires n >= 0, Self::span_eq(a, b, n), Self::reduced(ra, n), Self::span_eq(ra, a, n), Self::reduced(rb, n), Self::span_eq(rb, b, n)
        ensures ra == rb
    {
        Self::lemma_span_trans(ra, a, b, n);
        Self::lemma_span_trans(rb, b, a, n);
        Self::lemma_span_trans(ra, b, rb, n);
        Self::lemma_canonical(ra, rb, n);
    }
    pub proof fn lemma_rank_unique(m: Seq<Seq<$V>>, n: int, r: int, s: int)
        requires n >= 0, Self::rank_is(m, n, r), Self::rank_is(m, n, s)
        ensures r == s
    {
        let e = choose|e: Seq<Seq<$V>>| #[trigger] Self::basis_of(e, m, n) && e.len() == r;
        let f = choose|e: Seq<Seq<$V>>| #[trigger] Self::basis_of(e, m, n) && e.len() == s;
        Self::lemma_span_trans(f, m, e, n);
        Self::lemma_span_trans(e, m, f, n);
        Self::lemma_dimension(e, f, n);
    }
    /// the first k rows are in final form, and row k reduces the first m of them
    pub open spec fn red(r: Seq<Seq<$V>>, n: int, k: int, m: int) -> bool {
        &&& Self::echelon(r, n)
        &&& forall|i: int| 0 <= i < k ==> Self::unit(#[trigger] r[i])
        &&& forall|i: int, j: int| 0 <= i < j < k ==> Self::below(#[trigger] r[i], #[trigger] r[j])
        &&& m > 0 ==> Self::unit(r[k]) && forall|i: int| 0 <= i < m ==> Self::below(#[trigger] r[i], r[k])
    }
    pub proof fn lemma_red_scale(r: Seq<Seq<$V>>, n: int, k: int, w: Seq<$V>, f: $V, g: $V)
        requires Self::red(r, n, k, 0), 0 <= k < r.len(), Self::scaled(r[k], w, f, g)
        ensures Self::red(r.update(k, w), n, k, 0), Self::piv(w) == Self::piv(r[k]),
            forall|p: spec_fn(Seq<$V>) -> bool| #[trigger] Self::sub(p, n) ==> (Self::all(p, r.update(k, w)) <==> Self::all(p, r))
    {
        let v = r[k];
        let c = Self::piv(v);
        assert(v.len() == n);
        Self::lemma_piv(v);
        let (x, y) = (v[c], w[c]);
        assert(y != $Z) by (nonlinear_arith) requires y == f * x, f * g == $O, x != $Z;
        assert forall|i: int| 0 <= i < c implies #[trigger] w[i] == $Z by { assert(v[i] == $Z); assert(f * $Z == $Z) by (nonlinear_arith); }
        Self::lemma_piv_is(w, c);
        let q = r.update(k, w);
        Self::lemma_ech_update(r, k, w, n);
        assert forall|i: int| 0 <= i < k implies Self::unit(#[trigger] q[i]) by { assert(Self::unit(r[i])); }
        assert forall|i: int, j: int| 0 <= i < j < k implies Self::below(#[trigger] q[i], #[trigger] q[j]) by { assert(Self::below(r[i], r[j])); }
        assert forall|p: spec_fn(Seq<$V>) -> bool| #[trigger] Self::sub(p, n) implies (Self::all(p, q) <==> Self::all(p, r)) by {
            Self::lemma_scaled(p, n, v, w, f, g);
            Self::lemma_all_update(p, r, k, w, true, true);
        }
    }
    pub proof fn lemma_red_reduce(r: Seq<Seq<$V>>, n: int, k: int, i: int, w: Seq<$V>, f: $V)
        requires Self::red(r, n, k, i), 0 <= i < k < r.len(), Self::unit(r[k]), Self::reduced_by(r[i], w, r[k], f), Self::below(w, r[k])
        ensures Self::red(r.update(i, w), n, k, i + 1), Self::piv(w) == Self::piv(r[i]),
            forall|p: spec_fn(Seq<$V>) -> bool| #[trigger] Self::sub(p, n) ==> (Self::all(p, r.update(i, w)) <==> Self::all(p, r))
    {
        let (v, b) = (r[i], r[k]);
        let c = Self::piv(v);
        assert(v.len() == n && b.len() == n);
        assert(Self::piv(r[i]) < Self::piv(r[k]));
        Self::lemma_piv(v);
        Self::lemma_piv(b);
        assert forall|a: int| 0 <= a < Self::piv(b) implies #[trigger] w[a] == v[a] by { assert(b[a] == $Z); assert($Z * f == $Z) by (nonlinear_arith); }
        Self::lemma_piv_is(w, c);
        let q = r.update(i, w);
        Self::lemma_ech_update(r, i, w, n);
        assert forall|a: int| 0 <= a < k implies Self::unit(#[trigger] q[a]) by { assert(Self::unit(r[a])); }
        assert forall|a: int, j: int| 0 <= a < j < k implies Self::below(#[trigger] q[a], #[trigger] q[j]) by {
            assert(Self::below(r[a], r[j]));
            assert(Self::piv(r[j]) < Self::piv(r[k]));
        }
        assert forall|a: int| 0 <= a < i + 1 implies Self::below(#[trigger] q[a], q[k]) by { if a < i { assert(Self::below(r[a], r[k])); } }
        assert forall|p: spec_fn(Seq<$V>) -> bool| #[trigger] Self::sub(p, n) implies (Self::all(p, q) <==> Self::all(p, r)) by {
            if Self::all(p, r) { assert(p(r[k])); Self::lemma_reduced_by(p, n, v, w, b, f); }
            if Self::all(p, q) { assert(p(q[k])); assert(q[k] == b); Self::lemma_reduced_by(p, n, v, w, b, f); }
            if p(b) { Self::lemma_reduced_by(p, n, v, w, b, f); Self::lemma_all_update(p, r, i, w, true, true); }
        }
    }
    pub proof fn lemma_red_next(r: Seq<Seq<$V>>, n: int, k: int)
        requires Self::red(r, n, k, k), 0 <= k < r.len(), Self::unit(r[k])
        ensures Self::red(r, n, k + 1, 0)
    {
        assert forall|i: int, j: int| 0 <= i < j < k + 1 implies Self::below(#[trigger] r[i], #[trigger] r[j]) by { if j == k { assert(Self::below(r[i], r[k])); } }
    }
    pub proof fn lemma_red_all(r: Seq<Seq<$V>>, n: int)
        requires Self::red(r, n, r.len() as int, 0)
        ensures Self::reduced(r, n)
    { }
    pub proof fn lemma_rowsum1(p: Seq<$M>, k: int)
        requires 0 <= k <= p.len(), forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).nrows == 1
        ensures rowsum(p, k) == k
        decreases k
    { if k > 0 { Self::lemma_rowsum1(p, k - 1); } }
    /// matrices of one row each
    pub open spec fn is_rows(p: Seq<$M>, r: Seq<Seq<$V>>, n: int, k: int) -> bool {
        p.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] p[i]).wf() && p[i].ncols == n && p[i].nrows == 1 && Self::vv(p[i].data@) == r[i]
    }
    pub proof fn lemma_vstack_rows(p: Seq<$M>, r: Seq<Seq<$V>>, n: int)
        requires Self::is_rows(p, r, n, r.len() as int), n > 0, r.len() > 0
        ensures forall|o: $M| #[trigger] vstacked(p, o) ==> o.wf() && o.nrows == r.len() && o.ncols == n && Self::mrows(o) == r
    {
        assert forall|i: int| 0 <= i <= p.len() implies #[trigger] rowsum(p, i) == i by { Self::lemma_rowsum1(p, i); }
        assert forall|o: $M| #[trigger] vstacked(p, o) implies o.wf() && o.nrows == r.len() && o.ncols == n && Self::mrows(o) == r by {
            assert(p[0].ncols == n);
            assert(rowsum(p, p.len() as int) == p.len());
            assert forall|i: int| 0 <= i < r.len() implies #[trigger] Self::mrows(o)[i] == r[i] by {
                assert(p[i].nrows == 1 && p[i].wf() && p[i].ncols == n);
                assert(Self::vv(p[i].data@) == r[i]);
                assert forall|j: int| 0 <= j < n implies Self::mrow(o, i)[j] == r[i][j] by {
                    assert(p[i].has(0, j));
                    assert(o.el(rowsum(p, i) + 0, j) == p[i].el(0, j));
                    assert(Self::vv(p[i].data@)[j] == p[i].data@[j].v());
                }
                assert(Self::mrow(o, i) =~= r[i]);
            }
            assert(Self::mrows(o) =~= r);
        }
    }
    /// an echelon basis has at most n rows
    pub proof fn lemma_ech_len(r: Seq<Seq<$V>>, n: int, i: int)
        requires Self::echelon(r, n), 0 <= i < r.len()
        ensures i <= Self::piv(r[i]) < n
        decreases i
    {
        if i > 0 { Self::lemma_ech_len(r, n, i - 1); assert(Self::piv(r[i - 1]) < Self::piv(r[i])); }
        else { assert(r[0].len() == n); Self::lemma_piv(r[0]); }
    }
}
impl $M {
@fn arithmetic/linear_algebra.rs :: LinearAlgebra<T> for Matrix<T>::rank
    inst $S
    sub T=$S
    nopub
    letty basis Vec<Vec<$S>>
    call extend_basis=extend_basis_$S
@spec
    requires self.wf()
    ensures $L::rank_is($L::mrows(*self), self.ncols as int, res as int), res <= self.nrows, res <= self.ncols
@at start
    let ghost (m, n) = ($L::mrows(*self), self.ncols as int);
@loop 1
    $L::basis_of($L::rows(basis@), m.take(it1 as int), n), basis@.len() <= it1, it1 <= self.nrows, end1 == self.nrows
@at loop 1 start
    let ghost b0 = $L::rows(basis@);
    let ghost k = it1 - 1;
    proof { $L::lemma_take(m, k); $L::lemma_row_vec(*self, k); }
@at loop 1 end
    proof { $L::lemma_basis_step(b0, $L::rows(basis@), m.take(k), m[k], n); }
@at end
    proof {
        assert(m.take(m.len() as int) =~= m);
        if basis@.len() > 0 { $L::lemma_ech_len($L::rows(basis@), n, basis@.len() - 1); }
    }
@endfn
@fn arithmetic/linear_algebra.rs :: LinearAlgebra<T> for Matrix<T>::reduced_basis
    inst $S
    sub T=$S
    nopub
    letty basis Vec<Vec<$S>>
    call extend_basis=extend_basis_$S
    accty 5 Vec<$M>
    call Scalar::normalize_column=normalize_column_$C
    call Scalar::reduce_column=reduce_column_$C
@spec
    requires self.wf()
    ensures res.wf(), res.nrows > 0 ==> res.ncols == self.ncols, res.nrows <= self.nrows, res.nrows <= self.ncols,
        $L::reduced($L::mrows(res), self.ncols as int),
        $L::span_eq($L::mrows(res), $L::mrows(*self), self.ncols as int)
@at start
    let ghost (m, n) = ($L::mrows(*self), self.ncols as int);
@loop 1
    $L::basis_of($L::rows(basis@), m.take(it1 as int), n), basis@.len() <= it1, it1 <= self.nrows, end1 == self.nrows
@at loop 1 start
    let ghost b0 = $L::rows(basis@);
    let ghost k = it1 - 1;
    proof { $L::lemma_take(m, k); $L::lemma_row_vec(*self, k); }
@at loop 1 end
    proof { $L::lemma_basis_step(b0, $L::rows(basis@), m.take(k), m[k], n); }
@at after loop 1
    proof { assert(m.take(m.len() as int) =~= m); if basis@.len() > 0 { assert($L::rows(basis@)[0].len() == n); $L::lemma_piv($L::rows(basis@)[0]); } }
@loop 2
    basis@.len() == end2, basis@.len() <= self.nrows, $L::red($L::rows(basis@), n, it2 as int, 0), $L::span_eq($L::rows(basis@), m, n),
    it2 < end2 ==> col <= $L::piv($L::rows(basis@)[it2 as int]),
@at loop 2 start
    let ghost k = it2 - 1;
    let ghost r0 = $L::rows(basis@);
    proof { assert(r0[k].len() == n); $L::lemma_piv(r0[k]); }
@loop 3
    col <= $L::piv(r0[k]), $L::rows(basis@) == r0,
    decreases $L::piv(r0[k]) - col
@at after loop 3
    proof { assert($L::rows(basis@)[k][col as int] == basis@[k]@[col as int].v()); assert(col == $L::piv(r0[k])); assert($L::vv(basis@[k]@) == r0[k]); }
@loop 4
    basis@.len() == end2, 0 <= k < end2, end4 == k, b@ == basis@[k]@, $L::unit($L::rows(basis@)[k]), col == $L::piv($L::rows(basis@)[k]),
    $L::red($L::rows(basis@), n, k, it4 as int), $L::span_eq($L::rows(basis@), m, n),
@at before loop 4
    proof {
        let r1 = $L::rows(basis@);
        assert(r1 =~= r0.update(k, r1[k]));
        let (f, g) = choose|f: $V, g: $V| #[trigger] $L::scaled(r0[k], r1[k], f, g);
        $L::lemma_red_scale(r0, n, k, r1[k], f, g);
        assert(b@ =~= basis@[k]@);
    }
@at loop 4 start
    let ghost r2 = $L::rows(basis@);
    let ghost h = it4 - 1;
    proof { assert(r2[h].len() == n && r2[k].len() == n); $L::lemma_piv(r2[k]); assert($L::vv(b@) == r2[k]); assert($L::vv(basis@[h]@) == r2[h]); }
@at loop 4 end
    proof {
        let r3 = $L::rows(basis@);
        assert(r3 =~= r2.update(h, r3[h]));
        let f = choose|f: $V| #[trigger] $L::reduced_by(r2[h], r3[h], r2[k], f);
        $L::lemma_red_reduce(r2, n, k, h, r3[h], f);
        assert(basis@[k]@ =~= b@);
    }
@at loop 2 end
    proof {
        let r = $L::rows(basis@);
        $L::lemma_red_next(r, n, k);
        if k + 1 < r.len() { assert($L::piv(r[k]) < $L::piv(r[k + 1])); }
    }
@at after loop 2
    let ghost r = $L::rows(basis@);
    proof {
        $L::lemma_red_all(r, n);
        if r.len() > 0 { $L::lemma_ech_len(r, n, r.len() - 1); }
    }
@loop 5
    basis@.len() == r.len(), $L::rows(basis@) == r, $L::is_rows(acc5@, r, n, it5 as int),
@at loop 5 start
    proof { assert(r[it5 - 1].len() == n); assert($L::vv(basis@[it5 - 1]@) == r[it5 - 1]); $L::lemma_ech_len(r, n, it5 - 1); }
@at after loop 5
    proof { if r.len() > 0 { $L::lemma_vstack_rows(acc5@, r, n); } }
@at end
    proof { assert($L::mrows(res) =~= r); }
@endfn
}
@endtemplate
@expand RANK L=LinR S=Rat V=real Z=0real O=1real C=Rat M=Matrix<Rat>
@expand RANK L=LinZ S=Int V=int Z=0int O=1int C=i64 M=Matrix<Int>
