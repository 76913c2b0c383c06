@template DETINV L S V Z O
impl $L {
    /// b represents the exterior product of the first k rows of m, or that is zero
    #[verifier::opaque]
    pub open spec fn detinv(b: Seq<Seq<$V>>, m: Seq<Seq<$V>>, k: int, n: int) -> bool {
        Self::deq(b, m.take(k), n) || (b.len() < k && Self::dzero(m.take(k), n))
    }
    pub proof fn lemma_detinv_start(m: Seq<Seq<$V>>, n: int)
        ensures Self::detinv(Seq::empty(), m, 0, n)
    { reveal($L::detinv); assert(m.take(0) =~= Seq::<Seq<$V>>::empty()); }
    pub proof fn lemma_detinv_step(b0: Seq<Seq<$V>>, b1: Seq<Seq<$V>>, m: Seq<Seq<$V>>, k: int, n: int)
        requires Self::detinv(b0, m, k, n), 0 <= k < m.len(), m[k].len() == n,
            Self::deq(b1, b0.push(m[k]), n) || (b1.len() <= b0.len() && Self::dzero(b0.push(m[k]), n))
        ensures Self::detinv(b1, m, k + 1, n)
    {
        reveal($L::detinv);
        assert(m.take(k).push(m[k]) =~= m.take(k + 1));
        Self::lemma_push_deq(b0, m.take(k), m[k], n);
        Self::lemma_push_deq(m.take(k), b0, m[k], n);
        Self::lemma_deq_trans(b0, m.take(k), m.take(k), n);
        Self::lemma_deq_trans(b1, b0.push(m[k]), m.take(k + 1), n);
        Self::lemma_deq_trans(m.take(k + 1), b0.push(m[k]), m.take(k + 1), n);
    }
    pub proof fn lemma_detinv_end(r: Seq<Seq<$V>>, m: Seq<Seq<$V>>, n: int)
        requires Self::detinv(r, m, n, n), m.len() == n, Self::echelon(r, n)
        ensures r.len() <= n, r.len() < n ==> Self::det(m, 0) == $Z, r.len() == n ==> Self::tri($O, r, 0, Self::det(m, 0))
    {
        reveal($L::detinv);
        assert(m.take(n) =~= m);
        Self::lemma_det_deq(m, m, n);
        if r.len() == n { Self::lemma_det_deq(r, m, n); Self::lemma_tri_start(r, Self::det(m, 0)); }
        if r.len() > 0 { Self::lemma_ech_low(r, n, r.len() - 1); }
    }
}
@endtemplate
@expand DETINV L=LinR S=Rat V=real Z=0real O=1real
@expand DETINV L=LinZ S=Int V=int Z=0int O=1int
@template DETFN L S V Z O C M
impl $M {
@fn arithmetic/linear_algebra.rs :: LinearAlgebra<T> for Matrix<T>::determinant
    inst $S
    sub T=$S
    nopub
    letty basis Vec<Vec<$S>>
    call extend_basis=extend_basis_det_$S
@spec
    requires self.wf()
    ensures self.nrows == self.ncols, res.v() == $L::det($L::mrows(*self), 0)
@at start
    let ghost (m, n) = ($L::mrows(*self), self.ncols as int);
    proof {
        assert(forall|i: int, j: int| self.has(i, j) ==> (#[trigger] self.el(i, j)).v() == m[i][j]);
        assert(self.nrows == 0 ==> $L::det(m, 0) == $O);
        if self.nrows == 1 { $L::lemma_det1(m, 0); }
        if self.nrows == 2 { $L::lemma_det2(m, 0); }
        if self.nrows == 3 { $L::lemma_det3(m); $L::lemma_reorder3(m); }
    }
@at before loop 1
    proof { assert($L::rows(basis@) =~= Seq::empty()); $L::lemma_detinv_start(m, n); }
@loop 1
    $L::echelon($L::rows(basis@), n), n == self.nrows, it1 <= self.nrows, end1 == self.nrows, m.len() == n,
    $L::detinv($L::rows(basis@), m, it1 as int, n),
@at loop 1 start
    let ghost b0 = $L::rows(basis@);
    let ghost k = it1 - 1;
    proof { $L::lemma_row_vec(*self, k); }
@at loop 1 end
    proof { $L::lemma_detinv_step(b0, $L::rows(basis@), m, k, n); }
@at after loop 1
    let ghost r = $L::rows(basis@);
    proof { $L::lemma_detinv_end(r, m, n); }
@loop 2
    r.len() == n, end2 == n, $L::rows(basis@) == r, $L::tri(det.v(), r, it2 as int, $L::det(m, 0)),
@at loop 2 start
    let ghost (d0, j) = (det.v(), it2 - 1);
    proof { assert(r[j].len() == n); }
@at loop 2 end
    proof { assert($L::vv(basis@[j]@) == r[j]); $L::lemma_tri_step(d0, det.v(), r, n, j, $L::det(m, 0)); }
@at after loop 2
    proof { $L::lemma_tri_end(det.v(), r, $L::det(m, 0)); }
@endfn
}
@endtemplate
@expand DETFN L=LinR S=Rat V=real Z=0real O=1real C=Rat M=Matrix<Rat>
@expand DETFN L=LinZ S=Int V=int Z=0int O=1int C=i64 M=Matrix<Int>
