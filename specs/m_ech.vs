@# lemmas on echelon bases
@template EXTEND0 L S V Z O
impl $L {
    pub proof fn lemma_row_vec(m: Matrix<$S>, k: int)
        requires 0 <= k < m.nrows
        ensures forall|x: Seq<$S>| x.len() == m.ncols && (forall|j: int| 0 <= j < m.ncols ==> #[trigger] x[j] == m.el(k, j)) ==> #[trigger] Self::vv(x) == Self::mrows(m)[k]
    {
        assert forall|x: Seq<$S>| x.len() == m.ncols && (forall|j: int| 0 <= j < m.ncols ==> #[trigger] x[j] == m.el(k, j)) implies #[trigger] Self::vv(x) == Self::mrows(m)[k] by {
            assert(Self::vv(x) =~= Self::mrows(m)[k]);
        }
    }
    pub proof fn lemma_ech_insert(r: Seq<Seq<$V>>, i: int, w: Seq<$V>, n: int)
        requires Self::echelon(r, n), w.len() == n, Self::piv(w) < n, 0 <= i <= r.len(), n >= 0,
            forall|k: int| 0 <= k < i ==> Self::piv(#[trigger] r[k]) < Self::piv(w), i < r.len() ==> Self::piv(w) < Self::piv(r[i])
        ensures Self::echelon(r.insert(i, w), n),
            forall|p: spec_fn(Seq<$V>) -> bool| #[trigger] Self::all(p, r.insert(i, w)) <==> Self::all(p, r) && p(w)
    {
        let q = r.insert(i, w);
        assert forall|a: int, b: int| 0 <= a < b < q.len() implies Self::piv(#[trigger] q[a]) < Self::piv(#[trigger] q[b]) by {
            if a < i && b > i { assert(Self::piv(r[a]) < Self::piv(r[b - 1])); }
            else if a == i && b > i { if b - 1 > i { assert(Self::piv(r[i]) < Self::piv(r[b - 1])); } }
            else if a > i { assert(Self::piv(r[a - 1]) < Self::piv(r[b - 1])); }
            else if b < i { assert(Self::piv(r[a]) < Self::piv(r[b])); }
        }
        assert forall|a: int| 0 <= a < q.len() implies (#[trigger] q[a]).len() == n && Self::piv(q[a]) < n by {
            if a < i { assert(r[a].len() == n); } else if a > i { assert(r[a - 1].len() == n); }
        }
        assert forall|p: spec_fn(Seq<$V>) -> bool| #[trigger] Self::all(p, q) <==> Self::all(p, r) && p(w) by {
            if Self::all(p, q) {
                assert(p(q[i]));
                assert forall|a: int| 0 <= a < r.len() implies p(#[trigger] r[a]) by { if a < i { assert(p(q[a])); } else { assert(p(q[a + 1])); } }
            }
            if Self::all(p, r) && p(w) {
                assert forall|a: int| 0 <= a < q.len() implies p(#[trigger] q[a]) by { if a < i { assert(p(r[a])); } else if a > i { assert(p(r[a - 1])); } }
            }
        }
    }
    pub proof fn lemma_ech_update(r: Seq<Seq<$V>>, i: int, w: Seq<$V>, n: int)
        requires Self::echelon(r, n), w.len() == n, 0 <= i < r.len(), Self::piv(w) == Self::piv(r[i])
        ensures Self::echelon(r.update(i, w), n)
    {
        let q = r.update(i, w);
        assert forall|a: int, b: int| 0 <= a < b < q.len() implies Self::piv(#[trigger] q[a]) < Self::piv(#[trigger] q[b]) by {
            assert(Self::piv(r[a]) < Self::piv(r[b]));
        }
        assert forall|a: int| 0 <= a < q.len() implies (#[trigger] q[a]).len() == n && Self::piv(q[a]) < n by { assert(r[a].len() == n && Self::piv(r[a]) < n); }
    }
    /// replacing row i by w: what lies in a subspace
    pub proof fn lemma_all_update(p: spec_fn(Seq<$V>) -> bool, r: Seq<Seq<$V>>, i: int, w: Seq<$V>, x: bool, y: bool)
        requires 0 <= i < r.len(), p(r[i]) && x <==> p(w) && y
        ensures Self::all(p, r) && x <==> Self::all(p, r.update(i, w)) && y
    {
        let q = r.update(i, w);
        if Self::all(p, r) && x { assert(p(r[i])); assert forall|a: int| 0 <= a < q.len() implies p(#[trigger] q[a]) by { if a != i { assert(p(r[a])); } } }
        if Self::all(p, q) && y { assert(p(q[i])); assert forall|a: int| 0 <= a < r.len() implies p(#[trigger] r[a]) by { if a != i { assert(p(q[a])); } } }
    }
    /// basis b of the space of the first k rows of m
    pub open spec fn basis_of(b: Seq<Seq<$V>>, m: Seq<Seq<$V>>, n: int) -> bool { Self::echelon(b, n) && Self::span_eq(b, m, n) }
    pub proof fn lemma_basis_step(b: Seq<Seq<$V>>, c: Seq<Seq<$V>>, m: Seq<Seq<$V>>, v: Seq<$V>, n: int)
        requires Self::span_eq(b, m, n), Self::echelon(c, n),
            forall|p: spec_fn(Seq<$V>) -> bool| #[trigger] Self::sub(p, n) ==> (Self::all(p, c) <==> Self::all(p, b) && p(v))
        ensures Self::basis_of(c, m.push(v), n)
    {
        assert forall|p: spec_fn(Seq<$V>) -> bool| #[trigger] Self::sub(p, n) implies (Self::all(p, c) <==> Self::all(p, m.push(v))) by {
            let q = m.push(v);
            if Self::all(p, q) { assert(p(q[m.len() as int])); assert forall|a: int| 0 <= a < m.len() implies p(#[trigger] m[a]) by { assert(p(q[a])); } }
            if Self::all(p, m) && p(v) { assert forall|a: int| 0 <= a < q.len() implies p(#[trigger] q[a]) by { if a < m.len() { assert(p(m[a])); } } }
        }
    }
}
@endtemplate
@expand EXTEND0 L=LinR S=Rat V=real Z=0real O=1real
@expand EXTEND0 L=LinZ S=Int V=int Z=0int O=1int
