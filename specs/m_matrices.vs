@# Contracts of src/arithmetic/matrices.rs (layout part), for every entry type.
@struct arithmetic/matrices.rs Matrix
impl<T: Clone> Clone for Matrix<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

impl<T> VSeq for Matrix<T> { type Item = T;
    open spec fn vseq_spec(&self) -> Seq<T> { self.data@ }
@fn arithmetic/matrices.rs :: Matrix<T>::iter
    as vseq
    nopub
    rettype &Vec<T>
    call .iter=vseq
@endfn
}
pub proof fn lemma_idx(i: int, j: int, r: int, c: int)
    requires 0 <= i < r, 0 <= j < c
    ensures 0 <= i * c + j < r * c, i * c <= i * c + j, i * c + c <= r * c
{
    assert(i * c + c <= r * c) by (nonlinear_arith) requires 0 <= i < r, 0 < c;
    assert(0 <= i * c) by (nonlinear_arith) requires 0 <= i, 0 < c;
}
/// a flat index has one row and one column
pub proof fn lemma_idx_inj(i: int, j: int, k: int, l: int, c: int)
    requires 0 <= j < c, 0 <= l < c, i * c + j == k * c + l
    ensures i == k, j == l
{
    lemma_fundamental_div_mod_converse(i * c + j, c, i, j);
    lemma_fundamental_div_mod_converse(k * c + l, c, k, l);
}
pub proof fn lemma_idx_row(i: int, n: int, c: int, r: int)
    requires i * c < n, n == r * c, 0 <= i, c >= 0
    ensures i < r
{
    if i >= r { assert(i * c >= r * c) by (nonlinear_arith) requires i >= r, c >= 0; }
}

impl<T> Matrix<T> {
    pub open spec fn wf(self) -> bool { self.data@.len() == self.nrows * self.ncols }
    pub open spec fn el(self, i: int, j: int) -> T { self.data@[i * self.ncols + j] }
    pub open spec fn has(self, i: int, j: int) -> bool { 0 <= i < self.nrows && 0 <= j < self.ncols }
    /// shape r x c, where a matrix without entries has no rows
    pub open spec fn dims(self, r: int, c: int) -> bool {
        &&& self.wf() &&& self.ncols == c &&& self.nrows == (if r * c == 0 { 0 } else { r })
    }

@fn arithmetic/matrices.rs :: Matrix<T>::shape
@spec
    ensures res == (self.nrows, self.ncols)
@endfn

@fn arithmetic/matrices.rs :: Index<(usize, usize)> for Matrix<T>::index
    rettype &T
@spec
    requires self.wf()
    ensures arg1.0 < self.nrows, arg1.1 < self.ncols, *res == self.el(arg1.0 as int, arg1.1 as int)
@at start
    proof { }
@at after assert 2
    proof {
        lemma_idx_row(i as int, self.data@.len() as int, self.ncols as int, self.nrows as int);
        lemma_idx(i as int, j as int, self.nrows as int, self.ncols as int);
    }
@endfn

@fn arithmetic/matrices.rs :: IndexMut<(usize, usize)> for Matrix<T>::index_mut
    rettype &mut T
@spec
    requires old(self).wf()
    ensures arg1.0 < old(self).nrows, arg1.1 < old(self).ncols, *res == old(self).el(arg1.0 as int, arg1.1 as int),
        final(self).nrows == old(self).nrows, final(self).ncols == old(self).ncols, final(self).wf(),
        final(self).data@ == old(self).data@.update(arg1.0 * old(self).ncols + arg1.1, *final(res)),
@at after assert 2
    proof {
        lemma_idx_row(i as int, self.data@.len() as int, self.ncols as int, self.nrows as int);
        lemma_idx(i as int, j as int, self.nrows as int, self.ncols as int);
    }
@endfn
}

/// writing one entry changes only that entry
pub proof fn lemma_update_el<T>(a: Matrix<T>, b: Matrix<T>, i: int, j: int)
    requires a.wf(), a.has(i, j), b.nrows == a.nrows, b.ncols == a.ncols, exists|x: T| b.data@ == #[trigger] a.data@.update(i * a.ncols + j, x)
    ensures b.wf(), b.has(i, j), 0 <= i * a.ncols + j < a.data@.len(), a.data@.update(i * a.ncols + j, b.el(i, j)) == b.data@, forall|k: int, l: int| b.has(k, l) && (k != i || l != j) ==> #[trigger] b.el(k, l) == a.el(k, l)
{
    lemma_idx(i, j, a.nrows as int, a.ncols as int);
    assert forall|k: int, l: int| b.has(k, l) && (k != i || l != j) implies #[trigger] b.el(k, l) == a.el(k, l) by {
        lemma_idx(k, l, a.nrows as int, a.ncols as int);
        if k * a.ncols + l == i * a.ncols + j { lemma_idx_inj(k, l, i, j, a.ncols as int); }
    }
}
/// matrices with the same shape and entries are equal
pub proof fn lemma_mat_eq<T>(a: Matrix<T>, b: Matrix<T>)
    requires a.wf(), b.wf(), a.nrows == b.nrows, a.ncols == b.ncols, forall|i: int, j: int| a.has(i, j) ==> #[trigger] a.el(i, j) == b.el(i, j)
    ensures a.data@ == b.data@
{
    let c = a.ncols as int;
    assert forall|k: int| 0 <= k < a.data@.len() implies a.data@[k] == b.data@[k] by {
        if c == 0 { assert(a.nrows * c == 0) by (nonlinear_arith) requires c == 0; }
        let (i, j) = (k / c, k % c);
        lemma_fundamental_div_mod(k, c);
        assert(0 <= j < c && 0 <= i) by { lemma_mod_bound(k, c); lemma_div_pos_is_pos(k, c); }
        assert(k == i * c + j) by (nonlinear_arith) requires k == c * i + j;
        assert(i < a.nrows) by {
            if i >= a.nrows { assert(i * c >= a.nrows * c) by (nonlinear_arith) requires i >= a.nrows, c > 0; }
        }
        assert(a.el(i, j) == b.el(i, j));
    }
    assert(a.data@ =~= b.data@);
}

impl<T: Clone> Matrix<T> {
@fn arithmetic/matrices.rs :: Matrix<T>::new
@spec
    ensures res.ncols == ncols, res.data@ == data@, res.wf(), data@.len() == 0 ==> res.nrows == 0,
@at end
    proof {
        if data@.len() > 0 && ncols == 0 { assert(nrows * 0 == 0); }
    }
@endfn

@fn arithmetic/matrices.rs :: FromIterator<T> for Matrix<T>::from_iter
    as from_iter_vec
    param iter Vec<T>
    call Vec::from_iter=vident
@spec
    ensures res.wf(), res.ncols == 1, res.data@ == iter@, res.nrows == iter@.len()
@endfn

@fn arithmetic/matrices.rs :: Matrix<T>::row
@spec
    ensures res.wf(), res.ncols == data@.len(), res.data@ == data@, data@.len() > 0 ==> res.nrows == 1, data@.len() == 0 ==> res.nrows == 0
@at end
    proof { if data@.len() > 0 { assert(res.nrows == 1) by (nonlinear_arith) requires res.nrows * data@.len() == data@.len(), data@.len() > 0; } }
@endfn

@fn arithmetic/matrices.rs :: Matrix<T>::col
@spec
    ensures res.wf(), res.ncols == 1, res.data@ == data@, res.nrows == data@.len()
@endfn

@fn arithmetic/matrices.rs :: Matrix<T>::reshape
@spec
    ensures res.wf(), res.ncols == ncols, res.data@ == self.data@, self.data@.len() == 0 ==> res.nrows == 0
@endfn

@fn arithmetic/matrices.rs :: Matrix<T>::submatrix
@spec
    requires self.wf()
    ensures rows.end <= self.nrows, cols.end <= self.ncols, rows.start <= rows.end, cols.start <= cols.end,
        res.dims(rows.end - rows.start, cols.end - cols.start),
        forall|i: int, j: int| res.has(i, j) ==> #[trigger] res.el(i, j) == self.el(rows.start + i, cols.start + j)
@loop 1
    data@.len() == it1 * ncols,
    forall|p: int, q: int| 0 <= p < it1 && 0 <= q < ncols ==> data@[#[trigger] (p * ncols + q)] == self.el(rows.start + p, cols.start + q),
@loop 2
    data@.len() == i * ncols + it2,
    forall|p: int, q: int| 0 <= p < i && 0 <= q < ncols ==> data@[#[trigger] (p * ncols + q)] == self.el(rows.start + p, cols.start + q),
    forall|q: int| 0 <= q < it2 ==> data@[#[trigger] (i * ncols + q)] == self.el(rows.start + i, cols.start + q),
@at before push 1
    proof {
        assert forall|p: int, q: int| 0 <= p < i && 0 <= q < ncols implies 0 <= #[trigger] (p * ncols + q) < i * ncols by { lemma_idx(p, q, i as int, ncols as int); }
    }
@at after loop 2
    proof { assert((i + 1) * ncols == i * ncols + ncols) by (nonlinear_arith); }
@at end
    proof {
        let (nr, nc) = (nrows as int, ncols as int);
        if nc == 0 { assert(nr * nc == 0) by (nonlinear_arith) requires nc == 0; }
        if nr * nc != 0 {
            assert(res.nrows == nr) by (nonlinear_arith) requires res.nrows * nc == nr * nc, nc > 0 || nc < 0;
        }
        assert forall|p: int, q: int| res.has(p, q) implies #[trigger] res.el(p, q) == self.el(rows.start + p, cols.start + q) by {
            if nr * nc == 0 { assert(false); }
            lemma_idx(p, q, nr, nc);
            assert(data@[p * ncols + q] == self.el(rows.start + p, cols.start + q));
        }
    }
@endfn

@fn arithmetic/matrices.rs :: Matrix<T>::hstack
@spec
    requires forall|k: int| 0 <= k < parts@.len() ==> (#[trigger] parts@[k]).wf()
    ensures hstacked(parts@, res)
@loop 1
    forall|k: int| 0 <= k < it1 ==> (#[trigger] parts@[k]).nrows == nrows, acc1 ==> true,
    nrows == parts@[0].nrows,
    !acc1 ==> exists|k: int| 0 <= k < parts@.len() && (#[trigger] parts@[k]).nrows != nrows,
@loop 2
    acc2 == colsum(parts@, it2 as int),
@loop 3
    ncols == colsum(parts@, parts@.len() as int),
    data@.len() == it3 * ncols,
    forall|k: int, i: int, j: int| 0 <= k < parts@.len() && #[trigger] parts@[k].has(i, j) && i < it3 ==> data@[i * ncols + colsum(parts@, k) + j] == parts@[k].el(i, j),
@loop 4
    data@.len() == irow * ncols + colsum(parts@, it4 as int),
    forall|k: int, i: int, j: int| 0 <= k < parts@.len() && #[trigger] parts@[k].has(i, j) && (i < irow || i == irow && k < it4) ==> data@[i * ncols + colsum(parts@, k) + j] == parts@[k].el(i, j),
@loop 5
    data@.len() == irow * ncols + colsum(parts@, cur4 as int) + it5,
    forall|k: int, i: int, j: int| 0 <= k < parts@.len() && #[trigger] parts@[k].has(i, j) && (i < irow || i == irow && (k < cur4 || k == cur4 && j < it5)) ==> data@[i * ncols + colsum(parts@, k) + j] == parts@[k].el(i, j),
@at before push 1
    proof {
        assert forall|k: int, i: int, j: int| 0 <= k < parts@.len() && #[trigger] parts@[k].has(i, j) && (i < irow || i == irow && (k < cur4 || k == cur4 && j < icol))
            implies 0 <= i * ncols + colsum(parts@, k) + j < data@.len() by {
            lemma_colsum(parts@, k, parts@.len() as int);
            lemma_colsum(parts@, cur4 as int, parts@.len() as int);
            if i < irow { lemma_idx(i, colsum(parts@, k) + j, irow as int, ncols as int); }
            else { assert(0 <= i * ncols) by (nonlinear_arith) requires i >= 0; if k < cur4 { lemma_colsum(parts@, k, cur4 as int); } }
        }
    }
@at after loop 4
    proof { assert((irow + 1) * ncols == irow * ncols + ncols) by (nonlinear_arith); }
@at before new 2
    proof {
        if nrows > 0 && ncols > 0 { assert(nrows * ncols > 0) by (nonlinear_arith) requires nrows > 0, ncols > 0; }
        if ncols == 0 { assert(nrows * ncols == 0) by (nonlinear_arith) requires ncols == 0; }
        assert forall|k: int, i: int, j: int| 0 <= k < parts@.len() && #[trigger] parts@[k].has(i, j) implies 0 <= colsum(parts@, k) + j < ncols by {
            lemma_colsum(parts@, k, parts@.len() as int);
        }
    }
@at end
    proof {
        if parts@.len() > 0 && res.ncols > 0 && parts@[0].nrows > 0 {
            let (nr, nc) = (parts@[0].nrows as int, res.ncols as int);
            assert(res.nrows == nr) by (nonlinear_arith) requires res.nrows * nc == nr * nc, nc > 0;
        }
        assert forall|k: int, i: int, j: int| 0 <= k < parts@.len() && #[trigger] parts@[k].has(i, j) implies
            res.el(i, colsum(parts@, k) + j) == parts@[k].el(i, j) && res.has(i, colsum(parts@, k) + j) by {
            lemma_colsum(parts@, k, parts@.len() as int);
        }
    }
@endfn

@fn arithmetic/matrices.rs :: Matrix<T>::vstack
@spec
    requires forall|k: int| 0 <= k < parts@.len() ==> (#[trigger] parts@[k]).wf()
    ensures vstacked(parts@, res)
@loop 1
    forall|k: int| 0 <= k < it1 ==> (#[trigger] parts@[k]).ncols == ncols,
    ncols == parts@[0].ncols,
@loop 2
    acc2 == rowsum(parts@, it2 as int),
@loop 3
    nrows == rowsum(parts@, parts@.len() as int),
    data@.len() == rowsum(parts@, it3 as int) * ncols,
    forall|k: int, i: int, j: int| 0 <= k < it3 && #[trigger] parts@[k].has(i, j) ==> data@[(rowsum(parts@, k) + i) * ncols + j] == parts@[k].el(i, j),
@loop 4
    data@.len() == (rowsum(parts@, cur3 as int) + it4) * ncols,
    forall|k: int, i: int, j: int| 0 <= k <= cur3 && #[trigger] parts@[k].has(i, j) && (k < cur3 || i < it4) ==> data@[(rowsum(parts@, k) + i) * ncols + j] == parts@[k].el(i, j),
@loop 5
    data@.len() == (rowsum(parts@, cur3 as int) + irow) * ncols + it5,
    forall|k: int, i: int, j: int| 0 <= k <= cur3 && #[trigger] parts@[k].has(i, j) && (k < cur3 || i < irow || i == irow && j < it5) ==> data@[(rowsum(parts@, k) + i) * ncols + j] == parts@[k].el(i, j),
@at before push 1
    proof {
        let n = rowsum(parts@, cur3 as int) + irow;
        assert forall|k: int, i: int, j: int| 0 <= k <= cur3 && #[trigger] parts@[k].has(i, j) && (k < cur3 || i < irow || i == irow && j < icol)
            implies 0 <= (rowsum(parts@, k) + i) * ncols + j < data@.len() by {
            lemma_rowsum(parts@, k, cur3 as int);
            let m = rowsum(parts@, k) + i;
            if k < cur3 || i < irow { if k < cur3 { lemma_rowsum(parts@, k + 1, cur3 as int); } lemma_idx(m, j, n, ncols as int); }
            else { assert(0 <= m * ncols) by (nonlinear_arith) requires m >= 0; }
        }
    }
@at after loop 5
    proof { let n = rowsum(parts@, cur3 as int) + irow; assert((n + 1) * ncols == n * ncols + ncols) by (nonlinear_arith); }
@at end
    proof {
        if parts@.len() > 0 {
            let (nr, nc) = (rowsum(parts@, parts@.len() as int), res.ncols as int);
            lemma_rowsum(parts@, 0, parts@.len() as int);
            if nc > 0 { assert(res.nrows == nr) by (nonlinear_arith) requires res.nrows * nc == nr * nc, nc > 0; }
            else { assert(nr * nc == 0) by (nonlinear_arith) requires nc == 0; }
            assert forall|k: int, i: int, j: int| 0 <= k < parts@.len() && #[trigger] parts@[k].has(i, j) implies
                res.el(rowsum(parts@, k) + i, j) == parts@[k].el(i, j) && res.has(rowsum(parts@, k) + i, j) by {
                lemma_rowsum(parts@, k, parts@.len() as int);
                lemma_rowsum(parts@, k + 1, parts@.len() as int);
            }
        }
    }
@endfn

@fn arithmetic/matrices.rs :: Matrix<T>::get_row
@spec
    requires self.wf()
    ensures i < self.nrows, res@.len() == self.ncols, forall|j: int| 0 <= j < self.ncols ==> #[trigger] res@[j] == self.el(i as int, j)
@at after assert 1
    proof { lemma_idx_row(i as int, self.data@.len() as int, m as int, self.nrows as int); }
@endfn

@fn arithmetic/matrices.rs :: Matrix<T>::get_rows
@spec
    requires self.wf()
    ensures res@.len() == self.nrows, forall|i: int| 0 <= i < self.nrows ==> (#[trigger] res@[i])@.len() == self.ncols,
        forall|i: int, j: int| self.has(i, j) ==> #[trigger] res@[i]@[j] == self.el(i, j)
@loop 1
    acc1@.len() == it1, forall|i: int| 0 <= i < it1 ==> (#[trigger] acc1@[i])@.len() == self.ncols,
    forall|i: int, j: int| self.has(i, j) && i < it1 ==> #[trigger] acc1@[i]@[j] == self.el(i, j)
@endfn

@fn arithmetic/matrices.rs :: Matrix<T>::get_col
@spec
    requires self.wf()
    ensures j < self.ncols, res@.len() == self.nrows, forall|i: int| 0 <= i < self.nrows ==> #[trigger] res@[i] == self.el(i, j as int)
@loop 1
    acc1@.len() == it1, nrows == self.nrows, forall|i: int| 0 <= i < it1 ==> #[trigger] acc1@[i] == self.el(i, j as int)
@endfn

@fn arithmetic/matrices.rs :: Matrix<T>::transpose
    accty 1 Vec<T>
@spec
    requires self.wf()
    ensures res.dims(self.ncols as int, self.nrows as int), forall|i: int, j: int| self.has(i, j) ==> #[trigger] res.el(j, i) == self.el(i, j)
@loop 1
    acc1@.len() == it1 * nrows, nrows == self.nrows, ncols == self.ncols,
    forall|i: int, j: int| 0 <= i < nrows && 0 <= j < it1 ==> acc1@[#[trigger] (j * nrows + i)] == self.el(i, j),
@loop 2
    acc1@.len() == cur1 * nrows + it2,
    forall|i: int, j: int| 0 <= i < nrows && 0 <= j < cur1 ==> acc1@[#[trigger] (j * nrows + i)] == self.el(i, j),
    forall|i: int| 0 <= i < it2 ==> acc1@[#[trigger] (cur1 * nrows + i)] == self.el(i, cur1 as int),
@at loop 2 start
    proof {
        assert forall|p: int, q: int| 0 <= p < cur1 && 0 <= q < nrows implies 0 <= #[trigger] (p * nrows + q) < cur1 * nrows by { lemma_idx(p, q, cur1 as int, nrows as int); }
    }
@at after loop 2
    proof { assert((cur1 + 1) * nrows == cur1 * nrows + nrows) by (nonlinear_arith); }
@at end
    proof {
        let (nr, nc) = (ncols as int, nrows as int);
        if nc == 0 || nr == 0 { assert(nr * nc == 0) by (nonlinear_arith) requires nc == 0 || nr == 0; }
        else { assert(nr * nc != 0) by (nonlinear_arith) requires nc > 0, nr > 0;
            assert(res.nrows == nr) by (nonlinear_arith) requires res.nrows * nc == nr * nc, nc > 0; }
        assert forall|i: int, j: int| self.has(i, j) implies #[trigger] res.el(j, i) == self.el(i, j) by { assert(data@[j * nrows + i] == self.el(i, j)); }
    }
@endfn
}

pub open spec fn hstacked<T>(parts: Seq<Matrix<T>>, res: Matrix<T>) -> bool {
    &&& res.wf()
    &&& forall|k: int| 0 <= k < parts.len() ==> (#[trigger] parts[k]).nrows == parts[0].nrows
    &&& res.ncols == colsum(parts, parts.len() as int)
    &&& res.ncols > 0 && parts[0].nrows > 0 ==> res.nrows == parts[0].nrows
    &&& res.ncols == 0 || parts.len() == 0 || parts[0].nrows == 0 ==> res.nrows == 0
    &&& forall|k: int, i: int, j: int| 0 <= k < parts.len() && #[trigger] parts[k].has(i, j) ==>
            res.el(i, colsum(parts, k) + j) == parts[k].el(i, j) && res.has(i, colsum(parts, k) + j)
}
pub open spec fn vstacked<T>(parts: Seq<Matrix<T>>, res: Matrix<T>) -> bool {
    &&& res.wf()
    &&& forall|k: int| 0 <= k < parts.len() ==> (#[trigger] parts[k]).ncols == parts[0].ncols
    &&& parts.len() > 0 ==> res.ncols == parts[0].ncols
    &&& parts.len() == 0 ==> res.ncols == 0
    &&& parts.len() > 0 && parts[0].ncols > 0 ==> res.nrows == rowsum(parts, parts.len() as int)
    &&& parts.len() == 0 || parts[0].ncols == 0 ==> res.nrows == 0
    &&& forall|k: int, i: int, j: int| 0 <= k < parts.len() && #[trigger] parts[k].has(i, j) ==>
            res.el(rowsum(parts, k) + i, j) == parts[k].el(i, j) && res.has(rowsum(parts, k) + i, j)
}
/// entries are those of f
pub open spec fn entries<T>(m: Matrix<T>, r: int, c: int, f: spec_fn(int, int) -> T) -> bool {
    m.dims(r, c) && forall|i: int, j: int| m.has(i, j) ==> #[trigger] m.el(i, j) == f(i, j)
}
pub open spec fn colsum<T>(p: Seq<Matrix<T>>, n: int) -> int decreases n { if n <= 0 { 0 } else { colsum(p, n - 1) + p[n - 1].ncols } }
pub open spec fn rowsum<T>(p: Seq<Matrix<T>>, n: int) -> int decreases n { if n <= 0 { 0 } else { rowsum(p, n - 1) + p[n - 1].nrows } }
pub proof fn lemma_colsum<T>(p: Seq<Matrix<T>>, k: int, n: int)
    requires 0 <= k <= n
    ensures 0 <= colsum(p, k) <= colsum(p, n), k < n ==> colsum(p, k) + p[k].ncols <= colsum(p, n)
    decreases n
{ if n > 0 { if k < n { lemma_colsum(p, k, n - 1); } else { lemma_colsum(p, n - 1, n - 1); } } }
pub proof fn lemma_rowsum<T>(p: Seq<Matrix<T>>, k: int, n: int)
    requires 0 <= k <= n
    ensures 0 <= rowsum(p, k) <= rowsum(p, n), k < n ==> rowsum(p, k) + p[k].nrows <= rowsum(p, n)
    decreases n
{ if n > 0 { if k < n { lemma_rowsum(p, k, n - 1); } else { lemma_rowsum(p, n - 1, n - 1); } } }

@template MATZ S V Z O
impl Matrix<$S> {
    #[verifier::inline]
    pub open spec fn at(self, i: int, j: int) -> $V { self.el(i, j).v() }
    /// zero and identity matrices
    pub open spec fn is_id(self) -> bool { self.nrows == self.ncols && forall|i: int, j: int| self.has(i, j) ==> (#[trigger] self.el(i, j)).v() == (if i == j { $O } else { $Z }) }

@fn arithmetic/matrices.rs :: Matrix<T>::zero
    inst $S
    sub T=$S
@spec
    ensures res.dims(nrows as int, ncols as int), forall|i: int, j: int| res.has(i, j) ==> (#[trigger] res.el(i, j)).v() == $Z
@at end
    proof {
        let (nr, nc) = (nrows as int, ncols as int);
        if nc == 0 { assert(nr * nc == 0) by (nonlinear_arith) requires nc == 0; }
        if nr * nc != 0 { assert(res.nrows == nr) by (nonlinear_arith) requires res.nrows * nc == nr * nc, nc > 0; }
        assert forall|i: int, j: int| res.has(i, j) implies (#[trigger] res.el(i, j)).v() == $Z by { lemma_idx(i, j, res.nrows as int, res.ncols as int); }
    }
@endfn

@fn arithmetic/matrices.rs :: Matrix<T>::unit_vector
    inst $S
    sub T=$S Matrix::zero=Matrix::<$S>::zero
@spec
    ensures k < n, res.dims(1, n as int), forall|j: int| res.has(0, j) ==> (#[trigger] res.el(0, j)).v() == (if j == k { $O } else { $Z })
@at let row
    let ghost row0 = row;
@at end
    proof { lemma_update_el(row0, res, 0, k as int); assert(res.has(0, k as int)); }
@endfn

@fn arithmetic/matrices.rs :: Matrix<T>::identity
    inst $S
    sub T=$S Matrix::zero=Matrix::<$S>::zero
@spec
    ensures res.dims(n as int, n as int), res.is_id(), res.nrows == n
@loop 1
    id.dims(n as int, n as int), forall|p: int, q: int| id.has(p, q) ==> (#[trigger] id.el(p, q)).v() == (if p == q && p < it1 { $O } else { $Z })
@at loop 1 start
    let ghost id0 = id;
@at loop 1 end
    proof { lemma_update_el(id0, id, i as int, i as int); }
@at end
    proof { if n == 0 { assert(n * n == 0); } else { assert(n * n != 0) by (nonlinear_arith) requires n > 0; } }
@endfn

@fn arithmetic/matrices.rs :: Matrix<T>::is_identity
    inst $S
    sub T=$S
@spec
    requires self.wf()
    ensures res == self.is_id()
@loop 1
    nrows == self.nrows, ncols == self.ncols,
    forall|p: int, q: int| self.has(p, q) && p < it1 ==> (#[trigger] self.el(p, q)).v() == (if p == q { $O } else { $Z })
@loop 2
    forall|q: int| 0 <= q < it2 ==> (#[trigger] self.el(i as int, q)).v() == (if i == q { $O } else { $Z })
@at ret 2
    proof { assert(self.has(i as int, j as int)); assert(self.at(i as int, j as int) != (if i == j { $O } else { $Z })); }
@at ret 3
    proof { assert(self.has(i as int, j as int)); assert(self.at(i as int, j as int) != (if i == j { $O } else { $Z })); }
@endfn
}
@endtemplate
@expand MATZ S=Rat V=real Z=0real O=1real
@expand MATZ S=Int V=int Z=0int O=1int
