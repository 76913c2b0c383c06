@# solve_row, solve, null_space and inverse of src/arithmetic/linear_algebra.rs
@template SOLVE L S V Z O C M
impl $L {
    /// entry col of the row solution r: a_0 x_0 + .. + a_k r == b, where x has k rows
    pub open spec fn solved(a: Seq<$V>, x: Seq<Seq<$V>>, b: $V, r: $V, col: int) -> bool {
        Self::dotp(a, Self::colv(x, col), x.len() as int) + a[x.len() as int] * r == b
    }
    pub open spec fn row_solved(a: Seq<$V>, x: Seq<Seq<$V>>, b: Seq<$V>, r: Seq<$V>) -> bool {
        r.len() == b.len() && forall|col: int| 0 <= col < b.len() ==> #[trigger] Self::solved(a, x, b[col], r[col], col)
    }
    pub open spec fn row_unsolvable(a: Seq<$V>, x: Seq<Seq<$V>>, b: Seq<$V>) -> bool {
        exists|col: int| 0 <= col < b.len() && #[trigger] Self::no_entry(a, x, b[col], col)
    }
    pub open spec fn no_entry(a: Seq<$V>, x: Seq<Seq<$V>>, b: $V, col: int) -> bool { forall|r: $V| !#[trigger] Self::solved(a, x, b, r, col) }
    /// no x of c rows satisfies a x == b
    pub open spec fn unsolvable(a: Seq<Seq<$V>>, b: Seq<Seq<$V>>, c: int, d: int) -> bool {
        forall|x: Seq<Seq<$V>>| x.len() == c && Self::width(x, d) ==> !#[trigger] Self::sat(a, x, b, c, d)
    }
    pub proof fn lemma_inconsistent(t: Seq<Seq<$V>>, c: int, d: int, q: int)
        requires c >= 0, d >= 0, Self::echelon(t, c + d), Self::split(t, c, q), q < t.len()
        ensures Self::unsolvable(Self::lt(t, c), Self::rt(t, c), c, d)
    {
        let (a, b, i) = (Self::lt(t, c), Self::rt(t, c), t.len() - 1);
        assert(t[i].len() == c + d);
        assert(Self::piv(t[i]) >= c);
        Self::lemma_piv_take(t[i], c);
        Self::lemma_piv(t[i]);
        assert(b[i][Self::piv(t[i]) - c] == t[i][Self::piv(t[i])]);
        assert forall|x: Seq<Seq<$V>>| x.len() == c && Self::width(x, d) implies !#[trigger] Self::sat(a, x, b, c, d) by {
            if Self::sat(a, x, b, c, d) {
                assert(Self::lc(a[i], x, d, c) == b[i]);
                Self::lemma_lc_zero(a[i], x, d, c, c);
                assert(false);
            }
        }
    }
    /// triangular systems determine their solutions
    pub proof fn lemma_forced(a: Seq<Seq<$V>>, u: Seq<$V>, v: Seq<$V>, i: int)
        requires 0 <= i <= a.len(), forall|l: int| 0 <= l < i ==> (#[trigger] a[l])[l] != $Z && Self::dotp(a[l], u, l + 1) == Self::dotp(a[l], v, l + 1)
        ensures forall|l: int| 0 <= l < i ==> #[trigger] u[l] == v[l]
        decreases i
    {
        if i > 0 {
            Self::lemma_forced(a, u, v, i - 1);
            let l = i - 1;
            let (x, y, z) = (a[l][l], u[l], v[l]);
            assert(Self::dotp(a[l], u, l + 1) == Self::dotp(a[l], v, l + 1));
            Self::lemma_dotp_ext(a[l], u, a[l], v, l);
            assert(y == z) by (nonlinear_arith) requires x * y == x * z, x != $Z;
        }
    }
    /// column l of t, for an echelon form t of [a^T | 1]
    pub proof fn lemma_triangular(a: Seq<Seq<$V>>, c: int, t: Seq<Seq<$V>>, l: int)
        requires c >= 0, Self::echelon(a, c), Self::reduced(t, a.len() + c), Self::span_eq(t, Self::augt(a, c), a.len() + c), 0 <= l < a.len()
        ensures a.len() <= t.len(), Self::colv(t, l)[l] != $Z, forall|i: int| l < i < t.len() ==> #[trigger] Self::colv(t, l)[i] == $Z,
?L=LinR            Self::colv(t, l)[l] == $O, forall|i: int| 0 <= i < l ==> #[trigger] Self::colv(t, l)[i] == $Z,
    {
        Self::lemma_augt_pivots(a, c, t);
        let n = a.len() + c;
        let v = Self::colv(t, l);
        assert(Self::piv(t[l]) == l);
        Self::lemma_piv(t[l]);
        assert(t[l].len() == n);
?L=LinR        assert(Self::unit(t[l]));
?L=LinR        assert forall|i: int| 0 <= i < l implies #[trigger] v[i] == $Z by { assert(Self::below(t[i], t[l])); }
        assert forall|i: int| l < i < t.len() implies #[trigger] v[i] == $Z by {
            assert(t[i].len() == n);
            Self::lemma_piv(t[i]);
            if i < a.len() { assert(Self::piv(t[i]) == i); } else { assert(Self::piv(t[i]) >= a.len()); }
            assert(t[i][l] == $Z);
        }
    }
    /// the equations of the rows before i are met by x
    pub open spec fn partial(t: Seq<Seq<$V>>, x: Seq<Seq<$V>>, b: Seq<Seq<$V>>, d: int, i: int) -> bool {
        &&& Self::width(x, d)
        &&& forall|l: int, col: int| 0 <= l < i && 0 <= col < d ==> Self::met(t, x, b, l, col)
    }
    pub open spec fn met(t: Seq<Seq<$V>>, x: Seq<Seq<$V>>, b: Seq<Seq<$V>>, l: int, col: int) -> bool { Self::dotp(Self::colv(t, l), Self::colv(x, col), l + 1) == b[l][col] }
    pub proof fn lemma_partial_step(t: Seq<Seq<$V>>, x: Seq<Seq<$V>>, b: Seq<Seq<$V>>, d: int, w: Seq<$V>)
        requires Self::partial(t, x, b, d, x.len() as int), x.len() < b.len(), Self::width(b, d), Self::row_solved(Self::colv(t, x.len() as int), x, b[x.len() as int], w), d >= 0
        ensures Self::partial(t, x.push(w), b, d, x.len() as int + 1)
    {
        let (y, i) = (x.push(w), x.len() as int);
        assert(b[i].len() == d);
        assert forall|l: int| 0 <= l < y.len() implies (#[trigger] y[l]).len() == d by { if l < i { assert(x[l].len() == d); } }
        assert forall|l: int, col: int| 0 <= l < i + 1 && 0 <= col < d implies Self::met(t, y, b, l, col) by {
            let (cx, cy, a) = (Self::colv(x, col), Self::colv(y, col), Self::colv(t, l));
            assert forall|j: int| 0 <= j < i implies #[trigger] cx[j] == cy[j] by { }
            if l < i { assert(Self::met(t, x, b, l, col)); Self::lemma_dotp_ext(a, cx, a, cy, l + 1); }
            else { assert(Self::solved(a, x, b[i][col], w[col], col)); Self::lemma_dotp_ext(a, cx, a, cy, i); }
        }
    }
    pub proof fn lemma_partial_pad(t: Seq<Seq<$V>>, x: Seq<Seq<$V>>, b: Seq<Seq<$V>>, d: int, k: int, w: Seq<$V>)
        requires Self::partial(t, x, b, d, k), k <= x.len(), w.len() == d
        ensures Self::partial(t, x.push(w), b, d, k)
    {
        let y = x.push(w);
        assert forall|l: int| 0 <= l < y.len() implies (#[trigger] y[l]).len() == d by { if l < x.len() { assert(x[l].len() == d); } }
        assert forall|l: int, col: int| 0 <= l < k && 0 <= col < d implies Self::met(t, y, b, l, col) by {
            let (cx, cy, a) = (Self::colv(x, col), Self::colv(y, col), Self::colv(t, l));
            assert forall|j: int| 0 <= j < x.len() implies #[trigger] cx[j] == cy[j] by { }
            assert(Self::met(t, x, b, l, col));
            Self::lemma_dotp_ext(a, cx, a, cy, l + 1);
        }
    }
    /// if row i cannot be solved, nothing can
    pub proof fn lemma_no_row(a: Seq<Seq<$V>>, c: int, t: Seq<Seq<$V>>, x: Seq<Seq<$V>>, b: Seq<Seq<$V>>, d: int)
        requires c >= 0, d >= 0, Self::echelon(a, c), Self::reduced(t, a.len() + c), Self::span_eq(t, Self::augt(a, c), a.len() + c), a.len() == b.len(), x.len() < b.len(), Self::width(b, d),
            Self::partial(t, x, b, d, x.len() as int), Self::row_unsolvable(Self::colv(t, x.len() as int), x, b[x.len() as int])
        ensures Self::unsolvable(a, b, c, d)
    {
        let i = x.len() as int;
        let bi = b[i];
        assert(bi.len() == d);
        let ai = Self::colv(t, i);
        let col = choose|col: int| 0 <= col < bi.len() && #[trigger] Self::no_entry(ai, x, bi[col], col);
        Self::lemma_augt_pivots(a, c, t);
        assert forall|z: Seq<Seq<$V>>| z.len() == c && Self::width(z, d) implies !#[trigger] Self::sat(a, z, b, c, d) by {
            if Self::sat(a, z, b, c, d) {
                let zc = Self::colv(z, col);
                let y = Self::lemma_augt_spans(a, c, t, zc);
                let (n, m) = (a.len() + c, t.len() as int);
                let rows = Seq::new(i as nat, |l: int| Self::colv(t, l));
                let xc = Self::colv(x, col);
                assert forall|l: int| 0 <= l < a.len() implies #[trigger] Self::dotp(Self::colv(t, l), y, l + 1) == b[l][col] by {
                    let tl = Self::colv(t, l);
                    Self::lemma_lc_dot(y, t, n, m, l);
                    assert(Self::lc(a[l], z, d, c) == b[l]);
                    Self::lemma_lc_dot(a[l], z, d, c, col);
                    Self::lemma_dotp_sym(y, tl, m);
                    Self::lemma_triangular(a, c, t, l);
                    Self::lemma_dotp_tail(tl, y, l + 1, m);
                }
                assert forall|l: int| 0 <= l < i implies (#[trigger] rows[l])[l] != $Z && Self::dotp(rows[l], xc, l + 1) == Self::dotp(rows[l], y, l + 1) by {
                    Self::lemma_triangular(a, c, t, l);
                    assert(Self::met(t, x, b, l, col));
                    assert(Self::dotp(Self::colv(t, l), y, l + 1) == b[l][col]);
                }
                Self::lemma_forced(rows, xc, y, i);
                assert(Self::dotp(Self::colv(t, i), y, i + 1) == b[i][col]);
                Self::lemma_dotp_ext(ai, xc, ai, y, i);
                assert(Self::solved(ai, x, bi[col], y[i], col));
                assert(false);
            }
        }
    }
    /// u x solves the system, for the x that satisfies the triangular one
    pub proof fn lemma_solution(a: Seq<Seq<$V>>, c: int, t: Seq<Seq<$V>>, x: Seq<Seq<$V>>, b: Seq<Seq<$V>>, d: int, u: Seq<Seq<$V>>, z: Seq<Seq<$V>>)
        requires c >= 0, d >= 0, Self::echelon(a, c), Self::reduced(t, a.len() + c), Self::span_eq(t, Self::augt(a, c), a.len() + c), a.len() == b.len(), Self::width(b, d),
            x.len() == t.len(), Self::partial(t, x, b, d, a.len() as int),
            u.len() == c, Self::width(u, t.len() as int), forall|j: int, l: int| 0 <= j < c && 0 <= l < t.len() ==> #[trigger] u[j][l] == t[l][a.len() + j],
            z.len() == c, forall|j: int| 0 <= j < c ==> #[trigger] z[j] == Self::lc(u[j], x, d, x.len() as int)
        ensures Self::sat(a, z, b, c, d)
    {
        let m = t.len() as int;
        let k = a.len() as int;
        assert forall|i: int| 0 <= i < a.len() implies Self::lc(#[trigger] a[i], z, d, c) == b[i] by {
            assert(a[i].len() == c);
            assert(b[i].len() == d);
            Self::lemma_lc_assoc(a[i], u, x, z, m, d, c);
            let (w, ti) = (Self::lc(a[i], u, m, c), Self::colv(t, i));
            Self::lemma_lc_len(a[i], u, m, c);
            Self::lemma_triangular(a, c, t, i);
            assert forall|l: int| 0 <= l < m implies w[l] == #[trigger] ti[l] by {
                Self::lemma_lc_dot(a[i], u, m, c, l);
                assert(t[l].len() == k + c);
                Self::lemma_augt_row(a, c, t, l);
                let (p, q) = (Self::colv(u, l), Self::rt(t, k)[l]);
                assert forall|j: int| 0 <= j < c implies #[trigger] p[j] == q[j] by { assert(u[j][l] == t[l][k + j]); }
                Self::lemma_dotp_ext(a[i], p, a[i], q, c);
                assert(t[l][i] == Self::dotp(a[i], q, c));
            }
            assert(w =~= ti);
            Self::lemma_lc_len(w, x, d, m);
            assert forall|col: int| 0 <= col < d implies #[trigger] Self::lc(w, x, d, m)[col] == b[i][col] by {
                Self::lemma_lc_dot(w, x, d, m, col);
                assert(Self::met(t, x, b, i, col));
                Self::lemma_dotp_tail(ti, Self::colv(x, col), i + 1, m);
            }
            assert(Self::lc(w, x, d, m) =~= b[i]);
        }
    }
    /// matrix products, row by row
    pub proof fn lemma_dot_lc(a: $M, b: $M, i: int, j: int, k: int)
        requires 0 <= i < a.nrows, 0 <= j < b.ncols, 0 <= k <= b.nrows, b.nrows == a.ncols
        ensures $M::dot(a, b, i, j, k) == Self::lc(Self::mrow(a, i), Self::mrows(b), b.ncols as int, k)[j]
        decreases k
    {
        Self::lemma_lc_len(Self::mrow(a, i), Self::mrows(b), b.ncols as int, k);
        if k > 0 {
            Self::lemma_dot_lc(a, b, i, j, k - 1);
            Self::lemma_lc_len(Self::mrow(a, i), Self::mrows(b), b.ncols as int, k - 1);
            let z = Self::lc(Self::mrow(a, i), Self::mrows(b), b.ncols as int, k - 1)[j];
            assert($O * z == z) by (nonlinear_arith);
            let (p, q) = (Self::mrow(a, i)[k - 1], Self::mrows(b)[k - 1][j]);
            assert(p == a.at(i, k - 1) && q == b.at(k - 1, j));
            assert(p * q == q * p) by (nonlinear_arith);
        }
    }
    pub proof fn lemma_prod_rows(a: $M, b: $M, o: $M)
        requires $M::is_prod(a, b, o), o.nrows == a.nrows
        ensures forall|i: int| 0 <= i < a.nrows ==> #[trigger] Self::mrows(o)[i] == Self::lc(Self::mrows(a)[i], Self::mrows(b), b.ncols as int, b.nrows as int)
    {
        assert forall|i: int| 0 <= i < a.nrows implies #[trigger] Self::mrows(o)[i] == Self::lc(Self::mrows(a)[i], Self::mrows(b), b.ncols as int, b.nrows as int) by {
            let (l, r) = (Self::mrows(o)[i], Self::lc(Self::mrows(a)[i], Self::mrows(b), b.ncols as int, b.nrows as int));
            Self::lemma_lc_len(Self::mrows(a)[i], Self::mrows(b), b.ncols as int, b.nrows as int);
            assert forall|j: int| 0 <= j < b.ncols implies #[trigger] l[j] == r[j] by { Self::lemma_dot_lc(a, b, i, j, b.nrows as int); assert(o.has(i, j)); }
            assert(l =~= r);
        }
    }
    /// the solutions X of A X = B are the matrices whose product with A is B
    pub proof fn lemma_sat_prod(a: $M, x: $M, b: $M)
        requires a.wf(), b.wf(), x.wf(), a.nrows > 0, a.ncols > 0, b.ncols > 0, a.nrows == b.nrows, x.nrows == a.ncols, x.ncols == b.ncols
        ensures $M::is_prod(a, x, b) <==> Self::sat(Self::mrows(a), Self::mrows(x), Self::mrows(b), a.ncols as int, b.ncols as int)
    {
        if $M::is_prod(a, x, b) { Self::lemma_prod_rows(a, x, b); }
        if Self::sat(Self::mrows(a), Self::mrows(x), Self::mrows(b), a.ncols as int, b.ncols as int) {
            assert forall|i: int, j: int| b.has(i, j) implies (#[trigger] b.el(i, j)).v() == $M::dot(a, x, i, j, a.ncols as int) by {
                assert(Self::lc(Self::mrows(a)[i], Self::mrows(x), b.ncols as int, a.ncols as int) == Self::mrows(b)[i]);
                Self::lemma_dot_lc(a, x, i, j, x.nrows as int);
                assert(Self::mrows(b)[i][j] == b.at(i, j));
            }
            assert(b.nrows * b.ncols != 0) by (nonlinear_arith) requires b.nrows > 0, b.ncols > 0;
        }
    }
    pub open spec fn canon(m: $M) -> bool { m.wf() && (m.nrows > 0 ==> m.ncols > 0) }
    pub open spec fn is_hstack(a: $M, b: $M, h: $M) -> bool {
        &&& h.wf() && h.nrows == a.nrows && h.ncols == a.ncols + b.ncols && a.nrows == b.nrows
        &&& forall|i: int, j: int| #[trigger] a.has(i, j) ==> h.el(i, j) == a.el(i, j)
        &&& forall|i: int, j: int| #[trigger] b.has(i, j) ==> h.el(i, a.ncols + j) == b.el(i, j)
    }
    pub proof fn lemma_hstack_rows(a: $M, b: $M, h: $M)
        requires Self::is_hstack(a, b, h)
        ensures Self::lt(Self::mrows(h), a.ncols as int) == Self::mrows(a), Self::rt(Self::mrows(h), a.ncols as int) == Self::mrows(b), Self::width(Self::mrows(h), a.ncols + b.ncols),
            forall|i: int| 0 <= i < h.nrows ==> #[trigger] Self::mrows(h)[i] == Self::mrow(a, i) + Self::mrow(b, i)
    {
        let t = Self::mrows(h);
        assert forall|i: int| 0 <= i < h.nrows implies #[trigger] t[i] == Self::mrow(a, i) + Self::mrow(b, i) by {
            assert forall|j: int| 0 <= j < h.ncols implies t[i][j] == (Self::mrow(a, i) + Self::mrow(b, i))[j] by {
                if j < a.ncols { assert(a.has(i, j)); } else { assert(b.has(i, j - a.ncols)); }
            }
            assert(t[i] =~= Self::mrow(a, i) + Self::mrow(b, i));
        }
        let (l, r) = (Self::lt(t, a.ncols as int), Self::rt(t, a.ncols as int));
        assert forall|i: int| #![trigger l[i]] #![trigger r[i]] 0 <= i < h.nrows implies l[i] == Self::mrows(a)[i] && r[i] == Self::mrows(b)[i] by {
            assert(t[i] == Self::mrow(a, i) + Self::mrow(b, i));
            assert(l[i] =~= Self::mrow(a, i));
            assert(r[i] =~= Self::mrow(b, i));
        }
        assert(l =~= Self::mrows(a));
        assert(r =~= Self::mrows(b));
    }
    /// [a | b], for the matrix hstack makes of them
    pub proof fn lemma_hstack2(a: $M, b: $M)
        requires a.wf(), b.wf(), a.nrows > 0 ==> a.ncols > 0, b.nrows > 0 ==> b.ncols > 0
        ensures forall|p: Seq<$M>, h: $M| #[trigger] hstacked(p, h) && p.len() == 2 && p[0] == a && p[1] == b ==> Self::is_hstack(a, b, h) &&
            Self::lt(Self::mrows(h), a.ncols as int) == Self::mrows(a) && Self::rt(Self::mrows(h), a.ncols as int) == Self::mrows(b) && Self::width(Self::mrows(h), a.ncols + b.ncols)
    {
        assert forall|p: Seq<$M>, h: $M| #[trigger] hstacked(p, h) && p.len() == 2 && p[0] == a && p[1] == b implies Self::is_hstack(a, b, h) &&
            Self::lt(Self::mrows(h), a.ncols as int) == Self::mrows(a) && Self::rt(Self::mrows(h), a.ncols as int) == Self::mrows(b) && Self::width(Self::mrows(h), a.ncols + b.ncols) by {
            assert(colsum(p, 0) == 0);
            assert(colsum(p, 1) == colsum(p, 0) + p[0].ncols);
            assert(colsum(p, 2) == colsum(p, 1) + p[1].ncols);
            assert forall|i: int, j: int| #[trigger] a.has(i, j) implies h.el(i, j) == a.el(i, j) by { assert(p[0].has(i, j)); }
            assert forall|i: int, j: int| #[trigger] b.has(i, j) implies h.el(i, a.ncols + j) == b.el(i, j) by { assert(p[1].has(i, j)); }
            assert(p[1].nrows == p[0].nrows);
            Self::lemma_hstack_rows(a, b, h);
        }
    }
    /// [l^T | 1]
    pub open spec fn is_augt(l: $M, p: Seq<$M>) -> bool {
        &&& p.len() == 2 && p[0].dims(l.ncols as int, l.nrows as int) && p[1].dims(l.ncols as int, l.ncols as int) && p[1].is_id()
        &&& forall|i: int, j: int| l.has(i, j) ==> #[trigger] p[0].el(j, i) == l.el(i, j)
    }
    pub proof fn lemma_hstack_augt(l: $M)
        requires l.wf(), l.nrows > 0, l.ncols > 0
        ensures forall|p: Seq<$M>, h: $M| #[trigger] hstacked(p, h) && Self::is_augt(l, p) ==>
            h.wf() && h.nrows == l.ncols && h.ncols == l.nrows + l.ncols && Self::mrows(h) == Self::augt(Self::mrows(l), l.ncols as int)
    {
        let (k, c) = (l.nrows as int, l.ncols as int);
        assert(c * k != 0 && c * c != 0) by (nonlinear_arith) requires k > 0, c > 0;
        assert forall|p: Seq<$M>, h: $M| #[trigger] hstacked(p, h) && Self::is_augt(l, p) implies
            h.wf() && h.nrows == l.ncols && h.ncols == l.nrows + l.ncols && Self::mrows(h) == Self::augt(Self::mrows(l), l.ncols as int) by {
            let (lt, id) = (p[0], p[1]);
            Self::lemma_hstack2(lt, id);
            Self::lemma_hstack_rows(lt, id, h);
            let (s, t) = (Self::mrows(h), Self::augt(Self::mrows(l), c));
            assert forall|i: int| 0 <= i < c implies #[trigger] s[i] == t[i] by {
                assert forall|j: int| 0 <= j < k implies Self::mrow(lt, i)[j] == Self::colv(Self::mrows(l), i)[j] by { assert(l.has(j, i)); assert(lt.el(i, j) == l.el(j, i)); }
                assert forall|j: int| 0 <= j < c implies Self::mrow(id, i)[j] == Self::unitc(c, i)[j] by { assert(id.has(i, j)); }
                assert(Self::mrow(lt, i) =~= Self::colv(Self::mrows(l), i));
                assert(Self::mrow(id, i) =~= Self::unitc(c, i));
            }
            assert(s =~= t);
        }
    }
    /// blocks of t
    pub proof fn lemma_lt_rows(t: $M, c: int, l: $M, r: $M)
        requires t.wf(), 0 < c < t.ncols, t.nrows > 0, l.dims(t.nrows as int, c), r.dims(t.nrows as int, t.ncols - c),
            forall|i: int, j: int| l.has(i, j) ==> #[trigger] l.el(i, j) == t.el(i, j), forall|i: int, j: int| r.has(i, j) ==> #[trigger] r.el(i, j) == t.el(i, c + j)
        ensures Self::mrows(l) == Self::lt(Self::mrows(t), c), Self::mrows(r) == Self::rt(Self::mrows(t), c), l.nrows == t.nrows, r.nrows == t.nrows
    {
        assert(t.nrows * c != 0) by (nonlinear_arith) requires t.nrows > 0, c > 0;
        let e = t.ncols - c;
        assert(t.nrows * e != 0) by (nonlinear_arith) requires t.nrows > 0, e > 0;
        let (x, y) = (Self::lt(Self::mrows(t), c), Self::rt(Self::mrows(t), c));
        assert forall|i: int| #![trigger Self::mrows(l)[i]] #![trigger Self::mrows(r)[i]] 0 <= i < t.nrows implies Self::mrows(l)[i] == x[i] && Self::mrows(r)[i] == y[i] by {
            assert forall|j: int| 0 <= j < c implies Self::mrows(l)[i][j] == x[i][j] by { assert(l.has(i, j)); }
            assert(Self::mrows(l)[i] =~= x[i]);
            assert forall|j: int| 0 <= j < e implies Self::mrows(r)[i][j] == y[i][j] by { assert(r.has(i, j)); }
            assert(Self::mrows(r)[i] =~= y[i]);
        }
        assert(Self::mrows(l) =~= x);
        assert(Self::mrows(r) =~= y);
    }
}
@endtemplate
@expand SOLVE L=LinR S=Rat V=real Z=0real O=1real C=Rat M=Matrix::<Rat>
@expand SOLVE L=LinZ S=Int V=int Z=0int O=1int C=i64 M=Matrix::<Int>
@fn arithmetic/linear_algebra.rs :: Scalar for BigRational::solve_row
    as solve_row_Rat
    sub Self=Rat
@spec
    requires _x@.len() < _a@.len(), LinR::vv(_a@)[_x@.len() as int] == 1real, forall|i: int| 0 <= i < _x@.len() ==> #[trigger] LinR::vv(_a@)[i] == 0real
    ensures res matches Some(r) && LinR::row_solved(LinR::vv(_a@), LinR::rows(_x@), LinR::vv(b@), LinR::vv(r@))
@at end
    proof {
        let (a, x) = (LinR::vv(_a@), LinR::rows(_x@));
        assert forall|col: int, r: real| #[trigger] LinR::solved(a, x, r, r, col) by { LinR::lemma_dotp_zero(a, LinR::colv(x, col), x.len() as int); }
    }
@endfn
pub proof fn lemma_trem_mult(t: int, a: int, r: int)
    requires a != 0, a * r == t
    ensures trem(t, a) == 0
{
    lemma_tdiv(t, a);
    let (q, m) = (tdiv(t, a), trem(t, a));
    assert(a * (r - q) == m) by (nonlinear_arith) requires a * r == t, m == t - a * q;
    let d = r - q;
    assert(m == 0) by (nonlinear_arith) requires a * d == m, -a < m < a || a < m < -a, a != 0;
}
@fn arithmetic/linear_algebra.rs :: solve_row_primitive_int
    sub T=Int
    cmp
@spec
    requires x@.len() < a@.len(), LinZ::vv(a@)[x@.len() as int] != 0, LinZ::width(LinZ::rows(x@), b@.len() as int)
    ensures res matches Some(r) ==> LinZ::row_solved(LinZ::vv(a@), LinZ::rows(x@), LinZ::vv(b@), LinZ::vv(r@)),
        res is None ==> LinZ::row_unsolvable(LinZ::vv(a@), LinZ::rows(x@), LinZ::vv(b@))
@loop 1
    k == x@.len(), end1 == b@.len(), result@.len() == b@.len(),
    forall|c: int| 0 <= c < it1 ==> #[trigger] LinZ::solved(LinZ::vv(a@), LinZ::rows(x@), LinZ::vv(b@)[c], LinZ::vv(result@)[c], c)
@loop 2
    k == x@.len(), t.v() == b@[col as int].v() - LinZ::dotp(LinZ::vv(a@), LinZ::colv(LinZ::rows(x@), col as int), it2 as int)
@at loop 2 start
    proof { let h = it2 - 1; assert(LinZ::rows(x@)[h].len() == b@.len()); assert(LinZ::colv(LinZ::rows(x@), col as int)[h] == x@[h]@[col as int].v()); }
@at loop 1 start
    let ghost res0 = LinZ::vv(result@);
@at ret 1
    proof {
        let (av, xv, bv) = (LinZ::vv(a@), LinZ::rows(x@), LinZ::vv(b@));
        let c = it1 - 1;
        assert(trem(t.v(), av[k as int]) != 0);
        assert forall|r: int| !#[trigger] LinZ::solved(av, xv, bv[c], r, c) by {
            if LinZ::solved(av, xv, bv[c], r, c) { lemma_trem_mult(t.v(), av[k as int], r); }
        }
        assert(LinZ::no_entry(av, xv, bv[c], c));
    }
@at loop 1 end
    proof {
        let (av, xv, bv, rv) = (LinZ::vv(a@), LinZ::rows(x@), LinZ::vv(b@), LinZ::vv(result@));
        let e = it1 - 1;
        assert(trem(t.v(), av[k as int]) == 0);
        assert(rv[e] == tdiv(t.v(), av[k as int]));
        assert(LinZ::solved(av, xv, bv[e], rv[e], e));
        assert forall|c: int| 0 <= c < it1 implies #[trigger] LinZ::solved(av, xv, bv[c], rv[c], c) by { if c < e { assert(rv[c] == res0[c]); assert(LinZ::solved(av, xv, bv[c], res0[c], c)); } }
    }
@endfn
@template SOLVEROW T
@fn arithmetic/linear_algebra.rs :: Scalar for $T::solve_row
    as solve_row_$T
    sub Self=Int
    inst $T
@spec
    requires x@.len() < a@.len(), LinZ::vv(a@)[x@.len() as int] != 0, LinZ::width(LinZ::rows(x@), b@.len() as int)
    ensures res matches Some(r) ==> LinZ::row_solved(LinZ::vv(a@), LinZ::rows(x@), LinZ::vv(b@), LinZ::vv(r@)),
        res is None ==> LinZ::row_unsolvable(LinZ::vv(a@), LinZ::rows(x@), LinZ::vv(b@))
@endfn
@endtemplate
@expand SOLVEROW T=i32
@expand SOLVEROW T=i64
@template NULL0 L S V Z O C M
impl $L {
    /// a x == 0
    pub open spec fn kernel(a: Seq<Seq<$V>>, c: int, x: Seq<$V>) -> bool { x.len() == c && forall|i: int| 0 <= i < a.len() ==> Self::dotp(#[trigger] a[i], x, c) == $Z }
    pub open spec fn independent(u: Seq<Seq<$V>>, c: int) -> bool {
        forall|y: Seq<$V>| y.len() == u.len() && #[trigger] Self::lc(y, u, c, u.len() as int) == Self::zero(c) ==> y == Self::zero(u.len() as int)
    }
    /// u is a basis of the vectors that a takes to zero
    pub open spec fn null_basis(a: Seq<Seq<$V>>, c: int, u: Seq<Seq<$V>>) -> bool {
        &&& forall|l: int| 0 <= l < u.len() ==> Self::kernel(a, c, #[trigger] u[l])
        &&& Self::independent(u, c)
        &&& forall|x: Seq<$V>| #[trigger] Self::kernel(a, c, x) ==> Self::spans(u, c, x)
    }
    pub proof fn lemma_dotp_from(u: Seq<$V>, v: Seq<$V>, q: int, m: int)
        requires 0 <= q <= m, u.len() == m, v.len() == m, forall|i: int| 0 <= i < q ==> #[trigger] u[i] == $Z
        ensures Self::dotp(u, v, m) == Self::dotp(u.subrange(q, m), v.subrange(q, m), m - q)
    { Self::lemma_dotp_from_k(u, v, q, m, m); }
    pub proof fn lemma_dotp_from_k(u: Seq<$V>, v: Seq<$V>, q: int, k: int, m: int)
        requires 0 <= q <= k <= m, u.len() == m, v.len() == m, forall|i: int| 0 <= i < q ==> #[trigger] u[i] == $Z
        ensures Self::dotp(u, v, k) == Self::dotp(u.subrange(q, m), v.subrange(q, m), k - q)
        decreases k
    {
        if k > q { Self::lemma_dotp_from_k(u, v, q, k - 1, m); assert(u.subrange(q, m)[k - 1 - q] == u[k - 1] && v.subrange(q, m)[k - 1 - q] == v[k - 1]); }
        else { Self::lemma_dotp_zero(u, v, q); }
    }
    pub proof fn lemma_null(a: Seq<Seq<$V>>, c: int, t: Seq<Seq<$V>>, q: int)
        requires c > 0, Self::width(a, c), Self::echelon(t, a.len() + c), Self::span_eq(t, Self::augt(a, c), a.len() + c), Self::split(t, a.len() as int, q)
        ensures Self::null_basis(a, c, Self::rt(t, a.len() as int).subrange(q, t.len() as int)), t.len() > 0
    {
        let (r, n, m) = (a.len() as int, a.len() + c, t.len() as int);
        let w = Self::rt(t, r);
        let u = w.subrange(q, m);
        assert forall|l: int| q <= l < m implies (#[trigger] w[l]).len() == c && Self::piv(w[l]) == Self::piv(t[l]) - r by { assert(t[l].len() == n); assert(Self::piv(t[l]) >= r); Self::lemma_piv_take(t[l], r); }
        assert forall|l: int| 0 <= l < u.len() implies Self::kernel(a, c, #[trigger] u[l]) by {
            let h = q + l;
            assert(u[l] == w[h]);
            assert(t[h].len() == n);
            assert(w[h].len() == c);
            Self::lemma_augt_row(a, c, t, h);
            assert(Self::piv(t[h]) >= r);
            Self::lemma_piv(t[h]);
            assert forall|i: int| 0 <= i < a.len() implies Self::dotp(#[trigger] a[i], u[l], c) == $Z by { assert(t[h][i] == $Z); assert(t[h][i] == Self::dotp(a[i], w[h], c)); }
        }
        assert(Self::echelon(u, c)) by {
            assert forall|l: int| 0 <= l < u.len() implies (#[trigger] u[l]).len() == c && Self::piv(u[l]) < c by { assert(u[l] == w[q + l]); assert(w[q + l].len() == c); assert(Self::piv(t[q + l]) < n); }
            assert forall|i: int, j: int| 0 <= i < j < u.len() implies Self::piv(#[trigger] u[i]) < Self::piv(#[trigger] u[j]) by {
                assert(u[i] == w[q + i] && u[j] == w[q + j]);
                assert(Self::piv(t[q + i]) < Self::piv(t[q + j]));
                assert(Self::piv(w[q + i]) == Self::piv(t[q + i]) - r);
                assert(Self::piv(w[q + j]) == Self::piv(t[q + j]) - r);
            }
        }
        assert forall|y: Seq<$V>| y.len() == u.len() && #[trigger] Self::lc(y, u, c, u.len() as int) == Self::zero(c) implies y == Self::zero(u.len() as int) by { Self::lemma_indep(u, c, y); }
        assert forall|x: Seq<$V>| #[trigger] Self::kernel(a, c, x) implies Self::spans(u, c, x) by {
            let y = Self::lemma_augt_spans(a, c, t, x);
            let z = Self::lc(y, t, n, m);
            assert(forall|i: int| 0 <= i < r ==> #[trigger] z[i] == $Z);
            assert forall|i: int| 0 <= i < q implies #[trigger] y[i] == $Z by {
                let p = Self::piv(y);
                Self::lemma_piv(y);
                if p <= i {
                    Self::lemma_lc_lead(y, t, n, p, m);
                    assert(t[p].len() == n);
                    Self::lemma_piv(t[p]);
                    assert(Self::piv(t[p]) < r);
                    assert(z[Self::piv(t[p])] == $Z);
                    assert(y[p] * t[p][Self::piv(t[p])] != $Z) by (nonlinear_arith) requires y[p] != $Z, t[p][Self::piv(t[p])] != $Z;
                    assert(false);
                }
            }
            let v = y.subrange(q, m);
            Self::lemma_lc_len(v, u, c, m - q);
            assert forall|j: int| 0 <= j < c implies x[j] == #[trigger] Self::lc(v, u, c, m - q)[j] by {
                Self::lemma_lc_dot(v, u, c, m - q, j);
                Self::lemma_lc_dot(y, t, n, m, r + j);
                let cv = Self::colv(t, r + j);
                Self::lemma_dotp_from(y, cv, q, m);
                assert(z[r + j] == x[j]);
                assert forall|l: int| 0 <= l < m - q implies #[trigger] Self::colv(u, j)[l] == cv.subrange(q, m)[l] by { assert(u[l] == w[q + l]); assert(t[q + l].len() == n); }
                assert(Self::colv(u, j) =~= cv.subrange(q, m));
            }
            assert(x =~= Self::lc(v, u, c, m - q));
        }
        if m == 0 {
            let e = Self::unitc(c, 0);
            let y = Self::lemma_augt_spans(a, c, t, e);
            let z = Self::lc(y, t, n, m);
            assert(z[r] == e[0]);
            assert(z[r] == $Z);
            assert(false);
        }
    }
    pub proof fn lemma_null_all(a: Seq<Seq<$V>>, c: int, u: Seq<Seq<$V>>)
        requires c >= 0, a.len() == 0, u.len() == c, forall|i: int| 0 <= i < c ==> #[trigger] u[i] == Self::unitc(c, i)
        ensures Self::null_basis(a, c, u)
    {
        assert forall|y: Seq<$V>| y.len() == u.len() && #[trigger] Self::lc(y, u, c, u.len() as int) == Self::zero(c) implies y == Self::zero(u.len() as int) by { Self::lemma_lc_id(y, u, c, c); }
        assert forall|x: Seq<$V>| #[trigger] Self::kernel(a, c, x) implies Self::spans(u, c, x) by { Self::lemma_lc_id(x, u, c, c); assert(x == Self::lc(x, u, c, u.len() as int)); }
    }
    pub open spec fn idrows(n: int) -> Seq<Seq<$V>> { Seq::new(n as nat, |i: int| Self::unitc(n, i)) }
}
@endtemplate
@expand NULL0 L=LinR S=Rat V=real Z=0real O=1real C=Rat M=Matrix::<Rat>
@expand NULL0 L=LinZ S=Int V=int Z=0int O=1int C=i64 M=Matrix::<Int>
@template SOLVE2 L S V Z O C M
impl $M {
@fn arithmetic/linear_algebra.rs :: LinearAlgebra<T> for Matrix<T>::solve
    inst $S
    sub T=$S Matrix::zero=Matrix::<$S>::zero Matrix::identity=Matrix::<$S>::identity
    nopub
    call Scalar::solve_row=solve_row_$C
    accty 3 Vec<$M>
@spec
    requires $L::canon(*self), $L::canon(*rgt)
    ensures
        res matches Some(x) ==> x.dims(self.ncols as int, rgt.ncols as int) && $L::sat($L::mrows(*self), $L::mrows(x), $L::mrows(*rgt), self.ncols as int, rgt.ncols as int),
        res is None ==> $L::unsolvable($L::mrows(*self), $L::mrows(*rgt), self.ncols as int, rgt.ncols as int),
@at start
    let ghost (c, d, ma, mb) = (self.ncols as int, rgt.ncols as int, $L::mrows(*self), $L::mrows(*rgt));
    proof { $L::lemma_hstack2(*self, *rgt); }
@at let t 1
    let ghost tt = $L::mrows(t);
    proof {
        assert forall|x: Seq<Seq<$V>>| x.len() == c && $L::width(x, d) && self.nrows > 0 implies $L::sat($L::lt(tt, c), x, $L::rt(tt, c), c, d) == #[trigger] $L::sat(ma, x, mb, c, d) by {
            assert forall|h: $M| #[trigger] $L::is_hstack(*self, *rgt, h) && $L::span_eq(tt, $L::mrows(h), c + d) implies
                $L::sat($L::lt(tt, c), x, $L::rt(tt, c), c, d) == $L::sat(ma, x, mb, c, d) by { $L::lemma_hstack_rows(*self, *rgt, h); $L::lemma_sat_span(tt, $L::mrows(h), x, c, d); }
        }
    }
@at ret 1
    proof {
        if self.nrows > 0 { assert(c * d != 0) by (nonlinear_arith) requires c > 0, d > 0; }
        assert forall|z: $M| z.dims(c, d) implies $L::sat(ma, #[trigger] $L::mrows(z), mb, c, d) by {
            if self.nrows > 0 { let x = $L::mrows(z); assert($L::width(x, d)); assert($L::sat($L::lt(tt, c), x, $L::rt(tt, c), c, d)); }
        }
    }
@at let rgt
    let ghost (k, q) = (t.nrows as int, $L::lemma_split(tt, c + d, c, tt.len() as int));
    let ghost (ml, mr) = ($L::mrows(lft), $L::mrows(rgt));
    proof {
        $L::lemma_lt_rows(t, c, lft, rgt);
        $L::lemma_rank_lt(tt, c + d, c, q);
        assert forall|r: int| #[trigger] $L::rank_is(ml, c, r) implies r == q by { $L::lemma_rank_unique(ml, c, r, q); }
        assert(k > 0 && c > 0 && d > 0);
    }
@at ret 2
    proof { $L::lemma_inconsistent(tt, c, d, q); }
@at let t 2
    let ghost (t2, m) = ($L::mrows(t), t.nrows as int);
    proof {
        assert(ml.take(k) =~= ml);
        $L::lemma_hstack_augt(lft);
        assert($L::reduced(t2, k + c) && $L::span_eq(t2, $L::augt(ml, c), k + c));
        $L::lemma_augt_pivots(ml, c, t2);
    }
@at let u
    let ghost ur = $L::mrows(u);
    proof {
        assert(m * k != 0 && m * c != 0 && k * m != 0 && c * m != 0) by (nonlinear_arith) requires k > 0, c > 0, m > 0;
        assert forall|i: int, l: int| 0 <= i < k && 0 <= l < m implies #[trigger] b.el(i, l) == t.el(l, i) by { }
        assert forall|i: int, l: int| 0 <= i < c && 0 <= l < m implies #[trigger] u.el(i, l) == t.el(l, k + i) by { }
        assert forall|i: int, l: int| 0 <= i < c && 0 <= l < m implies #[trigger] ur[i][l] == t2[l][k + i] by { assert(u.el(i, l) == t.el(l, k + i)); }
        assert forall|i: int| 0 <= i < k implies #[trigger] $L::mrows(b)[i] == $L::colv(t2, i) by {
            assert forall|j: int| 0 <= j < m implies #[trigger] $L::mrows(b)[i][j] == $L::colv(t2, i)[j] by { assert(b.el(i, j) == t.el(j, i)); }
            assert($L::mrows(b)[i] =~= $L::colv(t2, i));
        }
    }
@loop 1
    end1 == k, k <= m, x@.len() == it1, $L::partial(t2, $L::rows(x@), mr, d, it1 as int),
@at loop 1 start
    let ghost (x0, i0) = ($L::rows(x@), it1 - 1);
    proof { $L::lemma_triangular(ml, c, t2, i0); $L::lemma_row_vec(rgt, i0); $L::lemma_row_vec(b, i0); assert(mr[i0].len() == d); }
@at loop 1 end
    proof { let w = $L::rows(x@)[i0]; assert($L::rows(x@) =~= x0.push(w)); $L::lemma_partial_step(t2, x0, mr, d, w); }
@at ret 3
    proof { $L::lemma_no_row(ml, c, t2, x0, mr, d); }
@loop 2
    end2 == m, x@.len() == it2, $L::partial(t2, $L::rows(x@), mr, d, k),
@at loop 2 start
    let ghost x1 = $L::rows(x@);
@at loop 2 end
    proof { let w = $L::rows(x@)[x@.len() - 1]; assert($L::rows(x@) =~= x1.push(w)); $L::lemma_partial_pad(t2, x1, mr, d, k, w); }
@at after loop 2
    let ghost xr = $L::rows(x@);
@loop 3
    seq3@.len() == xr.len(), $L::rows(seq3@) == xr, $L::is_rows(acc3@, xr, d, it3 as int),
@at loop 3 start
    proof { assert(xr[it3 - 1].len() == d); assert($L::vv(seq3@[it3 - 1]@) == xr[it3 - 1]); }
@at after loop 3
    proof { $L::lemma_vstack_rows(acc3@, xr, d); }
@at let x 2
    proof {
        assert($L::mrows(x) == xr);
        assert(c * d != 0) by (nonlinear_arith) requires c > 0, d > 0;
        assert forall|o: $M| #[trigger] $M::is_prod(u, x, o) implies o.dims(c, d) && $L::sat(ma, $L::mrows(o), mb, c, d) by {
            $L::lemma_prod_rows(u, x, o);
            $L::lemma_solution(ml, c, t2, xr, mr, d, ur, $L::mrows(o));
        }
    }
@endfn
@fn arithmetic/linear_algebra.rs :: LinearAlgebra<T> for Matrix<T>::null_space
    inst $S
    sub T=$S Matrix::zero=Matrix::<$S>::zero Matrix::identity=Matrix::<$S>::identity
    nopub
@spec
    requires $L::canon(*self)
    ensures
        res matches Some(n) ==> n.wf() && n.nrows == self.ncols && n.ncols > 0 && $L::null_basis($L::mrows(*self), self.ncols as int, $L::colsv($L::mrows(n), n.ncols as int)),
        res is None ==> forall|x: Seq<$V>| #[trigger] $L::kernel($L::mrows(*self), self.ncols as int, x) ==> x == $L::zero(self.ncols as int),
@at start
    let ghost (c, r, ma) = (self.ncols as int, self.nrows as int, $L::mrows(*self));
    proof { if r > 0 { $L::lemma_hstack_augt(*self); assert(c * r != 0 && c * c != 0) by (nonlinear_arith) requires r > 0, c > 0; } }
@at ret 1
    proof {
        assert forall|n: $M| n.is_id() && n.wf() && n.nrows == c && n.ncols == c implies $L::null_basis(ma, c, $L::colsv(#[trigger] $L::mrows(n), c)) by {
            let u = $L::colsv($L::mrows(n), c);
            assert forall|i: int| 0 <= i < c implies #[trigger] u[i] == $L::unitc(c, i) by {
                assert forall|j: int| 0 <= j < c implies u[i][j] == $L::unitc(c, i)[j] by { assert(n.has(j, i)); }
                assert(u[i] =~= $L::unitc(c, i));
            }
            $L::lemma_null_all(ma, c, u);
        }
    }
@at let rgt
    let ghost (tt, m) = ($L::mrows(t), t.nrows as int);
    let ghost mut q = 0int;
    proof {
        if r > 0 {
            q = $L::lemma_split(tt, r + c, r, m);
            $L::lemma_null(ma, c, tt, q);
            $L::lemma_lt_rows(t, r, lft, rgt);
            $L::lemma_rank_lt(tt, r + c, r, q);
            assert forall|x: int| #[trigger] $L::rank_is($L::mrows(lft), r, x) implies x == q by { $L::lemma_rank_unique($L::mrows(lft), r, x, q); }
        }
    }
@at end
    proof {
        if r > 0 {
            let (w, e) = ($L::rt(tt, r), m - q);
            let u = w.subrange(q, m);
            if e > 0 {
                assert(e * c != 0 && c * e != 0) by (nonlinear_arith) requires e > 0, c > 0;
                let n = res->Some_0;
                assert forall|i: int, j: int| 0 <= i < e && 0 <= j < c implies #[trigger] n.el(j, i) == t.el(q + i, r + j) by { assert(rgt.el(q + i, j) == t.el(q + i, r + j)); }
                let v = $L::colsv($L::mrows(n), e);
                assert forall|i: int| 0 <= i < e implies #[trigger] v[i] == u[i] by {
                    assert(tt[q + i].len() == r + c);
                    assert forall|j: int| 0 <= j < c implies #[trigger] v[i][j] == u[i][j] by { assert(n.el(j, i) == t.el(q + i, r + j)); }
                    assert(v[i] =~= u[i]);
                }
                assert(v =~= u);
            } else {
                assert forall|x: Seq<$V>| #[trigger] $L::kernel(ma, c, x) implies x == $L::zero(c) by { assert($L::spans(u, c, x)); }
            }
        } else {
            assert forall|x: Seq<$V>| #[trigger] $L::kernel(ma, c, x) implies x == $L::zero(c) by { assert(x =~= $L::zero(c)); }
        }
    }
@endfn
@fn arithmetic/linear_algebra.rs :: LinearAlgebra<T> for Matrix<T>::inverse
    inst $S
    sub T=$S Matrix::zero=Matrix::<$S>::zero Matrix::identity=Matrix::<$S>::identity
    nopub
@spec
    requires $L::canon(*self)
    ensures self.nrows == self.ncols,
        res matches Some(x) ==> x.dims(self.ncols as int, self.ncols as int) && $L::sat($L::mrows(*self), $L::mrows(x), $L::idrows(self.ncols as int), self.ncols as int, self.ncols as int)
            && $L::sat($L::mrows(x), $L::mrows(*self), $L::idrows(self.ncols as int), self.ncols as int, self.ncols as int),
        res is None ==> $L::unsolvable($L::mrows(*self), $L::idrows(self.ncols as int), self.ncols as int, self.ncols as int),
@at start
    let ghost (n, ma, ei) = (self.ncols as int, $L::mrows(*self), $L::idrows(self.ncols as int));
    proof {
        assert forall|e: $M| e.is_id() && e.nrows == n && e.ncols == n implies #[trigger] $L::mrows(e) == ei by {
            let me = $L::mrows(e);
            assert forall|i: int| 0 <= i < n implies #[trigger] me[i] == ei[i] by {
                assert forall|j: int| 0 <= j < n implies me[i][j] == ei[i][j] by { assert(e.has(i, j)); }
                assert(me[i] =~= ei[i]);
            }
            assert(me =~= ei);
        }
    }
@at end
    proof {
        if res is Some {
            let x = $L::mrows(res->Some_0);
            if n > 0 { assert(n * n != 0) by (nonlinear_arith) requires n > 0; }
            assert forall|i: int| 0 <= i < n implies $L::lc(#[trigger] ma[i], x, n, n) == $L::unitc(n, i) by { assert($L::lc(ma[i], x, n, n) == ei[i]); }
            $L::lemma_two_sided(ma, x, n);
        }
    }
@endfn
}
@endtemplate
@expand SOLVE2 L=LinR S=Rat V=real Z=0real O=1real C=Rat M=Matrix::<Rat>
@expand SOLVE2 L=LinZ S=Int V=int Z=0int O=1int C=i64 M=Matrix::<Int>
