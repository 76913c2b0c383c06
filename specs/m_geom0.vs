@# Linear maps on coordinate vectors: the theory behind geometry.rs, over the reals and over the integers.
@template GEOM0 L S V Z O div
impl $L {
    pub open spec fn addv(u: Seq<$V>, v: Seq<$V>) -> Seq<$V> { Seq::new(u.len(), |k: int| u[k] + v[k]) }
    pub open spec fn subv(u: Seq<$V>, v: Seq<$V>) -> Seq<$V> { Seq::new(u.len(), |k: int| u[k] - v[k]) }
    pub open spec fn neg(u: Seq<$V>) -> Seq<$V> { Seq::new(u.len(), |k: int| $Z - u[k]) }
    pub open spec fn scal(u: Seq<$V>, x: $V) -> Seq<$V> { Seq::new(u.len(), |k: int| u[k] * x) }
    pub open spec fn divv(u: Seq<$V>, x: $V) -> Seq<$V> { Seq::new(u.len(), |k: int| $div(u[k], x)) }
    /// the parts of the coordinates in [0, 1)
?L=LinR    pub open spec fn frac(u: Seq<real>) -> Seq<real> { Seq::new(u.len(), |k: int| u[k] - (u[k].floor() as real)) }
?L=LinZ    pub open spec fn frac(u: Seq<int>) -> Seq<int> { Seq::new(u.len(), |k: int| 0) }
?L=LinR    pub proof fn lemma_frac(x: real)
?L=LinR        ensures ({ let y = x - 1real * (trunc(x / 1real) as real) + 1real; y - 1real * (trunc(y / 1real) as real) == x - (x.floor() as real) && 0real <= x - (x.floor() as real) < 1real })
?L=LinR    {
?L=LinR        let y = x - 1real * (trunc(x / 1real) as real) + 1real;
?L=LinR        assert(x / 1real == x && y / 1real == y);
?L=LinR        let k = trunc(x);
?L=LinR        assert(y == x - (k as real) + 1real);
?L=LinR        assert(y >= 0real);
?L=LinR        assert(y.floor() == x.floor() - k + 1);
?L=LinR    }
?L=LinZ    pub proof fn lemma_frac(x: int)
?L=LinZ        ensures tdiv(x, 1) == x, tdiv(1, 1) == 1, tdiv(0, 1) == 0
?L=LinZ    { assert((-x) / 1 == -x); }
    pub open spec fn minor(g: Seq<Seq<$V>>, i: int) -> $V { Self::det(Seq::new(i as nat, |p: int| g[p].subrange(0, i)), 0) }
    /// matrix times vector, and matrix times matrix
    pub open spec fn mv(m: Seq<Seq<$V>>, x: Seq<$V>) -> Seq<$V> { Seq::new(m.len(), |i: int| Self::dotp(m[i], x, x.len() as int)) }
    pub open spec fn mm(a: Seq<Seq<$V>>, b: Seq<Seq<$V>>, n: int) -> Seq<Seq<$V>> { Seq::new(a.len(), |i: int| Seq::new(n as nat, |j: int| Self::dotp(a[i], Self::colv(b, j), b.len() as int))) }
    pub open spec fn tr(a: Seq<Seq<$V>>, n: int) -> Seq<Seq<$V>> { Seq::new(n as nat, |j: int| Self::colv(a, j)) }
    pub open spec fn bil(g: Seq<Seq<$V>>, u: Seq<$V>, v: Seq<$V>) -> $V { Self::dotp(u, Self::mv(g, v), u.len() as int) }
    pub open spec fn act(a: Seq<Seq<$V>>, s: Seq<$V>, x: Seq<$V>) -> Seq<$V> { Self::addv(Self::mv(a, x), s) }
    pub open spec fn sq(a: Seq<Seq<$V>>, n: int) -> bool { a.len() == n && Self::width(a, n) }
    /// the maps x -> a x + s and x -> b x + t undo each other
    pub open spec fn inv_pair(a: Seq<Seq<$V>>, s: Seq<$V>, b: Seq<Seq<$V>>, t: Seq<$V>, n: int) -> bool {
        &&& Self::mm(a, b, n) == Self::idrows(n) &&& Self::mm(b, a, n) == Self::idrows(n)
        &&& Self::act(b, t, s) == Self::zero(n) &&& Self::act(a, s, t) == Self::zero(n)
    }
    pub proof fn lemma_dot_is(a: Matrix<$S>, b: Matrix<$S>, i: int, j: int, k: int)
        requires 0 <= k <= a.ncols, a.ncols == b.nrows, a.has(i, 0) || k == 0, 0 <= j < b.ncols, 0 <= i < a.nrows
        ensures Matrix::<$S>::dot(a, b, i, j, k) == Self::dotp(Self::mrows(a)[i], Self::colv(Self::mrows(b), j), k)
        decreases k
    {
        if k > 0 {
            Self::lemma_dot_is(a, b, i, j, k - 1);
            assert(Self::mrows(a)[i] == Self::mrow(a, i));
            assert(Self::mrows(b)[k - 1] == Self::mrow(b, k - 1));
        }
    }
    /// the matrix product
    pub proof fn lemma_mm(a: Matrix<$S>, b: Matrix<$S>, o: Matrix<$S>)
        requires Matrix::<$S>::is_prod(a, b, o), a.nrows == a.ncols, b.nrows == b.ncols
        ensures Self::mrows(o) == Self::mm(Self::mrows(a), Self::mrows(b), a.ncols as int), o.nrows == a.nrows, o.ncols == a.ncols, o.wf()
    {
        let n = a.ncols as int;
        assert(n * n == 0 ==> n == 0) by (nonlinear_arith);
        let (x, y) = (Self::mrows(o), Self::mm(Self::mrows(a), Self::mrows(b), n));
        assert forall|i: int| 0 <= i < n implies #[trigger] x[i] == y[i] by {
            assert forall|j: int| 0 <= j < n implies x[i][j] == y[i][j] by { Self::lemma_dot_is(a, b, i, j, n); assert(o.has(i, j)); assert(x[i] == Self::mrow(o, i)); }
            assert(x[i] =~= y[i]);
        }
        assert(x =~= y);
    }
    /// matrix times column vector
    pub proof fn lemma_mv(a: Matrix<$S>, b: Matrix<$S>, o: Matrix<$S>)
        requires Matrix::<$S>::is_prod(a, b, o), a.nrows == a.ncols, b.ncols == 1, b.wf()
        ensures Self::vv(o.data@) == Self::mv(Self::mrows(a), Self::vv(b.data@)), o.nrows == a.nrows, o.ncols == 1, o.wf(), o.data@.len() == o.nrows
    {
        let n = a.ncols as int;
        let (x, y) = (Self::vv(o.data@), Self::mv(Self::mrows(a), Self::vv(b.data@)));
        assert forall|i: int| 0 <= i < n implies x[i] == y[i] by {
            Self::lemma_dot_is(a, b, i, 0, n); assert(o.has(i, 0)); assert(x[i] == o.el(i, 0).v());
            let (c, d) = (Self::colv(Self::mrows(b), 0), Self::vv(b.data@));
            assert forall|k: int| 0 <= k < n implies #[trigger] c[k] == d[k] by { assert(Self::mrows(b)[k] == Self::mrow(b, k)); }
            Self::lemma_dotp_ext(Self::mrows(a)[i], c, Self::mrows(a)[i], d, n);
        }
        assert(x =~= y);
    }
    pub proof fn lemma_id_rows(e: Matrix<$S>)
        requires e.is_id(), e.wf()
        ensures Self::mrows(e) == Self::idrows(e.ncols as int)
    {
        let (n, me, ei) = (e.ncols as int, Self::mrows(e), Self::idrows(e.ncols as int));
        assert forall|i: int| 0 <= i < n implies #[trigger] me[i] == ei[i] by {
            assert forall|j: int| 0 <= j < n implies me[i][j] == ei[i][j] by { assert(e.has(i, j)); }
            assert(me[i] =~= ei[i]);
        }
        assert(me =~= ei);
    }
    pub proof fn lemma_rows_id(e: Matrix<$S>)
        requires e.wf(), e.nrows == e.ncols, Self::mrows(e) == Self::idrows(e.ncols as int)
        ensures e.is_id()
    {
        let (n, me, ei) = (e.ncols as int, Self::mrows(e), Self::idrows(e.ncols as int));
        assert forall|i: int, j: int| e.has(i, j) implies (#[trigger] e.el(i, j)).v() == (if i == j { $O } else { $Z }) by { assert(me[i][j] == ei[i][j]); }
    }
    /// rows of a product as combinations
    pub proof fn lemma_mm_lc(a: Seq<Seq<$V>>, b: Seq<Seq<$V>>, n: int, i: int)
        requires Self::sq(b, n), 0 <= i < a.len(), n >= 0
        ensures Self::mm(a, b, n)[i] == Self::lc(a[i], b, n, n)
    {
        Self::lemma_lc_len(a[i], b, n, n);
        assert forall|j: int| 0 <= j < n implies Self::mm(a, b, n)[i][j] == Self::lc(a[i], b, n, n)[j] by { Self::lemma_lc_dot(a[i], b, n, n, j); }
        assert(Self::mm(a, b, n)[i] =~= Self::lc(a[i], b, n, n));
    }
    /// (c b) . x == c . (b x)
    pub proof fn lemma_lc_dotp(c: Seq<$V>, b: Seq<Seq<$V>>, x: Seq<$V>, n: int, k: int)
        requires Self::width(b, n), x.len() == n, 0 <= k <= b.len()
        ensures Self::dotp(Self::lc(c, b, n, k), x, n) == Self::dotp(c, Self::mv(b, x), k)
        decreases k
    {
        if k > 0 {
            Self::lemma_lc_dotp(c, b, x, n, k - 1);
            Self::lemma_lc_len(c, b, n, k - 1);
            let u = Self::lc(c, b, n, k - 1);
            Self::lemma_dotp_comb(u, $O, b[k - 1], c[k - 1], x, n);
            let q = Self::dotp(u, x, n);
            assert($O * q == q) by (nonlinear_arith);
            assert(Self::mv(b, x)[k - 1] == Self::dotp(b[k - 1], x, n));
        } else { Self::lemma_dotp_zero(Self::lc(c, b, n, k), x, n); }
    }
    /// products act as compositions
    pub proof fn lemma_mm_mv(a: Seq<Seq<$V>>, b: Seq<Seq<$V>>, x: Seq<$V>, n: int)
        requires Self::sq(b, n), x.len() == n, n >= 0
        ensures Self::mv(Self::mm(a, b, n), x) == Self::mv(a, Self::mv(b, x))
    {
        assert forall|i: int| 0 <= i < a.len() implies Self::mv(Self::mm(a, b, n), x)[i] == Self::mv(a, Self::mv(b, x))[i] by {
            Self::lemma_mm_lc(a, b, n, i); Self::lemma_lc_dotp(a[i], b, x, n, n);
        }
        assert(Self::mv(Self::mm(a, b, n), x) =~= Self::mv(a, Self::mv(b, x)));
    }
    pub proof fn lemma_mm_assoc(a: Seq<Seq<$V>>, b: Seq<Seq<$V>>, c: Seq<Seq<$V>>, n: int)
        requires Self::sq(a, n), Self::sq(b, n), Self::sq(c, n), n >= 0
        ensures Self::mm(Self::mm(a, b, n), c, n) == Self::mm(a, Self::mm(b, c, n), n)
    {
        let (bc, l, r) = (Self::mm(b, c, n), Self::mm(Self::mm(a, b, n), c, n), Self::mm(a, Self::mm(b, c, n), n));
        assert forall|i: int| 0 <= i < n implies l[i] == r[i] by {
            Self::lemma_mm_lc(Self::mm(a, b, n), c, n, i); Self::lemma_mm_lc(a, b, n, i); Self::lemma_mm_lc(a, bc, n, i);
            assert forall|k: int| 0 <= k < n implies #[trigger] bc[k] == Self::lc(b[k], c, n, n) by { Self::lemma_mm_lc(b, c, n, k); }
            Self::lemma_lc_assoc(a[i], b, c, bc, n, n, n);
        }
        assert(l =~= r);
    }
    pub proof fn lemma_mm_id(a: Seq<Seq<$V>>, n: int)
        requires Self::sq(a, n), n >= 0
        ensures Self::mm(a, Self::idrows(n), n) == a, Self::mm(Self::idrows(n), a, n) == a
    {
        let (e, l, r) = (Self::idrows(n), Self::mm(a, Self::idrows(n), n), Self::mm(Self::idrows(n), a, n));
        assert forall|i: int| 0 <= i < n implies l[i] == a[i] by { Self::lemma_mm_lc(a, e, n, i); Self::lemma_lc_id(a[i], e, n, n); }
        assert forall|i: int| 0 <= i < n implies r[i] == a[i] by { Self::lemma_mm_lc(e, a, n, i); assert(e[i] == Self::unitc(n, i)); Self::lemma_lc_unit(a, n, i, n); }
        assert(l =~= a); assert(r =~= a);
    }
    pub proof fn lemma_mv_id(x: Seq<$V>, n: int)
        requires x.len() == n
        ensures Self::mv(Self::idrows(n), x) == x
    {
        assert forall|i: int| 0 <= i < n implies Self::mv(Self::idrows(n), x)[i] == x[i] by {
            let e = Self::unitc(n, i);
            assert(Self::idrows(n)[i] == e);
            Self::lemma_dotp_sym(e, x, n);
            Self::lemma_dotp_unit(x, n, i, n);
        }
        assert(Self::mv(Self::idrows(n), x) =~= x);
    }
    pub proof fn lemma_mv_comb(m: Seq<Seq<$V>>, x: Seq<$V>, a: $V, y: Seq<$V>, b: $V, n: int)
        requires x.len() == n, y.len() == n
        ensures Self::mv(m, Self::comb(x, a, y, b)) == Self::comb(Self::mv(m, x), a, Self::mv(m, y), b)
    {
        let (l, r) = (Self::mv(m, Self::comb(x, a, y, b)), Self::comb(Self::mv(m, x), a, Self::mv(m, y), b));
        assert forall|i: int| 0 <= i < m.len() implies l[i] == r[i] by {
            Self::lemma_dotp_sym(m[i], Self::comb(x, a, y, b), n); Self::lemma_dotp_comb(x, a, y, b, m[i], n);
            Self::lemma_dotp_sym(m[i], x, n); Self::lemma_dotp_sym(m[i], y, n);
        }
        assert(l =~= r);
    }
    pub proof fn lemma_mv_add(m: Seq<Seq<$V>>, x: Seq<$V>, y: Seq<$V>)
        requires x.len() == y.len()
        ensures Self::mv(m, Self::addv(x, y)) == Self::addv(Self::mv(m, x), Self::mv(m, y))
    {
        Self::lemma_mv_comb(m, x, $O, y, $O, x.len() as int);
        assert(Self::comb(x, $O, y, $O) =~= Self::addv(x, y)) by { assert forall|k: int| 0 <= k < x.len() implies $O * #[trigger] x[k] + $O * y[k] == x[k] + y[k] by { let (p, q) = (x[k], y[k]); assert($O * p == p && $O * q == q) by (nonlinear_arith); } }
        let (u, v) = (Self::mv(m, x), Self::mv(m, y));
        assert(Self::comb(u, $O, v, $O) =~= Self::addv(u, v)) by { assert forall|k: int| 0 <= k < u.len() implies $O * #[trigger] u[k] + $O * v[k] == u[k] + v[k] by { let (p, q) = (u[k], v[k]); assert($O * p == p && $O * q == q) by (nonlinear_arith); } }
    }
    pub proof fn lemma_mv_zero(m: Seq<Seq<$V>>, n: int)
        requires n >= 0
        ensures Self::mv(m, Self::zero(n)) == Self::zero(m.len() as int)
    {
        assert forall|i: int| 0 <= i < m.len() implies Self::mv(m, Self::zero(n))[i] == $Z by { Self::lemma_dotp_zero(m[i], Self::zero(n), n); }
        assert(Self::mv(m, Self::zero(n)) =~= Self::zero(m.len() as int));
    }
    pub proof fn lemma_mv_neg(m: Seq<Seq<$V>>, x: Seq<$V>)
        ensures Self::mv(m, Self::neg(x)) == Self::neg(Self::mv(m, x))
    {
        let n = x.len() as int;
        let (l, r) = (Self::mv(m, Self::neg(x)), Self::neg(Self::mv(m, x)));
        Self::lemma_mv_add(m, x, Self::neg(x));
        assert(Self::addv(x, Self::neg(x)) =~= Self::zero(n));
        Self::lemma_mv_zero(m, n);
        assert forall|i: int| 0 <= i < m.len() implies l[i] == r[i] by { assert(Self::addv(Self::mv(m, x), l)[i] == Self::zero(m.len() as int)[i]); }
        assert(l =~= r);
    }
    /// the shift of the composition
    pub proof fn lemma_compose(a: Seq<Seq<$V>>, s: Seq<$V>, b: Seq<Seq<$V>>, t: Seq<$V>, x: Seq<$V>, n: int)
        requires Self::sq(a, n), Self::sq(b, n), s.len() == n, t.len() == n, x.len() == n
        ensures Self::act(Self::mm(a, b, n), Self::act(a, s, t), x) == Self::act(a, s, Self::act(b, t, x))
    {
        Self::lemma_mm_mv(a, b, x, n);
        Self::lemma_mv_add(a, Self::mv(b, x), t);
        assert(Self::act(Self::mm(a, b, n), Self::act(a, s, t), x) =~= Self::act(a, s, Self::act(b, t, x)));
    }
    /// one-sided inverse maps undo each other on points and vectors
    pub proof fn lemma_undo(a: Seq<Seq<$V>>, s: Seq<$V>, b: Seq<Seq<$V>>, t: Seq<$V>, x: Seq<$V>, n: int)
        requires Self::sq(a, n), Self::sq(b, n), s.len() == n, t.len() == n, x.len() == n, Self::inv_pair(a, s, b, t, n)
        ensures Self::act(b, t, Self::act(a, s, x)) == x, Self::act(a, s, Self::act(b, t, x)) == x, Self::mv(b, Self::mv(a, x)) == x, Self::mv(a, Self::mv(b, x)) == x
    {
        Self::lemma_compose(a, s, b, t, x, n); Self::lemma_compose(b, t, a, s, x, n);
        Self::lemma_mv_id(x, n);
        assert(Self::addv(x, Self::zero(n)) =~= x);
        Self::lemma_mm_mv(a, b, x, n); Self::lemma_mm_mv(b, a, x, n);
    }
    /// inverses of compositions
    pub proof fn lemma_inv_comp(a: Seq<Seq<$V>>, s: Seq<$V>, b: Seq<Seq<$V>>, t: Seq<$V>, c: Seq<Seq<$V>>, u: Seq<$V>, d: Seq<Seq<$V>>, w: Seq<$V>, n: int)
        requires Self::sq(a, n), Self::sq(b, n), s.len() == n, t.len() == n, Self::sq(c, n), Self::sq(d, n), u.len() == n, w.len() == n, n >= 0,
            Self::inv_pair(a, s, b, t, n), Self::inv_pair(c, u, d, w, n)
        ensures Self::inv_pair(Self::mm(a, c, n), Self::act(a, s, u), Self::mm(d, b, n), Self::act(d, w, t), n)
    {
        let (p, q) = (Self::mm(a, c, n), Self::mm(d, b, n));
        Self::lemma_mm_assoc(a, c, q, n); Self::lemma_mm_assoc(c, d, b, n); Self::lemma_mm_id(b, n);
        Self::lemma_mm_assoc(d, b, p, n); Self::lemma_mm_assoc(b, a, c, n); Self::lemma_mm_id(c, n);
        let z = Self::zero(n);
        // q (p x) = x at the images of the origin
        Self::lemma_compose(d, w, b, t, Self::act(a, s, u), n);
        Self::lemma_undo(a, s, b, t, u, n);
        Self::lemma_compose(a, s, c, u, Self::act(d, w, t), n);
        Self::lemma_undo(c, u, d, w, t, n);
    }
    /// x . (a^T w) == (a x) . w
    pub proof fn lemma_adj(a: Seq<Seq<$V>>, x: Seq<$V>, w: Seq<$V>, n: int)
        requires Self::sq(a, n), x.len() == n, w.len() == n
        ensures Self::dotp(x, Self::mv(Self::tr(a, n), w), n) == Self::dotp(Self::mv(a, x), w, n)
    {
        let (p, q) = (Self::mv(Self::tr(a, n), w), Self::lc(w, a, n, n));
        Self::lemma_lc_len(w, a, n, n);
        assert forall|i: int| 0 <= i < n implies #[trigger] p[i] == q[i] by { Self::lemma_lc_dot(w, a, n, n, i); assert(Self::tr(a, n)[i] == Self::colv(a, i)); Self::lemma_dotp_sym(Self::colv(a, i), w, n); }
        assert(p =~= q);
        Self::lemma_dotp_sym(x, p, n);
        Self::lemma_lc_dotp(w, a, x, n, n);
        Self::lemma_dotp_sym(w, Self::mv(a, x), n);
    }
    /// the form a^T g a at (x, y) is the form g at (a x, a y)
    pub proof fn lemma_bil(g: Seq<Seq<$V>>, a: Seq<Seq<$V>>, x: Seq<$V>, y: Seq<$V>, n: int)
        requires Self::sq(g, n), Self::sq(a, n), x.len() == n, y.len() == n, n >= 0
        ensures Self::bil(Self::mm(Self::mm(Self::tr(a, n), g, n), a, n), x, y) == Self::bil(g, Self::mv(a, x), Self::mv(a, y))
    {
        let t = Self::tr(a, n);
        Self::lemma_mm_mv(Self::mm(t, g, n), a, y, n);
        Self::lemma_mm_mv(t, g, Self::mv(a, y), n);
        Self::lemma_adj(a, x, Self::mv(g, Self::mv(a, y)), n);
    }
    pub proof fn lemma_minor(a: Matrix<$S>, s: Matrix<$S>, k: int)
        requires a.wf(), a.nrows == a.ncols, 1 <= k <= a.nrows, s.dims(k, k), forall|p: int, q: int| s.has(p, q) ==> #[trigger] s.el(p, q) == a.el(p, q)
        ensures Self::mrows(s) == Seq::new(k as nat, |p: int| Self::mrows(a)[p].subrange(0, k))
    {
        assert(k * k > 0) by (nonlinear_arith) requires k >= 1;
        let (x, y) = (Self::mrows(s), Seq::new(k as nat, |p: int| Self::mrows(a)[p].subrange(0, k)));
        assert forall|p: int| 0 <= p < k implies #[trigger] x[p] == y[p] by {
            assert forall|q: int| 0 <= q < k implies x[p][q] == y[p][q] by { assert(s.has(p, q)); assert(s.el(p, q) == a.el(p, q)); assert(Self::mrows(a)[p] == Self::mrow(a, p)); }
            assert(x[p] =~= y[p]);
        }
        assert(x =~= y);
    }
    pub open spec fn symm(a: Matrix<$S>) -> bool { forall|i: int, j: int| a.has(i, j) ==> (#[trigger] a.el(i, j)).v() == a.el(j, i).v() }
    /// a matrix that equals its transpose entry by entry
    pub proof fn lemma_sym(a: Matrix<$S>)
        requires a.wf(), a.nrows == a.ncols, Self::symm(a)
        ensures Self::mrows(a) == Self::tr(Self::mrows(a), a.ncols as int)
    {
        let n = a.ncols as int;
        let (x, y) = (Self::mrows(a), Self::tr(Self::mrows(a), n));
        assert forall|i: int| 0 <= i < n implies #[trigger] x[i] == y[i] by {
            assert forall|j: int| 0 <= j < n implies x[i][j] == y[i][j] by { assert(a.has(i, j)); assert(a.el(i, j).v() == a.el(j, i).v()); assert(x[j] == Self::mrow(a, j)); assert(x[i] == Self::mrow(a, i)); }
            assert(x[i] =~= y[i]);
        }
        assert(x =~= y);
    }
    pub proof fn lemma_mul3(a: $V, b: $V, c: $V)
        ensures (a * b) * c == a * (b * c), (a * c) * b == (a * b) * c, (b * a) * c == (a * b) * c, (c * a) * b == (a * b) * c, (b * c) * a == (a * b) * c, (c * b) * a == (a * b) * c,
            a * (c * b) == (a * b) * c, b * (a * c) == (a * b) * c, c * (a * b) == (a * b) * c, b * (c * a) == (a * b) * c, c * (b * a) == (a * b) * c
    {
        assert((a * b) * c == a * (b * c) && (a * c) * b == a * (b * c) && (b * a) * c == a * (b * c) && (c * a) * b == a * (b * c)) by (nonlinear_arith);
        assert((b * c) * a == a * (b * c) && (c * b) * a == a * (b * c) && a * (c * b) == a * (b * c)) by (nonlinear_arith);
        assert(b * (a * c) == a * (b * c) && c * (a * b) == a * (b * c) && b * (c * a) == a * (b * c) && c * (b * a) == a * (b * c)) by (nonlinear_arith);
    }
    pub proof fn lemma_colsum1(p: Seq<Matrix<$S>>, k: int)
        requires 0 <= k <= p.len(), forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).ncols == 1
        ensures colsum(p, k) == k
        decreases k
    { if k > 0 { Self::lemma_colsum1(p, k - 1); } }
    pub proof fn lemma_transpose(a: Matrix<$S>, o: Matrix<$S>)
        requires a.wf(), a.nrows == a.ncols, o.dims(a.ncols as int, a.nrows as int), forall|i: int, j: int| a.has(i, j) ==> #[trigger] o.el(j, i) == a.el(i, j)
        ensures Self::mrows(o) == Self::tr(Self::mrows(a), a.ncols as int), o.nrows == a.nrows
    {
        let n = a.ncols as int;
        assert(n * n == 0 ==> n == 0) by (nonlinear_arith);
        let (x, y) = (Self::mrows(o), Self::tr(Self::mrows(a), n));
        assert forall|i: int| 0 <= i < n implies #[trigger] x[i] == y[i] by {
            assert forall|j: int| 0 <= j < n implies x[i][j] == y[i][j] by { assert(a.has(j, i)); assert(o.el(i, j) == a.el(j, i)); assert(Self::mrows(a)[j] == Self::mrow(a, j)); }
            assert(x[i] =~= y[i]);
        }
        assert(x =~= y);
    }
}
@endtemplate
@expand GEOM0 L=LinR S=Rat V=real Z=0real O=1real div=rdiv
@expand GEOM0 L=LinZ S=Int V=int Z=0int O=1int div=tdiv
