@# clear_column, normalize_column, reduce_column and extend_basis of src/arithmetic/linear_algebra.rs
@template BASIS0 L S V Z O
impl $L {
    /// (b2, v2) arises from (b, v) by a transformation of determinant one
    pub open spec fn unimod(b: Seq<$V>, v: Seq<$V>, b2: Seq<$V>, v2: Seq<$V>, r: $V, s: $V, t: $V, u: $V) -> bool {
        &&& r * u - s * t == $O
        &&& b2.len() == b.len() && v2.len() == v.len()
        &&& forall|k: int| 0 <= k < b.len() ==> #[trigger] b2[k] == r * b[k] + s * v[k]
        &&& forall|k: int| 0 <= k < b.len() ==> #[trigger] v2[k] == t * b[k] + u * v[k]
    }
    pub open spec fn cleared(b: Seq<$V>, v: Seq<$V>, b2: Seq<$V>, v2: Seq<$V>) -> bool {
        exists|r: $V, s: $V, t: $V, u: $V| #[trigger] Self::unimod(b, v, b2, v2, r, s, t, u)
    }
    pub proof fn lemma_inverse2(r: $V, s: $V, t: $V, u: $V, x: $V, y: $V, x2: $V, y2: $V)
        requires r * u - s * t == $O, x2 == r * x + s * y, y2 == t * x + u * y
        ensures u * x2 + ($Z - s) * y2 == x, ($Z - t) * x2 + r * y2 == y
    {
        let (rx, sy, tx, uy, ru, st) = (r * x, s * y, t * x, u * y, r * u, s * t);
        assert(u * (rx + sy) == u * rx + u * sy) by (nonlinear_arith);
        assert(($Z - s) * (tx + uy) == $Z - (s * tx) - s * uy) by (nonlinear_arith);
        assert(u * rx == ru * x) by (nonlinear_arith) requires rx == r * x, ru == r * u;
        assert(s * tx == st * x) by (nonlinear_arith) requires tx == t * x, st == s * t;
        assert(u * sy == s * uy) by (nonlinear_arith) requires sy == s * y, uy == u * y;
        assert(ru * x - st * x == (ru - st) * x) by (nonlinear_arith);
        assert(($Z - t) * (rx + sy) == $Z - (t * rx) - t * sy) by (nonlinear_arith);
        assert(r * (tx + uy) == r * tx + r * uy) by (nonlinear_arith);
        assert(t * rx == r * tx) by (nonlinear_arith) requires rx == r * x, tx == t * x;
        assert(t * sy == st * y) by (nonlinear_arith) requires sy == s * y, st == s * t;
        assert(r * uy == ru * y) by (nonlinear_arith) requires uy == u * y, ru == r * u;
        assert(ru * y - st * y == (ru - st) * y) by (nonlinear_arith);
        assert((ru - st) * x == x && (ru - st) * y == y) by (nonlinear_arith) requires ru - st == $O;
    }
    /// such a transformation changes no span
    pub proof fn lemma_cleared(p: spec_fn(Seq<$V>) -> bool, n: int, b: Seq<$V>, v: Seq<$V>, b2: Seq<$V>, v2: Seq<$V>)
        requires Self::sub(p, n), b.len() == n, v.len() == n, Self::cleared(b, v, b2, v2)
        ensures p(b) && p(v) <==> p(b2) && p(v2)
    {
        let (r, s, t, u) = choose|r: $V, s: $V, t: $V, u: $V| #[trigger] Self::unimod(b, v, b2, v2, r, s, t, u);
        assert(b2 =~= Self::comb(b, r, v, s));
        assert(v2 =~= Self::comb(b, t, v, u));
        assert forall|k: int| 0 <= k < n implies b[k] == #[trigger] Self::comb(b2, u, v2, $Z - s)[k] by { Self::lemma_inverse2(r, s, t, u, b[k], v[k], b2[k], v2[k]); }
        assert forall|k: int| 0 <= k < n implies v[k] == #[trigger] Self::comb(b2, $Z - t, v2, r)[k] by { Self::lemma_inverse2(r, s, t, u, b[k], v[k], b2[k], v2[k]); }
        assert(b =~= Self::comb(b2, u, v2, $Z - s));
        assert(v =~= Self::comb(b2, $Z - t, v2, r));
    }
    /// w is f times v, and f has an inverse
    pub open spec fn scaled(v: Seq<$V>, w: Seq<$V>, f: $V, g: $V) -> bool {
        f * g == $O && w.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> #[trigger] w[k] == f * v[k]
    }
    pub proof fn lemma_scaled(p: spec_fn(Seq<$V>) -> bool, n: int, v: Seq<$V>, w: Seq<$V>, f: $V, g: $V)
        requires Self::sub(p, n), v.len() == n, Self::scaled(v, w, f, g)
        ensures p(v) <==> p(w)
    {
        assert forall|k: int| 0 <= k < n implies w[k] == #[trigger] Self::comb(v, f, v, $Z)[k] by { assert($Z * v[k] == $Z) by (nonlinear_arith); }
        assert forall|k: int| 0 <= k < n implies v[k] == #[trigger] Self::comb(w, g, w, $Z)[k] by {
            let (x, y) = (v[k], w[k]);
            assert(g * y == x) by (nonlinear_arith) requires y == f * x, f * g == $O;
            assert($Z * y == $Z) by (nonlinear_arith);
        }
        assert(w =~= Self::comb(v, f, v, $Z));
        assert(v =~= Self::comb(w, g, w, $Z));
    }
    /// leading positions: zero before c
    pub open spec fn zeros(v: Seq<$V>, c: int) -> bool { forall|k: int| 0 <= k < c && k < v.len() ==> #[trigger] v[k] == $Z }
}
@endtemplate
@expand BASIS0 L=LinR S=Rat V=real Z=0real O=1real
@expand BASIS0 L=LinZ S=Int V=int Z=0int O=1int

@fn arithmetic/linear_algebra.rs :: Scalar for BigRational::clear_column
    as clear_column_Rat
    sub Self=Rat
@spec
    requires col < old(v)@.len(), old(b)@.len() == old(v)@.len(), old(b)@[col as int].v() != 0real,
        LinR::zeros(LinR::vv(old(b)@), col as int), LinR::zeros(LinR::vv(old(v)@), col as int)
    ensures LinR::cleared(LinR::vv(old(b)@), LinR::vv(old(v)@), LinR::vv(final(b)@), LinR::vv(final(v)@)),
        final(v)@[col as int].v() == 0real, final(b)@[col as int].v() != 0real,
        LinR::zeros(LinR::vv(final(b)@), col as int), LinR::zeros(LinR::vv(final(v)@), col as int)
@at start
    proof { assert(v.len() == v@.len()); }
@loop 1
    v@.len() == old(v)@.len(), b@ == old(b)@, f.v() == old(v)@[col as int].v() / b@[col as int].v(), start1 == col + 1, it1 >= start1, end1 == v@.len(),
    v@[col as int].v() == 0real,
    forall|k: int| 0 <= k < col ==> #[trigger] v@[k] == old(v)@[k],
    forall|k: int| col < k < it1 ==> (#[trigger] v@[k]).v() == old(v)@[k].v() - b@[k].v() * f.v(),
    forall|k: int| it1 <= k < v@.len() ==> #[trigger] v@[k] == old(v)@[k],
@at end
    proof {
        let (b0, v0, b1, v1) = (LinR::vv(old(b)@), LinR::vv(old(v)@), LinR::vv(b@), LinR::vv(v@));
        let (g, c) = (f.v(), col as int);
        let (x, y) = (v0[c], b0[c]);
        assert((0real - x / y) * y + x == 0real) by (nonlinear_arith) requires y != 0real;
        assert forall|k: int| 0 <= k < v0.len() implies #[trigger] v1[k] == (0real - g) * b0[k] + 1real * v0[k] by {
            if k < c { assert(b0[k] == 0real && v0[k] == 0real); assert((0real - g) * 0real == 0real) by (nonlinear_arith); assert(v@[k] == old(v)@[k]); }
            else if k > c { let z = b0[k]; assert(z * g == 0real - (0real - g) * z) by (nonlinear_arith); assert(v@[k].v() == old(v)@[k].v() - b@[k].v() * f.v()); }
        }
        assert forall|k: int| 0 <= k < v0.len() implies #[trigger] b1[k] == 1real * b0[k] + 0real * v0[k] by { assert(0real * v0[k] == 0real) by (nonlinear_arith); }
        assert(1real * 1real - 0real * (0real - g) == 1real) by (nonlinear_arith);
        assert(LinR::unimod(b0, v0, b1, v1, 1real, 0real, 0real - g, 1real));
    }
@endfn
@fn arithmetic/linear_algebra.rs :: clear_column_primitive_int
    sub T=Int
@spec
    requires col < old(v)@.len(), old(b)@.len() == old(v)@.len(), old(b)@[col as int].v() != 0,
        LinZ::zeros(LinZ::vv(old(b)@), col as int), LinZ::zeros(LinZ::vv(old(v)@), col as int)
    ensures LinZ::cleared(LinZ::vv(old(b)@), LinZ::vv(old(v)@), LinZ::vv(final(b)@), LinZ::vv(final(v)@)),
        final(v)@[col as int].v() == 0, final(b)@[col as int].v() != 0,
        LinZ::zeros(LinZ::vv(final(b)@), col as int), LinZ::zeros(LinZ::vv(final(v)@), col as int)
@loop 1
    v@.len() == old(v)@.len(), b@.len() == old(b)@.len(), start1 == col, it1 >= start1, end1 == v@.len(),
    forall|k: int| 0 <= k < col ==> #[trigger] v@[k] == old(v)@[k],
    forall|k: int| 0 <= k < col ==> #[trigger] b@[k] == old(b)@[k],
    forall|k: int| col <= k < it1 ==> (#[trigger] v@[k]).v() == old(b)@[k].v() * t.v() + old(v)@[k].v() * u.v(),
    forall|k: int| col <= k < it1 ==> (#[trigger] b@[k]).v() == det.v() * (old(b)@[k].v() * r.v() + old(v)@[k].v() * s.v()),
    forall|k: int| it1 <= k < v@.len() ==> #[trigger] v@[k] == old(v)@[k],
    forall|k: int| it1 <= k < v@.len() ==> #[trigger] b@[k] == old(b)@[k],
@at end
    proof {
        let (b0, v0, b1, v1) = (LinZ::vv(old(b)@), LinZ::vv(old(v)@), LinZ::vv(b@), LinZ::vv(v@));
        let (r, s, t, u, d, c) = (r.v(), s.v(), t.v(), u.v(), det.v(), col as int);
        assert forall|k: int| 0 <= k < v0.len() implies #[trigger] v1[k] == t * b0[k] + u * v0[k] by {
            let (x, y) = (b0[k], v0[k]);
            if k < c { assert(x == 0 && y == 0); assert(t * 0 + u * 0 == 0) by (nonlinear_arith); assert(v@[k] == old(v)@[k]); }
            else { assert(v@[k].v() == x * t + y * u); assert(t * x + u * y == x * t + y * u) by (nonlinear_arith); }
        }
        assert forall|k: int| 0 <= k < v0.len() implies #[trigger] b1[k] == (d * r) * b0[k] + (d * s) * v0[k] by {
            let (x, y) = (b0[k], v0[k]);
            if k < c { assert(x == 0 && y == 0); assert((d * r) * 0 + (d * s) * 0 == 0) by (nonlinear_arith); assert(b@[k] == old(b)@[k]); }
            else {
                assert(b@[k].v() == d * (x * r + y * s));
                assert(d * (x * r + y * s) == (d * r) * x + (d * s) * y) by (nonlinear_arith);
            }
        }
        assert((d * r) * u - (d * s) * t == 1) by (nonlinear_arith) requires d == r * u - s * t, d == 1 || d == -1;
        assert(LinZ::unimod(b0, v0, b1, v1, d * r, d * s, t, u));
        let (x, y) = (b0[c], v0[c]);
        assert(b1[c] != 0 && v1[c] == 0) by {
            let g = x * r + y * s;
            assert(r * x + s * y == g && g != 0) by (nonlinear_arith) requires g == x * r + y * s, r * x + s * y != 0;
            assert(d * g != 0) by (nonlinear_arith) requires g != 0, d == 1 || d == -1;
            assert((d * r) * x + (d * s) * y == d * g) by (nonlinear_arith) requires g == x * r + y * s;
        }
    }
@endfn
@template INTCALLS T
@fn arithmetic/linear_algebra.rs :: Scalar for $T::clear_column
    as clear_column_$T
    sub Self=Int
    inst $T
@spec
    requires col < old(v)@.len(), old(b)@.len() == old(v)@.len(), old(b)@[col as int].v() != 0,
        LinZ::zeros(LinZ::vv(old(b)@), col as int), LinZ::zeros(LinZ::vv(old(v)@), col as int)
    ensures LinZ::cleared(LinZ::vv(old(b)@), LinZ::vv(old(v)@), LinZ::vv(final(b)@), LinZ::vv(final(v)@)),
        final(v)@[col as int].v() == 0, final(b)@[col as int].v() != 0,
        LinZ::zeros(LinZ::vv(final(b)@), col as int), LinZ::zeros(LinZ::vv(final(v)@), col as int)
@endfn
@fn arithmetic/linear_algebra.rs :: Scalar for $T::normalize_column
    as normalize_column_$T
    sub Self=Int
    inst $T
@spec
    requires col < old(v)@.len(), old(v)@[col as int].v() != 0, LinZ::zeros(LinZ::vv(old(v)@), col as int)
    ensures exists|f: int, g: int| #[trigger] LinZ::scaled(LinZ::vv(old(v)@), LinZ::vv(final(v)@), f, g), final(v)@[col as int].v() > 0
@endfn
@fn arithmetic/linear_algebra.rs :: Scalar for $T::reduce_column
    as reduce_column_$T
    sub Self=Int
    inst $T
@spec
    requires col < old(v)@.len(), b@.len() == old(v)@.len(), b@[col as int].v() > 0, LinZ::zeros(LinZ::vv(b@), col as int)
    ensures exists|f: int| #[trigger] LinZ::reduced_by(LinZ::vv(old(v)@), LinZ::vv(final(v)@), LinZ::vv(b@), f),
        0 <= final(v)@[col as int].v() < b@[col as int].v()
@endfn
@endtemplate
@template BASIS1 L S V Z O
impl $L {
    /// w is v minus a multiple of b
    pub open spec fn reduced_by(v: Seq<$V>, w: Seq<$V>, b: Seq<$V>, f: $V) -> bool {
        w.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> #[trigger] w[k] == v[k] - b[k] * f
    }
    pub proof fn lemma_reduced_by(p: spec_fn(Seq<$V>) -> bool, n: int, v: Seq<$V>, w: Seq<$V>, b: Seq<$V>, f: $V)
        requires Self::sub(p, n), v.len() == n, b.len() == n, Self::reduced_by(v, w, b, f), p(b)
        ensures p(v) <==> p(w)
    {
        assert forall|k: int| 0 <= k < n implies w[k] == #[trigger] Self::comb(v, $O, b, $Z - f)[k] by { let z = b[k]; assert(z * f == $Z - ($Z - f) * z) by (nonlinear_arith); }
        assert forall|k: int| 0 <= k < n implies v[k] == #[trigger] Self::comb(w, $O, b, f)[k] by { let z = b[k]; assert(z * f == f * z) by (nonlinear_arith); }
        assert(w =~= Self::comb(v, $O, b, $Z - f));
        assert(v =~= Self::comb(w, $O, b, f));
    }
}
@endtemplate
@expand BASIS1 L=LinR S=Rat V=real Z=0real O=1real
@expand BASIS1 L=LinZ S=Int V=int Z=0int O=1int
@fn arithmetic/linear_algebra.rs :: Scalar for BigRational::normalize_column
    as normalize_column_Rat
    sub Self=Rat
@spec
    requires col < old(v)@.len(), old(v)@[col as int].v() != 0real, LinR::zeros(LinR::vv(old(v)@), col as int)
    ensures exists|f: real, g: real| #[trigger] LinR::scaled(LinR::vv(old(v)@), LinR::vv(final(v)@), f, g), final(v)@[col as int].v() == 1real
@at start
    proof { assert(v.len() == v@.len()); }
@loop 1
    v@.len() == old(v)@.len(), f.v() == old(v)@[col as int].v(), start1 == col + 1, it1 >= start1, end1 == v@.len(),
    v@[col as int].v() == 1real,
    forall|k: int| 0 <= k < col ==> #[trigger] v@[k] == old(v)@[k],
    forall|k: int| col < k < it1 ==> (#[trigger] v@[k]).v() == old(v)@[k].v() / f.v(),
    forall|k: int| it1 <= k < v@.len() ==> #[trigger] v@[k] == old(v)@[k],
@at end
    proof {
        let (v0, v1, g, c) = (LinR::vv(old(v)@), LinR::vv(v@), f.v(), col as int);
        let h = 1real / g;
        assert(h * g == 1real) by (nonlinear_arith) requires h == 1real / g, g != 0real;
        assert forall|k: int| 0 <= k < v0.len() implies #[trigger] v1[k] == h * v0[k] by {
            let x = v0[k];
            if k < c { assert(x == 0real); assert(h * 0real == 0real) by (nonlinear_arith); assert(v@[k] == old(v)@[k]); }
            else if k > c { assert(v@[k].v() == x / g); assert(x / g == h * x) by (nonlinear_arith) requires h == 1real / g, g != 0real; }
        }
        assert(LinR::scaled(v0, v1, h, g));
    }
@endfn
@fn arithmetic/linear_algebra.rs :: Scalar for BigRational::reduce_column
    as reduce_column_Rat
    sub Self=Rat
@spec
    requires col < old(v)@.len(), b@.len() == old(v)@.len(), b@[col as int].v() == 1real, LinR::zeros(LinR::vv(b@), col as int)
    ensures exists|f: real| #[trigger] LinR::reduced_by(LinR::vv(old(v)@), LinR::vv(final(v)@), LinR::vv(b@), f),
        final(v)@[col as int].v() == 0real
@at start
    proof { assert(v.len() == v@.len()); }
@loop 1
    v@.len() == old(v)@.len(), f.v() == old(v)@[col as int].v(), start1 == col + 1, it1 >= start1, end1 == v@.len(),
    v@[col as int].v() == 0real,
    forall|k: int| 0 <= k < col ==> #[trigger] v@[k] == old(v)@[k],
    forall|k: int| col < k < it1 ==> (#[trigger] v@[k]).v() == old(v)@[k].v() - b@[k].v() * f.v(),
    forall|k: int| it1 <= k < v@.len() ==> #[trigger] v@[k] == old(v)@[k],
@at end
    proof {
        let (v0, v1, b0, g, c) = (LinR::vv(old(v)@), LinR::vv(v@), LinR::vv(b@), f.v(), col as int);
        assert forall|k: int| 0 <= k < v0.len() implies #[trigger] v1[k] == v0[k] - b0[k] * g by {
            if k < c { assert(b0[k] == 0real); assert(0real * g == 0real) by (nonlinear_arith); assert(v@[k] == old(v)@[k]); }
            else if k > c { assert(v@[k].v() == v0[k] - b0[k] * g); }
        }
        assert(LinR::reduced_by(v0, v1, b0, g));
    }
@endfn
@fn arithmetic/linear_algebra.rs :: normalize_column_primitive_int
    sub T=Int
    cmp
@spec
    requires col < old(v)@.len(), old(v)@[col as int].v() != 0, LinZ::zeros(LinZ::vv(old(v)@), col as int)
    ensures exists|f: int, g: int| #[trigger] LinZ::scaled(LinZ::vv(old(v)@), LinZ::vv(final(v)@), f, g), final(v)@[col as int].v() > 0
@loop 1
    v@.len() == old(v)@.len(), start1 == col, it1 >= start1, end1 == v@.len(),
    forall|k: int| 0 <= k < col ==> #[trigger] v@[k] == old(v)@[k],
    forall|k: int| col <= k < it1 ==> (#[trigger] v@[k]).v() == -old(v)@[k].v(),
    forall|k: int| it1 <= k < v@.len() ==> #[trigger] v@[k] == old(v)@[k],
@at end
    proof {
        let (v0, v1, c) = (LinZ::vv(old(v)@), LinZ::vv(v@), col as int);
        if v0[c] < 0 {
            assert forall|k: int| 0 <= k < v0.len() implies #[trigger] v1[k] == (-1) * v0[k] by {
                if k < c { assert(v0[k] == 0); assert(v@[k] == old(v)@[k]); } else { assert(v@[k].v() == -v0[k]); }
            }
            assert(LinZ::scaled(v0, v1, -1, -1));
        } else { assert(LinZ::scaled(v0, v1, 1, 1)); }
    }
@endfn
@fn arithmetic/linear_algebra.rs :: reduce_column_primitive_int
    sub T=Int
    cmp
@spec
    requires col < old(v)@.len(), b@.len() == old(v)@.len(), b@[col as int].v() > 0, LinZ::zeros(LinZ::vv(b@), col as int)
    ensures exists|f: int| #[trigger] LinZ::reduced_by(LinZ::vv(old(v)@), LinZ::vv(final(v)@), LinZ::vv(b@), f),
        0 <= final(v)@[col as int].v() < b@[col as int].v()
@loop 1
    v@.len() == old(v)@.len(), start1 == col, it1 >= start1, end1 == v@.len(),
    forall|k: int| 0 <= k < col ==> #[trigger] v@[k] == old(v)@[k],
    forall|k: int| col <= k < it1 ==> (#[trigger] v@[k]).v() == old(v)@[k].v() - b@[k].v() * f.v(),
    forall|k: int| it1 <= k < v@.len() ==> #[trigger] v@[k] == old(v)@[k],
@at end
    proof {
        let (v0, v1, b0, c) = (LinZ::vv(old(v)@), LinZ::vv(v@), LinZ::vv(b@), col as int);
        let (x, y, g) = (v0[c], b0[c], f.v());
        lemma_tdiv(x, y);
        assert(y * tdiv(x, y) == tdiv(x, y) * y) by (nonlinear_arith);
        assert(y * g == y * tdiv(x, y) - (if trem(x, y) < 0 { y } else { 0 })) by (nonlinear_arith) requires g == tdiv(x, y) - (if trem(x, y) < 0 { 1int } else { 0 });
        assert(0 <= x - y * g < y);
        assert forall|k: int| 0 <= k < v0.len() implies #[trigger] v1[k] == v0[k] - b0[k] * g by {
            let z = b0[k];
            if g == 0 { assert(z * g == 0) by (nonlinear_arith) requires g == 0; assert(v@[k] == old(v)@[k]); }
            else if k < c { assert(z == 0); assert(0 * g == 0) by (nonlinear_arith); assert(v@[k] == old(v)@[k]); }
            else { assert(v@[k].v() == v0[k] - b0[k] * g); }
        }
        assert(LinZ::reduced_by(v0, v1, b0, g));
    }
@endfn
@expand INTCALLS T=i32
@expand INTCALLS T=i64
