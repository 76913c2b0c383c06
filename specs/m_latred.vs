@# lagrange_reduced, selling_reduced, dirichlet_vectors, shift_for_dirichlet_domain of src/spacegroups/lattices.rs
@fn spacegroups/lattices.rs :: neg
    as vneg_v
    inst Rat
    sub T=Rat
@spec
    ensures res@.len() == v@.len(), vvr(res@) == neg1(vvr(v@))
@loop 1
    acc1@.len() == it1, forall|k: int| 0 <= k < it1 ==> (#[trigger] acc1@[k]).v() == -v@[k].v(),
@at after loop 1
    proof { assert(vvr(acc1@) =~= neg1(vvr(v@))); }
@endfn
@template OP F E
@fn spacegroups/lattices.rs :: $F
    as v$F_v
    inst Rat
    sub T=Rat
@spec
    requires v@.len() == w@.len()
    ensures res@.len() == v@.len(), vvr(res@) == cb(vvr(v@), 1real, vvr(w@), $E)
@loop 1
    acc1@.len() == it1, forall|k: int| 0 <= k < it1 ==> (#[trigger] acc1@[k]).v() == 1real * v@[k].v() + $E * w@[k].v(),
@at after loop 1
    proof { assert(vvr(acc1@) =~= cb(vvr(v@), 1real, vvr(w@), $E)); }
@endfn
@endtemplate
@expand OP F=add E=1real
@expand OP F=sub E=-1real
@fn spacegroups/lattices.rs :: mul
    as vmul_v
    inst Rat
    sub T=Rat
@spec
    ensures res@.len() == v@.len(), vvr(res@) == cb(vvr(v@), t.v(), vvr(v@), 0real)
@loop 1
    acc1@.len() == it1, forall|k: int| 0 <= k < it1 ==> (#[trigger] acc1@[k]).v() == t.v() * v@[k].v() + 0real * v@[k].v(),
@at loop 1 end
    proof { let (x, y) = (v@[cur1 as int].v(), t.v()); assert(x * y == y * x + 0real * x) by (nonlinear_arith); }
@at after loop 1
    proof { assert(vvr(acc1@) =~= cb(vvr(v@), t.v(), vvr(v@), 0real)); }
@endfn
impl Rat {
@fn spacegroups/types.rs :: Coord for BigRational::div_rounded
    sub BigRational=Rat
    self &self
@spec
    ensures other.v() != 0real, res.v() == rround(self.v() / other.v()) as real
@endfn
}
pub proof fn lemma_cb1(f: Form, n: int, u: RV, t: real, v: RV, w: RV)
    requires is_form(f, n), u.len() == n, v.len() == n, w == cb(v, 1real, cb(u, t, u, 0real), -1real)
    ensures fv(f, w, u) == fv(f, v, u) - t * fv(f, u, u)
{
    lemma_fv_r(f, n, u, t, u, 0real, u);
    let x = cb(u, t, u, 0real);
    assert(fv(f, cb(v, 1real, x, -1real), u) == 1real * fv(f, v, u) + -1real * fv(f, x, u));
}
pub proof fn lemma_rround(a: real, b: real)
    requires b > 0real
    ensures -b <= 2real * (a - (rround(a / b) as real) * b) <= b
{
    let q = a / b;
    let t = rround(q) as real;
    assert(a == q * b) by (nonlinear_arith) requires q == a / b, b > 0real;
    assert(-0.5real <= q - t <= 0.5real);
    let e = q - t;
    assert(a - t * b == e * b) by (nonlinear_arith) requires a == q * b, e == q - t;
    assert(-b <= 2real * (e * b) <= b) by (nonlinear_arith) requires -0.5real <= e <= 0.5real, b > 0real;
}
/// replacing v by v - k u
pub proof fn lemma_lat_step(u: RV, v: RV, w: RV, k: int, n: int)
    requires u.len() == n, v.len() == n, w == cb(v, 1real, cb(u, k as real, u, 0real), -1real)
    ensures same_lat(seq![w, u], seq![u, v], n)
{
    let (a, b) = (seq![w, u], seq![u, v]);
    assert(a[0] == w && a[1] == u && b[0] == u && b[1] == v);
    assert forall|i: int| 0 <= i < n implies #[trigger] w[i] == v[i] - (k as real) * u[i] by {
        let (x, y) = (k as real, u[i]);
        assert(1real * v[i] + -1real * (x * y + 0real * y) == v[i] - x * y) by (nonlinear_arith);
    }
    assert forall|p: spec_fn(RV) -> bool| #[trigger] latp(p, n) implies (allp(p, a) <==> allp(p, b)) by {
        if allp(p, a) {
            assert(p(a[0]) && p(a[1]));
            lemma_lat(p, n, w, 1, u, k);
            assert(cb(w, 1int as real, u, k as real) =~= v);
        }
        if allp(p, b) {
            assert(p(b[0]) && p(b[1]));
            lemma_lat(p, n, v, 1, u, -k);
            assert(cb(v, 1int as real, u, (-k) as real) =~= w) by {
                assert forall|i: int| 0 <= i < n implies cb(v, 1int as real, u, (-k) as real)[i] == w[i] by {
                    let (x, y) = (k as real, u[i]);
                    assert((-k) as real == -x);
                    assert((-x) * y == -(x * y)) by (nonlinear_arith);
                }
            }
        }
    }
}
pub proof fn lemma_lat_swap(u: RV, v: RV, n: int)
    ensures same_lat(seq![v, u], seq![u, v], n)
{
    let (a, b) = (seq![v, u], seq![u, v]);
    assert(a[0] == v && a[1] == u && b[0] == u && b[1] == v);
    assert forall|p: spec_fn(RV) -> bool| #[trigger] latp(p, n) implies (allp(p, a) <==> allp(p, b)) by {
        if allp(p, a) { assert(p(a[0]) && p(a[1])); }
        if allp(p, b) { assert(p(b[0]) && p(b[1])); }
    }
}
pub proof fn lemma_lat_negv(u: RV, v: RV, n: int)
    requires u.len() == n, v.len() == n
    ensures same_lat(seq![u, neg1(v)], seq![u, v], n)
{
    let (a, b) = (seq![u, neg1(v)], seq![u, v]);
    assert(a[0] == u && a[1] == neg1(v) && b[0] == u && b[1] == v);
    assert forall|p: spec_fn(RV) -> bool| #[trigger] latp(p, n) implies (allp(p, a) <==> allp(p, b)) by {
        if allp(p, a) { assert(p(a[0]) && p(a[1])); lemma_lat_neg(p, n, v, neg1(v)); }
        if allp(p, b) { assert(p(b[0]) && p(b[1])); lemma_lat(p, n, v, -1, v, 0); assert(cb(v, (-1int) as real, v, 0int as real) =~= neg1(v)); }
    }
}
/// the obtuse superbase of a reduced pair, filled up with zero
pub open spec fn sb2(u: RV, v: RV, n: int) -> Seq<RV> { seq![u, v, neg1(plus(u, v)), zr(n)] }
pub open spec fn sb3(u: RV, v: RV, w: RV) -> Seq<RV> { seq![u, v, w, neg1(plus(plus(u, v), w))] }
pub proof fn lemma_sb2(f: Form, n: int, u: RV, v: RV)
    requires n >= 0, is_form(f, n), u.len() == n, v.len() == n, fv(f, u, v) <= 0real, -fv(f, u, v) <= nrm(f, u), -fv(f, u, v) <= nrm(f, v)
    ensures obtuse4(f, sb2(u, v, n), n)
{
    let s = sb2(u, v, n);
    let p = plus(u, v);
    lemma_fv_r(f, n, u, 1real, v, 1real, u);
    lemma_fv_r(f, n, u, 1real, v, 1real, v);
    lemma_fv_r(f, n, p, -1real, p, 0real, u);
    lemma_fv_r(f, n, p, -1real, p, 0real, v);
    lemma_fv_zero(f, n, u); lemma_fv_zero(f, n, v); lemma_fv_zero(f, n, s[2]);
    assert(fv(f, u, v) == fv(f, v, u));
    assert(lc4(s, 1real, 1real, 1real, 1real) =~= zr(n));
}
@fn spacegroups/lattices.rs :: lagrange_reduced
    inst Rat
    sub T=Rat F=Form
    call dot=dot.vdot add=vadd_v sub=vsub_v mul=vmul_v neg=vneg_v
    captures dot &Form
    param dot &Form
    cmp
    attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires is_form(*dot, u@.len() as int), v@.len() == u@.len(), epsilon.v() == 0real
    ensures res.0@.len() == u@.len(), res.1@.len() == u@.len(), same_lat(seq![vvr(res.0@), vvr(res.1@)], seq![vvr(u@), vvr(v@)], u@.len() as int),
        fv(*dot, vvr(res.0@), vvr(res.1@)) <= 0real, -fv(*dot, vvr(res.0@), vvr(res.1@)) <= nrm(*dot, vvr(res.0@)), -fv(*dot, vvr(res.0@), vvr(res.1@)) <= nrm(*dot, vvr(res.1@)),
@closure norm
    -> (res: Rat)
    ensures res.v() == nrm(*dot, vvr(v@))
@at start
    let ghost n = u@.len() as int;
    let ghost u0 = vvr(u@);
    let ghost v0 = vvr(v@);
    let ghost f = *dot;
@at before loop 1
    proof { lemma_lat_swap(u0, v0, n); }
@loop 1
    u@.len() == n, v@.len() == n, fudge.v() == 1real, same_lat(seq![vvr(u@), vvr(v@)], seq![u0, v0], n),
    nrm(f, vvr(u@)) <= nrm(f, vvr(v@)) || -nrm(f, vvr(v@)) <= 2real * fv(f, vvr(u@), vvr(v@)) <= nrm(f, vvr(v@)),
@at let w
    proof {
        let (a, b, c) = (vvr(u@), vvr(v@), vvr(w@));
        let t = rround(fv(f, a, b) / nrm(f, a));
        lemma_lat_step(a, b, c, t, n);
        lemma_cb1(f, n, a, t as real, b, c);
        lemma_nonneg(f, n, a);
        lemma_rround(fv(f, a, b), nrm(f, a));
        assert(fv(f, a, b) == fv(f, b, a));
    }
@at after loop 1
    proof {
        let (a, b) = (vvr(u@), vvr(v@));
        lemma_nrm_plus(f, n, a, b);
        lemma_nonneg(f, n, plus(a, b));
        lemma_nrm_plus(f, n, a, neg1(b));
        lemma_nonneg(f, n, plus(a, neg1(b)));
        lemma_fv_r(f, n, b, -1real, b, 0real, a);
        lemma_fv_r(f, n, b, -1real, b, 0real, b);
        lemma_fv_r(f, n, b, -1real, b, 0real, neg1(b));
        lemma_lat_negv(a, b, n);
        assert(fv(f, b, neg1(b)) == fv(f, neg1(b), b));
    }
@endfn

pub proof fn lemma_lc1_at(s: Seq<RV>, n: int, k: int)
    requires s.len() == 4, widthr(s, n), 0 <= k < n
    ensures lc4(s, 1real, 1real, 1real, 1real)[k] == s[0][k] + s[1][k] + s[2][k] + s[3][k]
{ assert(s[0].len() == n && s[1].len() == n && s[2].len() == n && s[3].len() == n); }
pub proof fn lemma_selling_step(s: Seq<RV>, t: Seq<RV>, i: int, j: int, n: int)
    requires s.len() == 4, t.len() == 4, widthr(s, n), widthr(t, n), n >= 0, 0 <= i < 3, i < j < 4, t[i] == neg1(s[i]), t[j] == s[j],
        forall|k: int| 0 <= k < 4 && k != i && k != j ==> #[trigger] t[k] == plus(s[k], s[i]),
        lc4(s, 1real, 1real, 1real, 1real) == zr(n)
    ensures lc4(t, 1real, 1real, 1real, 1real) == zr(n), same_lat(t, s, n)
{
    assert(s[0].len() == n && s[1].len() == n && s[2].len() == n && s[3].len() == n);
    assert(t[0].len() == n && t[1].len() == n && t[2].len() == n && t[3].len() == n);
    assert forall|k: int| 0 <= k < n implies lc4(t, 1real, 1real, 1real, 1real)[k] == 0real by {
        assert(lc4(s, 1real, 1real, 1real, 1real)[k] == zr(n)[k]);
        lemma_lc1_at(s, n, k); lemma_lc1_at(t, n, k);
        let y = s[i][k];
        assert(t[0][k] == s[0][k] + (if i == 0 { -2real * y } else if j == 0 { 0real } else { y })) by { if i != 0 && j != 0 { assert(t[0] == plus(s[0], s[i])); } }
        assert(t[1][k] == s[1][k] + (if i == 1 { -2real * y } else if j == 1 { 0real } else { y })) by { if i != 1 && j != 1 { assert(t[1] == plus(s[1], s[i])); } }
        assert(t[2][k] == s[2][k] + (if i == 2 { -2real * y } else if j == 2 { 0real } else { y })) by { if i != 2 && j != 2 { assert(t[2] == plus(s[2], s[i])); } }
        assert(t[3][k] == s[3][k] + (if j == 3 { 0real } else { y })) by { if j != 3 { assert(t[3] == plus(s[3], s[i])); } }
    }
    assert(lc4(t, 1real, 1real, 1real, 1real) =~= zr(n));
    assert forall|p: spec_fn(RV) -> bool| #[trigger] latp(p, n) implies (allp(p, t) <==> allp(p, s)) by {
        if allp(p, t) {
            assert(p(t[i]));
            lemma_lat_neg(p, n, s[i], t[i]);
            assert forall|k: int| 0 <= k < 4 implies p(#[trigger] s[k]) by {
                assert(p(t[k]));
                if k != i && k != j { lemma_lat(p, n, t[k], 1, s[i], -1); assert(cb(t[k], 1int as real, s[i], (-1int) as real) =~= s[k]); }
            }
        }
        if allp(p, s) {
            assert(p(s[i]));
            assert forall|k: int| 0 <= k < 4 implies p(#[trigger] t[k]) by {
                assert(p(s[k]));
                if k == i { lemma_lat(p, n, s[k], -1, s[k], 0); assert(cb(s[k], (-1int) as real, s[k], 0int as real) =~= t[k]); }
                else if k != j { lemma_lat(p, n, s[k], 1, s[i], 1); assert(cb(s[k], 1int as real, s[i], 1int as real) =~= t[k]); }
            }
        }
    }
}
pub proof fn lemma_same_trans(a: Seq<RV>, b: Seq<RV>, c: Seq<RV>, n: int)
    requires same_lat(a, b, n), same_lat(b, c, n)
    ensures same_lat(a, c, n)
{
    assert forall|p: spec_fn(RV) -> bool| #[trigger] latp(p, n) implies (allp(p, a) <==> allp(p, c)) by { assert(allp(p, a) <==> allp(p, b)); }
}
/// the fourth vector of a superbase is redundant
pub proof fn lemma_sb3(u: RV, v: RV, w: RV, x: RV, n: int)
    requires u.len() == n, v.len() == n, w.len() == n, x.len() == n, n >= 0, lc4(seq![u, v, w, x], 1real, 1real, 1real, 1real) == zr(n)
    ensures x == neg1(plus(plus(u, v), w)), same_lat(seq![u, v, w, x], seq![u, v, w], n)
{
    let (s, b) = (seq![u, v, w, x], seq![u, v, w]);
    let o = lc4(s, 1real, 1real, 1real, 1real);
    let z = neg1(plus(plus(u, v), w));
    assert forall|k: int| 0 <= k < n implies x[k] == z[k] by { assert(o[k] == 0real); }
    assert(x =~= z);
    assert(s[0] == u && s[1] == v && s[2] == w && s[3] == x && b[0] == u && b[1] == v && b[2] == w);
    assert forall|p: spec_fn(RV) -> bool| #[trigger] latp(p, n) implies (allp(p, s) <==> allp(p, b)) by {
        if allp(p, s) { assert(p(s[0]) && p(s[1]) && p(s[2])); }
        if allp(p, b) {
            assert(p(b[0]) && p(b[1]) && p(b[2]));
            lemma_lat(p, n, u, 1, v, 1);
            lemma_lat(p, n, plus(u, v), 1, w, 1);
            let y = plus(plus(u, v), w);
            lemma_lat(p, n, y, -1, y, 0);
            assert(cb(y, (-1int) as real, y, 0int as real) =~= x);
        }
    }
}
@fn spacegroups/lattices.rs :: selling_reduced
    inst Rat
    sub T=Rat F=Form
    call dot=dot.vdot add=vadd_v sub=vsub_v mul=vmul_v neg=vneg_v
    captures dot &Form
    param dot &Form
    cmp
    attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires is_form(*dot, u@.len() as int), v@.len() == u@.len(), w@.len() == u@.len(), epsilon.v() == 0real
    ensures res.0@.len() == u@.len(), res.1@.len() == u@.len(), res.2@.len() == u@.len(),
        same_lat(seq![vvr(res.0@), vvr(res.1@), vvr(res.2@)], seq![vvr(u@), vvr(v@), vvr(w@)], u@.len() as int),
        obtuse4(*dot, sb3(vvr(res.0@), vvr(res.1@), vvr(res.2@)), u@.len() as int),
@at start
    let ghost n = u@.len() as int;
    let ghost b0 = seq![vvr(u@), vvr(v@), vvr(w@)];
    let ghost f = *dot;
@at before loop 1
    proof {
        let s4 = seq![b0[0], b0[1], b0[2], vvr(s@)];
        assert(rowsr(vs@) =~= s4);
        let o = lc4(s4, 1real, 1real, 1real, 1real);
        assert forall|k: int| 0 <= k < n implies o[k] == 0real by {}
        assert(o =~= zr(n));
        lemma_sb3(b0[0], b0[1], b0[2], vvr(s@), n);
        assert(b0 =~= seq![b0[0], b0[1], b0[2]]);
    }
@loop 1
    invariant
    vs@.len() == 4, forall|k: int| 0 <= k < 4 ==> (#[trigger] vs@[k])@.len() == n, widthr(rowsr(vs@), n), n >= 0, lc4(rowsr(vs@), 1real, 1real, 1real, 1real) == zr(n), same_lat(rowsr(vs@), b0, n),
    ensures
    forall|a: int, b: int| 0 <= a < 3 && a < b < 4 ==> fv(f, #[trigger] rowsr(vs@)[a], #[trigger] rowsr(vs@)[b]) <= 0real,
@loop 2
    vs@.len() == 4, forall|k: int| 0 <= k < 4 ==> (#[trigger] vs@[k])@.len() == n, widthr(rowsr(vs@), n), lc4(rowsr(vs@), 1real, 1real, 1real, 1real) == zr(n), same_lat(rowsr(vs@), b0, n),
    !changed ==> forall|a: int, b: int| 0 <= a < it2 && a < b < 4 ==> fv(f, #[trigger] rowsr(vs@)[a], #[trigger] rowsr(vs@)[b]) <= 0real,
@loop 3
    0 <= i < 3,
    vs@.len() == 4, forall|k: int| 0 <= k < 4 ==> (#[trigger] vs@[k])@.len() == n, widthr(rowsr(vs@), n), lc4(rowsr(vs@), 1real, 1real, 1real, 1real) == zr(n), same_lat(rowsr(vs@), b0, n),
    !changed ==> forall|a: int, b: int| 0 <= a < i && a < b < 4 ==> fv(f, #[trigger] rowsr(vs@)[a], #[trigger] rowsr(vs@)[b]) <= 0real,
    !changed ==> forall|b: int| i < b < it3 ==> fv(f, rowsr(vs@)[i as int], #[trigger] rowsr(vs@)[b]) <= 0real,
@at before loop 4
    let ghost s0 = rowsr(vs@);
@loop 4
    0 <= i < 3, i < j < 4,
    vs@.len() == 4, s0.len() == 4, widthr(s0, n), forall|k: int| 0 <= k < 4 ==> (#[trigger] vs@[k])@.len() == n, 
    forall|k: int| 0 <= k < 4 && (k == i || k == j || k >= it4) ==> vvr((#[trigger] vs@[k])@) == s0[k],
    forall|k: int| 0 <= k < it4 && k != i && k != j ==> vvr((#[trigger] vs@[k])@) == plus(s0[k], s0[i as int]),
@at after loop 4
    let ghost s1 = rowsr(vs@);
@at then 1 end
    proof { assert(widthr(rowsr(vs@), n)); assert(vvr(vs@[i as int]@) == neg1(s0[i as int])); assert forall|k: int| 0 <= k < 4 && k != i && k != j implies #[trigger] rowsr(vs@)[k] == plus(s0[k], s0[i as int]) by { assert(vvr(vs@[k]@) == plus(s0[k], s0[i as int])); }
        assert(vvr(vs@[j as int]@) == s0[j as int]); lemma_selling_step(s0, rowsr(vs@), i as int, j as int, n); lemma_same_trans(rowsr(vs@), s0, b0, n); }
@at end
    proof {
        let r = rowsr(vs@);
        assert(r[0].len() == n && r[1].len() == n && r[2].len() == n && r[3].len() == n);
        assert(r =~= seq![r[0], r[1], r[2], r[3]]);
        lemma_sb3(r[0], r[1], r[2], r[3], n);
        assert(b0 =~= seq![b0[0], b0[1], b0[2]]);
        assert(sb3(r[0], r[1], r[2]) =~= r);
    }
@endfn
/// the superbase of a list of Dirichlet vectors
pub open spec fn sbase(r: Seq<RV>, n: int) -> Seq<RV> { if n == 2 { sb2(r[0], r[1], n) } else { sb3(r[0], r[1], r[2]) } }
pub open spec fn dir_set(f: Form, r: Seq<RV>, n: int) -> bool {
    &&& n == 2 || n == 3
    &&& r.len() == (if n == 2 { 3int } else { 7 }) && widthr(r, n)
    &&& n == 2 ==> r[2] == plus(r[0], r[1])
    &&& n == 3 ==> r[3] == plus(r[0], r[1]) && r[4] == plus(r[0], r[2]) && r[5] == plus(r[1], r[2]) && r[6] == plus(plus(r[0], r[1]), r[2])
    &&& obtuse4(f, sbase(r, n), n)
}
pub open spec fn cell(r: Seq<RV>, n: int) -> Seq<RV> { r.subrange(0, n) }
/// v or its negative is listed
pub open spec fn listed(r: Seq<RV>, v: RV) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i] == v || r[i] == neg1(v)) }
/// every partial sum is zero or listed up to sign
pub proof fn lemma_partial(f: Form, r: Seq<RV>, n: int, m: I4)
    requires dir_set(f, r, n), bits(m), m.3 == 0
    ensures lv(sbase(r, n), m) == zr(n) || listed(r, lv(sbase(r, n), m))
{
    let s = sbase(r, n);
    let v = lv(s, m);
    assert(r[0].len() == n && r[1].len() == n && r[2].len() == n);
    if n == 3 {
        assert(r[3].len() == n && r[4].len() == n && r[5].len() == n && r[6].len() == n);
        let i: int = if m == (0int, 0int, 0int, 0int) { -1 } else if m == (1int, 0int, 0int, 0int) { 0 } else if m == (0int, 1int, 0int, 0int) { 1 } else if m == (0int, 0int, 1int, 0int) { 2 }
            else if m == (1int, 1int, 0int, 0int) { 3 } else if m == (1int, 0int, 1int, 0int) { 4 } else if m == (0int, 1int, 1int, 0int) { 5 } else { 6 };
        if i < 0 { assert(v =~= zr(n)); } else { assert(v =~= r[i]); }
    } else {
        let i: int = if m.2 == 0 { if m.0 == 1 { if m.1 == 1 { 2 } else { 0 } } else if m.1 == 1 { 1 } else { -1 } } else { if m.0 == 0 { if m.1 == 0 { 2 } else { 0 } } else if m.1 == 0 { 1 } else { -1 } };
        if i < 0 { assert(v =~= zr(n)); } else if m.2 == 0 { assert(v =~= r[i]); } else { assert(neg1(v) =~= r[i]); }
    }
}
/// Dirichlet vectors: of each class modulo twice the lattice, none is shorter than the one in the list (or zero)
pub open spec fn short_of(f: Form, r: Seq<RV>, n: int, m: I4) -> bool {
    let v = lv(sbase(r, n), par(m));
    (v == zr(n) || listed(r, v)) && nrm(f, v) <= nrm(f, lv(sbase(r, n), m))
}
pub open spec fn shortest(f: Form, r: Seq<RV>, n: int) -> bool { forall|m: I4| m.3 == 0 ==> #[trigger] short_of(f, r, n, m) }
pub proof fn lemma_shortest(f: Form, r: Seq<RV>, n: int)
    requires is_form(f, n), dir_set(f, r, n)
    ensures shortest(f, r, n)
{
    let s = sbase(r, n);
    assert forall|m: I4| m.3 == 0 implies #[trigger] short_of(f, r, n, m) by { lemma_class(f, n, s, m); lemma_partial(f, r, n, par(m)); }
}
@fn spacegroups/lattices.rs :: dirichlet_vectors
    inst Rat
    sub T=Rat F=Form
    call dot=dot.vdot add=vadd_v
    param dot &Form
@spec
    requires is_form(*dot, basis@.len() as int), epsilon.v() == 0real
    ensures widthr(rowsr(basis@), basis@.len() as int), widthr(rowsr(res@), basis@.len() as int), basis@.len() <= 3,
        basis@.len() <= 1 ==> res@ == basis@,
        basis@.len() >= 2 ==> dir_set(*dot, rowsr(res@), basis@.len() as int) && same_lat(cell(rowsr(res@), basis@.len() as int), rowsr(basis@), basis@.len() as int)
            && shortest(*dot, rowsr(res@), basis@.len() as int),
@loop 1
    forall|i: int| 0 <= i < it1 ==> (#[trigger] basis@[i])@.len() == n,
@at start
    let ghost f = *dot;
@at let w
    proof {
        let g = seq![vvr(u@), vvr(v@), vvr(w@)];
        lemma_sb2(f, n as int, g[0], g[1]);
        lemma_shortest(f, g, n as int);
        assert(rowsr(basis@) =~= seq![vvr(basis@[0]@), vvr(basis@[1]@)]);
        assert(cell(g, n as int) =~= seq![g[0], g[1]]);
    }
@at let uvw
    proof {
        let g = seq![vvr(u@), vvr(v@), vvr(w@), vvr(uv@), vvr(uw@), vvr(vw@), vvr(uvw@)];
        lemma_shortest(f, g, n as int);
        assert(rowsr(basis@) =~= seq![vvr(basis@[0]@), vvr(basis@[1]@), vvr(basis@[2]@)]);
        assert(cell(g, n as int) =~= seq![g[0], g[1], g[2]]);
    }
@at end
    proof {
        if n == 2 { assert(rowsr(res@) =~= seq![vvr(res@[0]@), vvr(res@[1]@), vvr(res@[2]@)]); }
        else if n == 3 { assert(rowsr(res@) =~= seq![vvr(res@[0]@), vvr(res@[1]@), vvr(res@[2]@), vvr(res@[3]@), vvr(res@[4]@), vvr(res@[5]@), vvr(res@[6]@)]); }
    }
@endfn
/// moving by the shift brings p as close to the origin as any lattice vector could
pub open spec fn closest(f: Form, r: Seq<RV>, n: int, q: RV) -> bool { forall|m: I4| nrm(f, q) <= #[trigger] nrm(f, plus(q, lv(sbase(r, n), m))) }
pub proof fn lemma_closest(f: Form, r: Seq<RV>, n: int, q: RV)
    requires is_form(f, n), dir_set(f, r, n), q.len() == n, forall|i: int| 0 <= i < r.len() ==> halved(f, q, #[trigger] r[i])
    ensures closest(f, r, n, q)
{
    let s = sbase(r, n);
    assert(s[0].len() == n && s[1].len() == n && s[2].len() == n && s[3].len() == n);
    assert forall|m: I4| bits(m) && m.3 == 0 implies #[trigger] halved(f, q, lv(s, m)) by {
        lemma_partial(f, r, n, m);
        let v = lv(s, m);
        lemma_fv_zero(f, n, q); lemma_fv_zero(f, n, zr(n));
        if v != zr(n) {
            let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i] == v || r[i] == neg1(v));
            assert(halved(f, q, r[i]));
            lemma_fv_r(f, n, v, -1real, v, 0real, q);
            lemma_fv_r(f, n, v, -1real, v, 0real, v);
            lemma_fv_r(f, n, v, -1real, v, 0real, neg1(v));
            assert(fv(f, v, neg1(v)) == fv(f, neg1(v), v));
        }
    }
    assert forall|m: I4| nrm(f, q) <= #[trigger] nrm(f, plus(q, lv(s, m))) by {
        lemma_near(f, n, s, q, m);
        lemma_nrm_plus(f, n, q, lv(s, m));
    }
}
@fn spacegroups/lattices.rs :: shift_for_dirichlet_domain
    inst Rat
    sub T=Rat F=Form
    call dot=dot.vdot add=vadd_v sub=vsub_v mul=vmul_v
    param dot &Form
    cmp
    attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires is_form(*dot, p@.len() as int), widthr(rowsr(vs@), p@.len() as int), epsilon.v() == 0real
    ensures res@.len() == p@.len(),
        forall|l: spec_fn(RV) -> bool| #[trigger] latp(l, p@.len() as int) && allp(l, rowsr(vs@)) && l(zr(p@.len() as int)) ==> l(vvr(res@)),
        forall|i: int| 0 <= i < vs@.len() ==> halved(*dot, plus(vvr(p@), vvr(res@)), #[trigger] rowsr(vs@)[i]),
        dir_set(*dot, rowsr(vs@), p@.len() as int) ==> closest(*dot, rowsr(vs@), p@.len() as int, plus(vvr(p@), vvr(res@))),
@at start
    let ghost n = p@.len() as int;
    let ghost f = *dot;
    let ghost r = rowsr(vs@);
@at before loop 1
    proof { assert(vvr(shift@) =~= zr(n)); }
@loop 1
    shift@.len() == n, pos@ == p@,
    forall|l: spec_fn(RV) -> bool| #[trigger] latp(l, n) && allp(l, r) && l(zr(n)) ==> l(vvr(shift@)),
    !proceed ==> forall|i: int| 0 <= i < vs@.len() ==> halved(f, plus(vvr(p@), vvr(shift@)), #[trigger] r[i]),
@loop 2
    shift@.len() == n, pos@ == p@, seq2@ == vs@,
    forall|l: spec_fn(RV) -> bool| #[trigger] latp(l, n) && allp(l, r) && l(zr(n)) ==> l(vvr(shift@)),
    !proceed ==> forall|i: int| 0 <= i < it2 ==> halved(f, plus(vvr(p@), vvr(shift@)), #[trigger] r[i]),
@at loop 2 start
    let ghost s0 = vvr(shift@);
    proof { assert(r[cur2 as int].len() == n); }
@at loop 2 end
    proof {
        let (x, q) = (r[cur2 as int], plus(vvr(p@), s0));
        let (num, den, tv) = (fv(f, q, x), fv(f, x, x), t.v());
        if vvr(shift@) != s0 {
            let k = rround(tv);
            assert forall|l: spec_fn(RV) -> bool| #[trigger] latp(l, n) && allp(l, r) && l(zr(n)) implies l(vvr(shift@)) by {
                assert(l(r[cur2 as int]));
                lemma_lat(l, n, s0, 1, x, -k);
                assert(cb(s0, 1int as real, x, (-k) as real) =~= vvr(shift@)) by {
                    assert forall|i: int| 0 <= i < n implies cb(s0, 1int as real, x, (-k) as real)[i] == vvr(shift@)[i] by {
                        let (y, z) = (k as real, x[i]);
                        assert((-k) as real == -y);
                        assert((-y) * z == -(y * z + 0real * z)) by (nonlinear_arith);
                    }
                }
            }
        }
        if !proceed {
            lemma_nonneg(f, n, x);
            assert(tv * den == num) by (nonlinear_arith) requires tv == num / den, den != 0real;
            assert(-den <= 2real * (tv * den) <= den) by (nonlinear_arith) requires -1real <= 2real * tv <= 1real, den >= 0real;
        }
    }
@at end
    proof { if dir_set(f, r, n) { lemma_closest(f, r, n, plus(vvr(p@), vvr(res@))); } }
@endfn
