@# reduced_lattice_basis of src/spacegroups/lattices.rs: successive minima
use std::cmp::Ordering;
/// the total order of vectors of rational numbers (lexicographic); only that it is a total order is used
pub uninterp spec fn lex(a: RV, b: RV) -> int;
pub axiom fn axiom_lex()
    ensures forall|a: RV, b: RV| #[trigger] lex(a, b) == -lex(b, a),
        forall|a: RV, b: RV, c: RV| #[trigger] lex(a, b) <= 0 && #[trigger] lex(b, c) <= 0 ==> lex(a, c) <= 0;
pub open spec fn ord_of(x: int) -> Ordering { if x < 0 { Ordering::Less } else if x > 0 { Ordering::Greater } else { Ordering::Equal } }
impl Rat { #[verifier::external_body] pub fn vpcmp(&self, o: &Rat) -> (r: Option<Ordering>) ensures r == Some(ord_of(if self.v() < o.v() { -1 } else if self.v() > o.v() { 1 } else { 0 })) { unimplemented!() } }
pub trait VPCmpV { fn vpcmp(&self, o: &Vec<Rat>) -> (r: Option<Ordering>); }
impl VPCmpV for Vec<Rat> { #[verifier::external_body] fn vpcmp(&self, o: &Vec<Rat>) -> (r: Option<Ordering>) ensures r == Some(ord_of(lex(vvr(self@), vvr(o@)))) { unimplemented!() } }
/// ascending by norm, then descending by direction
pub open spec fn cmpv(f: Form, d: spec_fn(RV) -> RV, a: RV, b: RV) -> int { if nrm(f, a) < nrm(f, b) { -1 } else if nrm(f, a) > nrm(f, b) { 1 } else { lex(d(b), d(a)) } }
pub open spec fn total_order<T, F: Fn(&T, &T) -> Ordering>(f: F) -> bool {
    &&& forall|a: &T, b: &T| #[trigger] f.requires((a, b))
    &&& forall|a: &T, b: &T, o: Ordering, q: Ordering| #[trigger] f.ensures((a, b), o) && #[trigger] f.ensures((b, a), q) ==> (o == Ordering::Less <==> q == Ordering::Greater)
    &&& forall|a: &T, b: &T, c: &T, o: Ordering, q: Ordering, r: Ordering| #[trigger] f.ensures((a, b), o) && #[trigger] f.ensures((b, c), q) && #[trigger] f.ensures((a, c), r) && o != Ordering::Greater && q != Ordering::Greater ==> r != Ordering::Greater
}
pub open spec fn not_after<T, F: Fn(&T, &T) -> Ordering>(f: F, a: &T, b: &T) -> bool { exists|o: Ordering| #[trigger] f.ensures((a, b), o) && o != Ordering::Greater }
pub open spec fn in_seq<T>(s: Seq<T>, x: T) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == x }
/// everything in b is in a
pub open spec fn same_items<T>(a: Seq<T>, b: Seq<T>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] in_seq(a, b[i]) }
#[verifier::external_body]
pub fn vsort_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F)
    requires total_order(f)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(),
        same_items(old(v)@, final(v)@), same_items(final(v)@, old(v)@),
        forall|i: int, j: int| #![trigger final(v)@[i], final(v)@[j]] 0 <= i < j < final(v)@.len() ==> not_after(f, &final(v)@[i], &final(v)@[j])
{ v.sort_by(f) }
pub fn vabs(x: Rat) -> (r: Rat) ensures r.v() == if x.v() < 0real { -x.v() } else { x.v() } { if x.is_negative() { (&x).vneg() } else { x } }
/// v is in the lattice generated by b
pub open spec fn in_lat(b: Seq<RV>, v: RV, n: int) -> bool { forall|p: spec_fn(RV) -> bool| #[trigger] latp(p, n) && allp(p, b) ==> p(v) }
/// real combinations of b
pub open spec fn lin(b: Seq<RV>, n: int, v: RV) -> bool { v.len() == n && LinR::spans(b, n, v) }
pub proof fn lemma_lin_sub(b: Seq<RV>, n: int)
    requires n >= 0, widthr(b, n)
    ensures latp(|v: RV| lin(b, n, v), n), lin(b, n, zr(n)), LinR::sub(|v: RV| LinR::spans(b, n, v), n),
        forall|i: int| 0 <= i < b.len() ==> lin(b, n, #[trigger] b[i]),
{
    LinR::lemma_spans_sub(b, n);
    let q = |v: RV| LinR::spans(b, n, v);
    assert(LinR::zero(n) =~= zr(n));
    assert(q(LinR::zero(n)));
    let p = |v: RV| lin(b, n, v);
    assert forall|u: RV, a: int, v: RV, c: int| u.len() == n && v.len() == n && p(u) && p(v) implies p(#[trigger] cbi(u, a, v, c)) by {
        assert(cbi(u, a, v, c) =~= LinR::comb(u, a as real, v, c as real));
        assert(q(LinR::comb(u, a as real, v, c as real)));
    }
    assert forall|i: int| 0 <= i < b.len() implies lin(b, n, #[trigger] b[i]) by { LinR::lemma_row_spans(b, b, n, i); }
}
/// a predicate closed under real combinations that holds for b holds for its combinations
pub proof fn lemma_lin_all(b: Seq<RV>, n: int, p: spec_fn(RV) -> bool, v: RV)
    requires n >= 0, widthr(b, n), LinR::sub(p, n), LinR::all(p, b), lin(b, n, v)
    ensures p(v)
{
    let c = choose|c: RV| c.len() == b.len() && v == #[trigger] LinR::lc(c, b, n, b.len() as int);
    LinR::lemma_lc_in(p, c, b, n, b.len() as int);
}
/// echelon bases: if f spans e and is no longer, then e spans f
pub proof fn lemma_ech_same(e: Seq<RV>, f: Seq<RV>, n: int, v: RV)
    requires n >= 0, LinR::echelon(e, n), LinR::echelon(f, n), f.len() <= e.len(), forall|i: int| 0 <= i < e.len() ==> LinR::spans(f, n, #[trigger] e[i]), LinR::spans(f, n, v), v.len() == n
    ensures LinR::spans(e, n, v)
    decreases n - LinR::piv(v)
{
    LinR::lemma_spans_sub(e, n);
    LinR::lemma_spans_sub(f, n);
    LinR::lemma_piv(v);
    if LinR::piv(v) >= n {
        assert(v =~= LinR::zero(n));
        let q = |x: RV| LinR::spans(e, n, x);
        assert(q(LinR::zero(n)));
    } else {
        let (r, t) = LinR::lemma_spans_lead(f, n, v);
        lemma_ech_pivots(e, f, n, 0);
        let w = e[r];
        LinR::lemma_piv(w);
        let k = LinR::piv(v);
        let m = v[k] / w[k];
        let u = LinR::comb(v, 1real, w, -m);
        assert(LinR::spans(f, n, w));
        let pf = |x: RV| LinR::spans(f, n, x);
        assert(pf(v) && pf(w));
        assert(pf(LinR::comb(v, 1real, w, -m)));
        let (x, y) = (v[k], w[k]);
        assert(x + -(x / y) * y == 0real) by (nonlinear_arith) requires y != 0real;
        assert(-(x / y) * y == (-m) * y);
        assert(u[k] == 0real);
        assert forall|j: int| 0 <= j < k implies u[j] == 0real by { assert(v[j] == 0real && w[j] == 0real); assert((-m) * 0real == 0real); }
        LinR::lemma_piv(u);
        assert(LinR::piv(u) > k);
        lemma_ech_same(e, f, n, u);
        LinR::lemma_row_spans(e, e, n, r);
        let pe = |x: RV| LinR::spans(e, n, x);
        assert(pe(u) && pe(w));
        assert(pe(LinR::comb(u, 1real, w, m)));
        assert(LinR::comb(u, 1real, w, m) =~= v) by {
            assert forall|j: int| 0 <= j < n implies LinR::comb(u, 1real, w, m)[j] == v[j] by { let z = w[j]; assert((-m) * z == -(m * z)) by (nonlinear_arith); }
        }
    }
}
/// .. and the pivots are the same
pub proof fn lemma_ech_pivots(e: Seq<RV>, f: Seq<RV>, n: int, i: int)
    requires n >= 0, LinR::echelon(e, n), LinR::echelon(f, n), f.len() <= e.len(), 0 <= i <= e.len(), forall|i: int| 0 <= i < e.len() ==> LinR::spans(f, n, #[trigger] e[i])
    ensures f.len() == e.len(), forall|j: int| i <= j < e.len() ==> LinR::piv(#[trigger] e[j]) == LinR::piv(f[j])
    decreases e.len() - i
{
    lemma_ech_posn(e, f, n, e.len() as int);
    if i < e.len() {
        lemma_ech_pivots(e, f, n, i + 1);
        lemma_ech_posn(e, f, n, i + 1);
        let (r, t) = LinR::lemma_spans_lead(f, n, e[i]);
        let (r1, t1) = LinR::lemma_spans_lead(f, n, e[i]);
        if i + 1 < e.len() {
            assert(LinR::piv(e[i]) < LinR::piv(e[i + 1]) && LinR::piv(e[i + 1]) == LinR::piv(f[i + 1]));
            if r > i + 1 { assert(LinR::piv(f[i + 1]) < LinR::piv(f[r])); }
            assert(r <= i);
        }
        assert(r >= i) by { if r < i { lemma_posn_low(e, f, n, i, r); } }
    }
}
pub proof fn lemma_posn_low(e: Seq<RV>, f: Seq<RV>, n: int, i: int, r: int)
    requires n >= 0, LinR::echelon(e, n), LinR::echelon(f, n), forall|i: int| 0 <= i < e.len() ==> LinR::spans(f, n, #[trigger] e[i]), 0 <= i < e.len(), 0 <= r < f.len(), LinR::piv(e[i]) == LinR::piv(f[r])
    ensures r >= i
    decreases i
{
    if i > 0 {
        let (r1, t1) = LinR::lemma_spans_lead(f, n, e[i - 1]);
        lemma_posn_low(e, f, n, i - 1, r1);
        assert(LinR::piv(e[i - 1]) < LinR::piv(e[i]));
        if r <= r1 { if r < r1 { assert(LinR::piv(f[r]) < LinR::piv(f[r1])); } assert(false); }
    }
}
pub proof fn lemma_ech_posn(e: Seq<RV>, f: Seq<RV>, n: int, k: int)
    requires n >= 0, LinR::echelon(e, n), LinR::echelon(f, n), 0 <= k <= e.len(), forall|i: int| 0 <= i < e.len() ==> LinR::spans(f, n, #[trigger] e[i])
    ensures k <= f.len()
{
    if k > 0 {
        let (r, t) = LinR::lemma_spans_lead(f, n, e[k - 1]);
        lemma_posn_low(e, f, n, k - 1, r);
    }
}
/// a vector outside of the span raises the rank, and only such a vector does
pub proof fn lemma_rank_step(a: Seq<RV>, w: RV, n: int, r: int)
    requires n >= 0, widthr(a, n), w.len() == n, LinR::rank_is(a, n, a.len() as int), LinR::rank_is(a.push(w), n, r)
    ensures lin(a, n, w) <==> r < a.len() + 1, lin(a, n, w) ==> r == a.len(), r <= a.len() ==> lin(a, n, w)
{
    let b = a.push(w);
    assert(b.take(a.len() as int) =~= a);
    let e = choose|e: Seq<RV>| #[trigger] LinR::basis_of(e, a, n) && e.len() == a.len();
    let f = choose|e: Seq<RV>| #[trigger] LinR::basis_of(e, b, n) && e.len() == r;
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).len() == n by { if i < a.len() { assert(b[i] == a[i]); } }
    lemma_lin_sub(a, n);
    lemma_lin_sub(b, n);
    if lin(a, n, w) {
        assert forall|p: spec_fn(RV) -> bool| #[trigger] LinR::sub(p, n) implies (LinR::all(p, a) <==> LinR::all(p, b)) by {
            if LinR::all(p, b) { assert forall|i: int| 0 <= i < a.len() implies p(#[trigger] a[i]) by { assert(p(b[i])); } }
            if LinR::all(p, a) {
                lemma_lin_all(a, n, p, w);
                assert forall|i: int| 0 <= i < b.len() implies p(#[trigger] b[i]) by { if i < a.len() { assert(p(a[i])); } }
            }
        }
        LinR::lemma_span_trans(e, a, b, n);
        assert(LinR::basis_of(e, b, n));
        LinR::lemma_rank_unique(b, n, r, a.len() as int);
    }
    if r <= a.len() {
        // rows of e are spanned by f
        LinR::lemma_spans_sub(f, n);
        let pf = |x: RV| LinR::spans(f, n, x);
        assert forall|i: int| 0 <= i < f.len() implies pf(#[trigger] f[i]) by { LinR::lemma_row_spans(f, f, n, i); }
        assert(LinR::all(pf, f));
        assert(LinR::all(pf, b));
        assert forall|i: int| 0 <= i < a.len() implies pf(#[trigger] a[i]) by { assert(pf(b[i])); }
        assert(LinR::all(pf, a));
        assert(LinR::all(pf, e));
        assert forall|i: int| 0 <= i < e.len() implies LinR::spans(f, n, #[trigger] e[i]) by { assert(pf(e[i])); }
        assert(pf(b[a.len() as int]));
        lemma_ech_same(e, f, n, w);
        let pa = |x: RV| LinR::spans(a, n, x);
        assert forall|i: int| 0 <= i < a.len() implies pa(#[trigger] a[i]) by { assert(lin(a, n, a[i])); }
        assert(LinR::all(pa, a));
        assert(LinR::all(pa, e));
        lemma_lin_all(e, n, pa, w);
    }
}

pub open spec fn line(t: int, u: int, v: int, a: int, b: int, c: int) -> bool { (t == a || t == b || t == c) && (u == a || u == b || u == c) && (v == a || v == b || v == c) }
/// three of the seven partial sums on a line of the Fano plane that is a sum of two and their sum
pub open spec fn collinear(t: int, u: int, v: int) -> bool {
    line(t, u, v, 0, 1, 3) || line(t, u, v, 0, 2, 4) || line(t, u, v, 1, 2, 5) || line(t, u, v, 3, 2, 6) || line(t, u, v, 4, 1, 6) || line(t, u, v, 5, 0, 6)
}
pub open spec fn sum7(d: Seq<RV>) -> bool {
    d.len() == 7 && widthr(d, 3) && d[3] == plus(d[0], d[1]) && d[4] == plus(d[0], d[2]) && d[5] == plus(d[1], d[2]) && d[6] == plus(plus(d[0], d[1]), d[2])
}
pub proof fn lemma_line(p: spec_fn(RV) -> bool, n: int, a: RV, b: RV, c: RV)
    requires latp(p, n), a.len() == n, b.len() == n, c == plus(a, b)
    ensures p(a) && p(b) ==> p(c), p(a) && p(c) ==> p(b), p(b) && p(c) ==> p(a)
{
    if p(a) && p(b) { lemma_lat(p, n, a, 1, b, 1); }
    if p(a) && p(c) { lemma_lat(p, n, c, 1, a, -1); assert(cb(c, 1int as real, a, (-1int) as real) =~= b); }
    if p(b) && p(c) { lemma_lat(p, n, c, 1, b, -1); assert(cb(c, 1int as real, b, (-1int) as real) =~= a); }
}
pub proof fn lemma_lines(p: spec_fn(RV) -> bool, d: Seq<RV>)
    requires latp(p, 3), sum7(d)
    ensures ({ let (a, b, c, e, f, g, h) = (p(d[0]), p(d[1]), p(d[2]), p(d[3]), p(d[4]), p(d[5]), p(d[6]));
        &&& (a && b ==> e) && (a && e ==> b) && (b && e ==> a)
        &&& (a && c ==> f) && (a && f ==> c) && (c && f ==> a)
        &&& (b && c ==> g) && (b && g ==> c) && (c && g ==> b)
        &&& (e && c ==> h) && (e && h ==> c) && (c && h ==> e)
        &&& (f && b ==> h) && (f && h ==> b) && (b && h ==> f)
        &&& (g && a ==> h) && (g && h ==> a) && (a && h ==> g)
    })
{
    assert(d[0].len() == 3 && d[1].len() == 3 && d[2].len() == 3 && d[3].len() == 3 && d[4].len() == 3 && d[5].len() == 3 && d[6].len() == 3);
    lemma_line(p, 3, d[0], d[1], d[3]);
    lemma_line(p, 3, d[0], d[2], d[4]);
    lemma_line(p, 3, d[1], d[2], d[5]);
    lemma_line(p, 3, d[3], d[2], d[6]);
    assert(d[6] =~= plus(d[4], d[1])); lemma_line(p, 3, d[4], d[1], d[6]);
    assert(d[6] =~= plus(d[5], d[0])); lemma_line(p, 3, d[5], d[0], d[6]);
}
pub proof fn lemma_fano(p: spec_fn(RV) -> bool, d: Seq<RV>, t: int, u: int, v: int)
    requires latp(p, 3), sum7(d), 0 <= t < 7, 0 <= u < 7, 0 <= v < 7, t != u, t != v, u != v, p(d[t]), p(d[u]), p(d[v]), !collinear(t, u, v), !line(t, u, v, 3, 4, 5)
    ensures forall|i: int| 0 <= i < 7 ==> p(#[trigger] d[i])
{
    lemma_lines(p, d);
    let (p0, p1, p2, p3, p4, p5, p6) = (p(d[0]), p(d[1]), p(d[2]), p(d[3]), p(d[4]), p(d[5]), p(d[6]));
    assert((t == 0 || u == 0 || v == 0) ==> p0);
    assert((t == 1 || u == 1 || v == 1) ==> p1);
    assert((t == 2 || u == 2 || v == 2) ==> p2);
    assert((t == 3 || u == 3 || v == 3) ==> p3);
    assert((t == 4 || u == 4 || v == 4) ==> p4);
    assert((t == 5 || u == 5 || v == 5) ==> p5);
    assert((t == 6 || u == 6 || v == 6) ==> p6);
    assert(p0 && p1 && p2 && p3 && p4 && p5 && p6);
}
pub proof fn lemma_collinear(p: spec_fn(RV) -> bool, d: Seq<RV>, t: int, u: int, v: int)
    requires latp(p, 3), sum7(d), 0 <= t < 7, 0 <= u < 7, 0 <= v < 7, t != u, t != v, u != v, p(d[t]), p(d[u]), collinear(t, u, v)
    ensures p(d[v])
{ lemma_lines(p, d); }
pub open spec fn pm(a: RV, b: RV) -> bool { a == b || a == neg1(b) }
pub proof fn lemma_pm(f: Form, p: spec_fn(RV) -> bool, n: int, a: RV, b: RV)
    requires latp(p, n), a.len() == n, b.len() == n, pm(a, b)
    ensures p(a) <==> p(b)
{
    if a == neg1(b) {
        if p(a) { lemma_lat_neg(p, n, b, a); }
        if p(b) { lemma_lat(p, n, b, -1, b, 0); assert(cb(b, (-1int) as real, b, 0int as real) =~= a); }
    }
}
pub proof fn lemma_pm_nrm(f: Form, n: int, a: RV, b: RV)
    requires is_form(f, n), a.len() == n, b.len() == n, pm(a, b)
    ensures nrm(f, a) == nrm(f, b)
{
    if a == neg1(b) {
        lemma_fv_r(f, n, b, -1real, b, 0real, a);
        lemma_fv_r(f, n, b, -1real, b, 0real, b);
        assert(fv(f, a, b) == fv(f, b, a));
    }
}
pub open spec fn from_d(d: Seq<RV>, a: RV, t: int) -> bool { 0 <= t < d.len() && pm(a, d[t]) }
pub open spec fn has_src(d: Seq<RV>, a: RV) -> bool { exists|t: int| #[trigger] from_d(d, a, t) }
pub open spec fn min_at(f: Form, a: Seq<RV>, n: int, k: int, v: RV) -> bool { lin(a.take(k), n, v) || nrm(f, a[k]) <= nrm(f, v) }
pub open spec fn indep_at(a: Seq<RV>, n: int, k: int) -> bool { !lin(a.take(k), n, a[k]) }
/// a is what the greedy choice leaves: independent members of d (up to sign), each the shortest outside of the span of those before
pub open spec fn greedy(f: Form, a: Seq<RV>, d: Seq<RV>, n: int) -> bool {
    &&& widthr(a, n)
    &&& forall|k: int| 0 <= k < a.len() ==> #[trigger] indep_at(a, n, k)
    &&& forall|k: int, i: int| 0 <= k < a.len() && 0 <= i < d.len() ==> #[trigger] min_at(f, a, n, k, d[i])
    &&& forall|k: int| 0 <= k < a.len() ==> has_src(d, #[trigger] a[k])
}
pub proof fn lemma_lin_mono(a: Seq<RV>, n: int, j: int, k: int, v: RV)
    requires n >= 0, widthr(a, n), 0 <= j <= k <= a.len(), lin(a.take(j), n, v)
    ensures lin(a.take(k), n, v)
{
    let (x, y) = (a.take(j), a.take(k));
    assert forall|i: int| 0 <= i < y.len() implies (#[trigger] y[i]).len() == n by { assert(y[i] == a[i]); }
    assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).len() == n by { assert(x[i] == a[i]); }
    lemma_lin_sub(y, n);
    let p = |v: RV| LinR::spans(y, n, v);
    assert forall|i: int| 0 <= i < x.len() implies p(#[trigger] x[i]) by { assert(x[i] == y[i]); assert(lin(y, n, y[i])); }
    lemma_lin_all(x, n, p, v);
}
pub open spec fn wlin(a: Seq<RV>, n: int, k: int) -> spec_fn(RV) -> bool { |v: RV| lin(a.take(k), n, v) }
pub proof fn lemma_wlin(a: Seq<RV>, n: int, k: int)
    requires n >= 0, widthr(a, n), 0 <= k <= a.len()
    ensures latp(wlin(a, n, k), n), wlin(a, n, k)(zr(n)), forall|i: int| 0 <= i < k ==> wlin(a, n, k)(#[trigger] a[i])
{
    let x = a.take(k);
    assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).len() == n by { assert(x[i] == a[i]); }
    lemma_lin_sub(x, n);
    assert forall|i: int| 0 <= i < k implies wlin(a, n, k)(#[trigger] a[i]) by { assert(lin(x, n, x[i])); }
}
/// two distinct members of a greedy choice come from distinct vectors of the list
pub proof fn lemma_distinct(f: Form, a: Seq<RV>, d: Seq<RV>, n: int, j: int, k: int, t: int, u: int)
    requires n >= 0, greedy(f, a, d, n), widthr(d, n), 0 <= j < k < a.len(), from_d(d, a[j], t), from_d(d, a[k], u)
    ensures t != u
{
    if t == u {
        lemma_wlin(a, n, k);
        let w = wlin(a, n, k);
        assert(a[j].len() == n && a[k].len() == n && d[t].len() == n);
        assert(w(a[j]));
        lemma_pm(f, w, n, a[j], d[t]);
        lemma_pm(f, w, n, a[k], d[t]);
        assert(indep_at(a, n, k));
    }
}
pub proof fn lemma_cell(p: spec_fn(RV) -> bool, f: Form, d: Seq<RV>, n: int)
    requires dir_set(f, d, n), latp(p, n)
    ensures allp(p, cell(d, n)) <==> allp(p, d)
{
    let c = cell(d, n);
    assert(d[0].len() == n && d[1].len() == n && d[2].len() == n);
    if allp(p, d) { assert forall|i: int| 0 <= i < c.len() implies p(#[trigger] c[i]) by { assert(p(d[i])); } }
    if allp(p, c) {
        assert(p(c[0]) && p(c[1]));
        if n == 2 { lemma_line(p, n, d[0], d[1], d[2]); assert(p(d[0]) && p(d[1]) && p(d[2])); }
        else { assert(p(c[2])); lemma_lines(p, d); assert(p(d[0]) && p(d[1]) && p(d[2]) && p(d[3]) && p(d[4]) && p(d[5]) && p(d[6])); }
    }
}
pub proof fn lemma_fake(f: Form, a: Seq<RV>, d: Seq<RV>, t: int, u: int, v: int)
    requires is_form(f, 3), dir_set(f, d, 3), greedy(f, a, d, 3), a.len() == 3, from_d(d, a[0], t), from_d(d, a[1], u), from_d(d, a[2], v)
    ensures !line(t, u, v, 3, 4, 5)
{
    if line(t, u, v, 3, 4, 5) {
        lemma_distinct(f, a, d, 3, 0, 1, t, u); lemma_distinct(f, a, d, 3, 0, 2, t, v); lemma_distinct(f, a, d, 3, 1, 2, u, v);
        assert(a[0].len() == 3 && a[1].len() == 3 && a[2].len() == 3);
        assert(d[0].len() == 3 && d[1].len() == 3 && d[2].len() == 3 && d[3].len() == 3 && d[4].len() == 3 && d[5].len() == 3 && d[6].len() == 3);
        assert(sum7(d));
        lemma_wlin(a, 3, 2);
        let w = wlin(a, 3, 2);
        assert(w(a[0]) && w(a[1]));
        lemma_pm(f, w, 3, a[0], d[t]); lemma_pm(f, w, 3, a[1], d[u]); lemma_pm(f, w, 3, a[2], d[v]);
        assert(indep_at(a, 3, 2));
        if w(d[0]) { lemma_fano(w, d, t, u, 0); }
        if w(d[1]) { lemma_fano(w, d, t, u, 1); }
        if w(d[2]) { lemma_fano(w, d, t, u, 2); }
        if w(d[6]) { lemma_fano(w, d, t, u, 6); }
        assert(min_at(f, a, 3, 2, d[0]) && min_at(f, a, 3, 2, d[1]) && min_at(f, a, 3, 2, d[2]) && min_at(f, a, 3, 2, d[6]));
        assert(min_at(f, a, 3, 1, d[v]) && min_at(f, a, 3, 0, d[v]));
        if lin(a.take(1), 3, d[v]) { lemma_lin_mono(a, 3, 1, 2, d[v]); }
        if lin(a.take(0), 3, d[v]) { lemma_lin_mono(a, 3, 0, 2, d[v]); }
        lemma_pm_nrm(f, 3, a[0], d[t]); lemma_pm_nrm(f, 3, a[1], d[u]); lemma_pm_nrm(f, 3, a[2], d[v]);
        lemma_nrm_plus(f, 3, d[0], d[1]); lemma_nrm_plus(f, 3, d[0], d[2]); lemma_nrm_plus(f, 3, d[1], d[2]); lemma_nrm_plus(f, 3, d[3], d[2]);
        lemma_fv_r(f, 3, d[0], 1real, d[1], 1real, d[2]);
        assert(fv(f, d[3], d[2]) == fv(f, d[0], d[2]) + fv(f, d[1], d[2]));
        assert(a[2] != zr(3));
        assert(fv(f, a[2], a[2]) > 0real);
        assert(false);
    }
}
/// the greedy choice of n vectors generates the lattice
pub proof fn lemma_generates(f: Form, a: Seq<RV>, d: Seq<RV>, n: int)
    requires is_form(f, n), dir_set(f, d, n), greedy(f, a, d, n), a.len() == n
    ensures same_lat(a, cell(d, n), n)
{
    assert(d[0].len() == n && d[1].len() == n && d[2].len() == n);
    assert(has_src(d, a[0]) && has_src(d, a[1]));
    let t = choose|t: int| #[trigger] from_d(d, a[0], t);
    let u = choose|t: int| #[trigger] from_d(d, a[1], t);
    lemma_distinct(f, a, d, n, 0, 1, t, u);
    assert forall|p: spec_fn(RV) -> bool| #[trigger] latp(p, n) implies (allp(p, a) <==> allp(p, cell(d, n))) by {
        lemma_cell(p, f, d, n);
        if allp(p, cell(d, n)) {
            assert forall|k: int| 0 <= k < n implies p(#[trigger] a[k]) by {
                assert(has_src(d, a[k]));
                let t = choose|t: int| #[trigger] from_d(d, a[k], t);
                assert(p(d[t])); assert(a[k].len() == n && d[t].len() == n);
                lemma_pm(f, p, n, a[k], d[t]);
            }
        }
        if allp(p, a) {
            assert(p(a[0]) && p(a[1]));
            assert(a[0].len() == n && a[1].len() == n && d[t].len() == n && d[u].len() == n);
            lemma_pm(f, p, n, a[0], d[t]); lemma_pm(f, p, n, a[1], d[u]);
            if n == 2 {
                lemma_line(p, n, d[0], d[1], d[2]);
                assert(p(d[0]) && p(d[1]) && p(d[2]));
            } else {
                assert(has_src(d, a[2]));
                let v = choose|t: int| #[trigger] from_d(d, a[2], t);
                lemma_distinct(f, a, d, n, 0, 2, t, v); lemma_distinct(f, a, d, n, 1, 2, u, v);
                lemma_fake(f, a, d, t, u, v);
                assert(p(a[2]) && a[2].len() == n && d[v].len() == n);
                lemma_pm(f, p, n, a[2], d[v]);
                if collinear(t, u, v) {
                    lemma_wlin(a, 3, 2);
                    let w = wlin(a, 3, 2);
                    assert(w(a[0]) && w(a[1]));
                    lemma_pm(f, w, 3, a[0], d[t]); lemma_pm(f, w, 3, a[1], d[u]); lemma_pm(f, w, 3, a[2], d[v]);
                    lemma_collinear(w, d, t, u, v);
                    assert(indep_at(a, 3, 2));
                }
                lemma_fano(p, d, t, u, v);
            }
        }
    }
}
pub open spec fn is_lv(s: Seq<RV>, v: RV) -> bool { exists|m: I4| v == #[trigger] lv(s, m) }
pub open spec fn mix4(x: I4, a: int, y: I4, b: int) -> I4 { (a * x.0 + b * y.0, a * x.1 + b * y.1, a * x.2 + b * y.2, a * x.3 + b * y.3) }
pub proof fn lemma_mix1(s: real, a: int, x: int, b: int, y: int)
    ensures ((a * x + b * y) as real) * s == (a as real) * ((x as real) * s) + (b as real) * ((y as real) * s)
{
    lemma_mulr(a, x); lemma_mulr(b, y);
    let (ar, xr, br, yr) = (a as real, x as real, b as real, y as real);
    let (p, q) = (ar * xr, br * yr);
    assert((a * x + b * y) as real == p + q);
    assert((p + q) * s == p * s + q * s) by (nonlinear_arith);
    assert(p * s == ar * (xr * s)) by (nonlinear_arith) requires p == ar * xr;
    assert(q * s == br * (yr * s)) by (nonlinear_arith) requires q == br * yr;
}
proof fn lemma_01(x: real)
    ensures (0int as real) * x == 0real, (1int as real) * x == x
{ assert((0int as real) * x == 0real) by (nonlinear_arith); assert((1int as real) * x == x) by (nonlinear_arith); }
pub proof fn lemma_is_lv(s: Seq<RV>, n: int)
    requires s.len() == 4, widthr(s, n), n >= 0
    ensures latp(|v: RV| is_lv(s, v), n), is_lv(s, s[0]), is_lv(s, s[1]), is_lv(s, s[2])
{
    assert(s[0].len() == n && s[1].len() == n && s[2].len() == n && s[3].len() == n);
    let p = |v: RV| is_lv(s, v);
    assert(lv(s, (1, 0, 0, 0)) =~= s[0]) by { assert forall|k: int| 0 <= k < n implies lv(s, (1, 0, 0, 0))[k] == s[0][k] by { lemma_01(s[0][k]); lemma_01(s[1][k]); lemma_01(s[2][k]); lemma_01(s[3][k]); } }
    assert(lv(s, (0, 1, 0, 0)) =~= s[1]) by { assert forall|k: int| 0 <= k < n implies lv(s, (0, 1, 0, 0))[k] == s[1][k] by { lemma_01(s[0][k]); lemma_01(s[1][k]); lemma_01(s[2][k]); lemma_01(s[3][k]); } }
    assert(lv(s, (0, 0, 1, 0)) =~= s[2]) by { assert forall|k: int| 0 <= k < n implies lv(s, (0, 0, 1, 0))[k] == s[2][k] by { lemma_01(s[0][k]); lemma_01(s[1][k]); lemma_01(s[2][k]); lemma_01(s[3][k]); } }
    assert forall|u: RV, a: int, v: RV, b: int| u.len() == n && v.len() == n && p(u) && p(v) implies p(#[trigger] cbi(u, a, v, b)) by {
        let x = choose|m: I4| u == #[trigger] lv(s, m);
        let y = choose|m: I4| v == #[trigger] lv(s, m);
        let z = mix4(x, a, y, b);
        assert(cbi(u, a, v, b) =~= lv(s, z)) by {
            assert forall|k: int| 0 <= k < n implies cbi(u, a, v, b)[k] == lv(s, z)[k] by {
                lemma_mix1(s[0][k], a, x.0, b, y.0); lemma_mix1(s[1][k], a, x.1, b, y.1); lemma_mix1(s[2][k], a, x.2, b, y.2); lemma_mix1(s[3][k], a, x.3, b, y.3);
                let (ar, br) = (a as real, b as real);
                let (x0, x1, x2, x3) = ((x.0 as real) * s[0][k], (x.1 as real) * s[1][k], (x.2 as real) * s[2][k], (x.3 as real) * s[3][k]);
                let (y0, y1, y2, y3) = ((y.0 as real) * s[0][k], (y.1 as real) * s[1][k], (y.2 as real) * s[2][k], (y.3 as real) * s[3][k]);
                assert(ar * (x0 + x1 + (x2 + x3)) == ar * x0 + ar * x1 + (ar * x2 + ar * x3)) by (nonlinear_arith);
                assert(br * (y0 + y1 + (y2 + y3)) == br * y0 + br * y1 + (br * y2 + br * y3)) by (nonlinear_arith);
            }
        }
    }
}
/// a[k] is as short as any vector of the lattice outside of the span of the vectors before
pub open spec fn succ_min(f: Form, a: Seq<RV>, b: Seq<RV>, n: int) -> bool {
    forall|k: int, x: RV| 0 <= k < a.len() && x.len() == n && #[trigger] in_lat(b, x, n) ==> #[trigger] min_at(f, a, n, k, x)
}
pub proof fn lemma_in_lv(f: Form, d: Seq<RV>, b: Seq<RV>, n: int, x: RV)
    requires is_form(f, n), dir_set(f, d, n), same_lat(cell(d, n), b, n), x.len() == n, in_lat(b, x, n)
    ensures is_lv(sbase(d, n), x)
{
    let s = sbase(d, n);
    assert(d[0].len() == n && d[1].len() == n && d[2].len() == n);
    assert(s.len() == 4 && s[0].len() == n && s[1].len() == n && s[2].len() == n && s[3].len() == n);
    assert(widthr(s, n));
    lemma_is_lv(s, n);
    let p = |v: RV| is_lv(s, v);
    let c = cell(d, n);
    assert(c[0] == s[0] && c[1] == s[1] && (n == 3 ==> c[2] == s[2]));
    assert forall|i: int| 0 <= i < c.len() implies p(#[trigger] c[i]) by { assert(i == 0 || i == 1 || (n == 3 && i == 2)); }
    assert(allp(p, c));
    assert(allp(p, b));
    assert(p(x));
}
pub open spec fn src_of(d: Seq<RV>, v: RV) -> bool { exists|i: int| 0 <= i < d.len() && pm(#[trigger] d[i], v) }
pub proof fn lemma_partial2(f: Form, d: Seq<RV>, n: int, q: I4)
    requires dir_set(f, d, n), bits(q), q.3 == 0, lv(sbase(d, n), q) != zr(n)
    ensures src_of(d, lv(sbase(d, n), q))
{
    let v = lv(sbase(d, n), q);
    lemma_partial(f, d, n, q);
    let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i] == v || d[i] == neg1(v));
    assert(pm(d[i], v));
}
pub proof fn lemma_succ_min(f: Form, a: Seq<RV>, d: Seq<RV>, b: Seq<RV>, n: int, k: int, x: RV)
    requires is_form(f, n), dir_set(f, d, n), greedy(f, a, d, n), same_lat(cell(d, n), b, n), 0 <= k < a.len(), x.len() == n, in_lat(b, x, n)
    ensures min_at(f, a, n, k, x)
{
    if !lin(a.take(k), n, x) {
        let s = sbase(d, n);
        lemma_in_lv(f, d, b, n, x);
        let m = choose|m: I4| x == #[trigger] lv(s, m);
        lemma_wlin(a, n, k);
        let w = wlin(a, n, k);
        assert(!w(x));
        let q = lemma_outside(f, n, s, w, m);
        let v = lv(s, q);
        assert(!w(v) && w(zr(n)));
        assert(s[0].len() == n && v.len() == n);
        lemma_partial2(f, d, n, q);
        let i = choose|i: int| 0 <= i < d.len() && pm(#[trigger] d[i], v);
        assert(d[i].len() == n);
        lemma_pm(f, w, n, d[i], v); lemma_pm_nrm(f, n, d[i], v);
        assert(min_at(f, a, n, k, d[i]));
    }
}
pub open spec fn posdir(v: RV) -> RV { if LinR::piv(v) < v.len() && v[LinR::piv(v)] < 0real { neg1(v) } else { v } }
@fn spacegroups/lattices.rs :: rank
    as rank_v
    inst Rat
    sub T=Rat
    letty basis Vec<Vec<Rat>>
    call extend_basis=extend_basis_Rat
    generics <>
@spec
    requires vs@.len() > 0, widthr(rowsr(vs@), vs@[0]@.len() as int)
    ensures LinR::rank_is(rowsr(vs@), vs@[0]@.len() as int, res as int), res <= vs@.len()
@at start
    let ghost n = vs@[0]@.len() as int;
    let ghost m = rowsr(vs@);
    proof { assert(m.take(0) =~= Seq::<RV>::empty()); }
@loop 1
    LinR::basis_of(LinR::rows(basis@), m.take(it1 as int), n), basis@.len() <= it1, seq1@ == vs@, m == rowsr(vs@), widthr(m, n)
@at loop 1 start
    let ghost b0 = LinR::rows(basis@);
    let ghost k = it1 - 1;
    proof { LinR::lemma_take(m, k); assert(m[k].len() == n); assert(LinR::vv(vs@[k]@) =~= m[k]); }
@at loop 1 end
    proof { LinR::lemma_basis_step(b0, LinR::rows(basis@), m.take(k), m[k], n); }
@at end
    proof { assert(m.take(m.len() as int) =~= m); }
@endfn
@fn spacegroups/lattices.rs :: positive_direction
    inst Rat
    sub T=Rat
    call neg=vneg_v
    accty 1 Option<&Rat>
@spec
    ensures vvr(res@) == posdir(vvr(v@)), res@.len() == v@.len()
@loop 1
    forall|k: int| 0 <= k < it1 && (acc1.is_none() || k < it1 - 1) ==> (#[trigger] seq1@[k]).v() == 0real, seq1@ == v@,
    acc1 matches Some(x) ==> it1 >= 1 && *x == v@[it1 - 1] && x.v() != 0real,
@at after loop 1
    proof { LinR::lemma_piv_is(vvr(v@), match acc1 { Some(c) => it1 - 1, None => v@.len() as int }); }
@endfn
pub open spec fn posdirf() -> spec_fn(RV) -> RV { |v: RV| posdir(v) }
pub proof fn lemma_cmpv(f: Form)
    ensures forall|a: RV, b: RV| #[trigger] cmpv(f, posdirf(), a, b) > 0 <==> cmpv(f, posdirf(), b, a) < 0,
        forall|a: RV, b: RV, c: RV| #[trigger] cmpv(f, posdirf(), a, b) <= 0 && #[trigger] cmpv(f, posdirf(), b, c) <= 0 ==> cmpv(f, posdirf(), a, c) <= 0
{ axiom_lex(); }
pub open spec fn asc(f: Form, a: Seq<RV>) -> bool { forall|j: int, k: int| 0 <= j <= k < a.len() ==> nrm(f, #[trigger] a[j]) <= nrm(f, #[trigger] a[k]) }
/// the vectors that were kept so far, out of the sorted list w of which the first i were looked at
#[verifier::opaque]
pub open spec fn kept(f: Form, a: Seq<RV>, w: Seq<RV>, n: int, i: int) -> bool {
    &&& greedy(f, a, w, n)
    &&& LinR::rank_is(a, n, a.len() as int)
    &&& forall|j: int| 0 <= j < i ==> lin(a, n, #[trigger] w[j])
    &&& forall|k: int| 1 <= k < a.len() ==> fv(f, a[0], #[trigger] a[k]) <= 0real
}
pub proof fn lemma_kept0(f: Form, w: Seq<RV>, n: int)
    requires n >= 0
    ensures kept(f, Seq::<RV>::empty(), w, n, 0)
{
    reveal(kept);
    let a = Seq::<RV>::empty();
    assert(LinR::basis_of(a, a, n));
}
pub proof fn lemma_lin_neg(a: Seq<RV>, n: int, v: RV, c: RV)
    requires n >= 0, widthr(a, n), v.len() == n, c.len() == n, pm(c, v)
    ensures lin(a, n, c) <==> lin(a, n, v)
{
    lemma_wlin(a, n, a.len() as int);
    assert(a.take(a.len() as int) =~= a);
    let p = wlin(a, n, a.len() as int);
    assert(p(c) <==> lin(a, n, c)); assert(p(v) <==> lin(a, n, v));
    if c == neg1(v) {
        if p(c) { lemma_lat_neg(p, n, v, c); }
        if p(v) { lemma_lat(p, n, v, -1, v, 0); assert(cb(v, (-1int) as real, v, 0int as real) =~= c); }
    }
}
/// the next vector is dropped
pub proof fn lemma_kept_drop(f: Form, a: Seq<RV>, w: Seq<RV>, n: int, i: int, c: RV, r: int)
    requires n >= 0, widthr(w, n), kept(f, a, w, n, i), 0 <= i < w.len(), c.len() == n, pm(c, w[i]), LinR::rank_is(a.push(c), n, r), r < a.len() + 1
    ensures kept(f, a, w, n, i + 1)
{
    reveal(kept);
    assert(w[i].len() == n);
    lemma_rank_step(a, c, n, r);
    lemma_lin_neg(a, n, w[i], c);
}
pub open spec fn from_here(f: Form, w: Seq<RV>, i: int) -> bool { forall|j: int| i <= j < w.len() ==> nrm(f, w[i]) <= nrm(f, #[trigger] w[j]) }
/// the next vector is kept
pub proof fn lemma_kept_add(f: Form, a: Seq<RV>, w: Seq<RV>, n: int, i: int, c: RV, r: int)
    requires n >= 0, is_form(f, n), widthr(w, n), kept(f, a, w, n, i), 0 <= i < w.len(), c.len() == n, pm(c, w[i]), LinR::rank_is(a.push(c), n, r), r == a.len() + 1,
        from_here(f, w, i), a.len() > 0 ==> fv(f, a[0], c) <= 0real
    ensures kept(f, a.push(c), w, n, i + 1)
{
    reveal(kept);
    let b = a.push(c);
    let m = a.len() as int;
    assert(w[i].len() == n);
    lemma_rank_step(a, c, n, r);
    lemma_lin_neg(a, n, w[i], c);
    lemma_pm_nrm(f, n, c, w[i]);
    assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]).len() == n by { if j < m { assert(b[j] == a[j]); } }
    assert(b.take(m) =~= a);
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] indep_at(b, n, k) by {
        if k < m { assert(indep_at(a, n, k)); assert(b.take(k) =~= a.take(k)); }
    }
    assert forall|k: int, j: int| 0 <= k < b.len() && 0 <= j < w.len() implies #[trigger] min_at(f, b, n, k, w[j]) by {
        if k < m { assert(min_at(f, a, n, k, w[j])); assert(b.take(k) =~= a.take(k)); }
        else if j < i { assert(lin(a, n, w[j])); }
        else { assert(nrm(f, w[i]) <= nrm(f, w[j])); }
    }
    assert forall|k: int| 0 <= k < b.len() implies has_src(w, #[trigger] b[k]) by {
        if k < m { assert(has_src(w, a[k])); } else { assert(from_d(w, c, i)); }
    }
    assert forall|j: int| 0 <= j < i + 1 implies lin(b, n, #[trigger] w[j]) by {
        if j < i { assert(lin(a, n, w[j])); lemma_lin_mono(b, n, m, m + 1, w[j]); assert(b.take(m + 1) =~= b); }
        else { lemma_lin_sub(b, n); assert(lin(b, n, b[m])); lemma_lin_neg(b, n, w[j], c); }
    }
}
/// a greedy choice is ascending
pub proof fn lemma_asc(f: Form, a: Seq<RV>, w: Seq<RV>, n: int)
    requires n >= 0, is_form(f, n), widthr(w, n), greedy(f, a, w, n)
    ensures asc(f, a)
{
    assert forall|j: int, k: int| 0 <= j <= k < a.len() implies nrm(f, #[trigger] a[j]) <= nrm(f, #[trigger] a[k]) by {
        assert(has_src(w, a[k]));
        let t = choose|t: int| #[trigger] from_d(w, a[k], t);
        assert(w[t].len() == n && a[k].len() == n);
        assert(min_at(f, a, n, j, w[t]));
        lemma_pm_nrm(f, n, a[k], w[t]);
        if lin(a.take(j), n, w[t]) {
            lemma_lin_mono(a, n, j, k, w[t]);
            let x = a.take(k);
            assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).len() == n by { assert(x[i] == a[i]); }
            lemma_lin_neg(x, n, w[t], a[k]);
            assert(indep_at(a, n, k));
        }
    }
}
/// the same for the list before it was sorted
pub proof fn lemma_greedy_perm(f: Form, a: Seq<RV>, w: Seq<RV>, d: Seq<RV>, n: int)
    requires greedy(f, a, w, n), same_elems(w, d)
    ensures greedy(f, a, d, n)
{
    reveal(same_elems);
    assert forall|k: int, i: int| 0 <= k < a.len() && 0 <= i < d.len() implies #[trigger] min_at(f, a, n, k, d[i]) by {
        assert(has_elem(w, d[i]));
        let j = choose|j: int| 0 <= j < w.len() && #[trigger] w[j] == d[i];
        assert(min_at(f, a, n, k, w[j]));
    }
    assert forall|k: int| 0 <= k < a.len() implies has_src(d, #[trigger] a[k]) by {
        assert(has_src(w, a[k]));
        let t = choose|t: int| #[trigger] from_d(w, a[k], t);
        assert(has_elem(d, w[t]));
        let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == w[t];
        assert(from_d(d, a[k], j));
    }
}
pub open spec fn has_elem(w: Seq<RV>, x: RV) -> bool { exists|j: int| 0 <= j < w.len() && #[trigger] w[j] == x }
#[verifier::opaque]
pub open spec fn same_elems(w: Seq<RV>, d: Seq<RV>) -> bool {
    &&& forall|i: int| 0 <= i < d.len() ==> #[trigger] has_elem(w, d[i])
    &&& forall|i: int| 0 <= i < w.len() ==> #[trigger] has_elem(d, w[i])
}
/// the vectors b lie in the span of fewer than n vectors
#[verifier::opaque]
pub open spec fn deficient(b: Seq<RV>, n: int) -> bool { exists|a: Seq<RV>| a.len() < n && widthr(a, n) && #[trigger] spanned(b, a, n) }
pub open spec fn spanned(b: Seq<RV>, a: Seq<RV>, n: int) -> bool { forall|i: int| 0 <= i < b.len() ==> lin(a, n, #[trigger] b[i]) }
#[verifier::opaque]
pub open spec fn reduced_of(f: Form, a: Seq<RV>, b: Seq<RV>, n: int) -> bool {
    &&& a.len() == n && widthr(a, n)
    &&& same_lat(a, b, n)
    &&& succ_min(f, a, b, n)
    &&& asc(f, a)
    &&& forall|k: int| 0 <= k < n ==> #[trigger] indep_at(a, n, k)
    &&& forall|k: int| 1 <= k < n ==> fv(f, a[0], #[trigger] a[k]) <= 0real
}
pub proof fn lemma_some(f: Form, a: Seq<RV>, w: Seq<RV>, d: Seq<RV>, b: Seq<RV>, n: int, i: int)
    requires is_form(f, n), dir_set(f, d, n), widthr(w, n), same_elems(w, d), same_lat(cell(d, n), b, n), kept(f, a, w, n, i), a.len() == n
    ensures reduced_of(f, a, b, n)
{
    reveal(kept);
    reveal(reduced_of);
    lemma_greedy_perm(f, a, w, d, n);
    lemma_asc(f, a, w, n);
    lemma_generates(f, a, d, n);
    assert forall|k: int, x: RV| 0 <= k < a.len() && x.len() == n && #[trigger] in_lat(b, x, n) implies #[trigger] min_at(f, a, n, k, x) by {
        lemma_succ_min(f, a, d, b, n, k, x);
    }
}
pub proof fn lemma_none(f: Form, a: Seq<RV>, w: Seq<RV>, d: Seq<RV>, b: Seq<RV>, n: int)
    requires is_form(f, n), dir_set(f, d, n), widthr(w, n), same_elems(w, d), same_lat(cell(d, n), b, n), kept(f, a, w, n, w.len() as int), a.len() < n
    ensures deficient(b, n)
{
    reveal(kept);
    reveal(same_elems);
    reveal(deficient);
    lemma_lin_sub(a, n);
    let p = |v: RV| lin(a, n, v);
    let c = cell(d, n);
    assert forall|i: int| 0 <= i < c.len() implies p(#[trigger] c[i]) by {
        assert(c[i] == d[i]);
        assert(has_elem(w, d[i]));
        let j = choose|j: int| 0 <= j < w.len() && #[trigger] w[j] == d[i];
        assert(lin(a, n, w[j]));
    }
    assert(allp(p, c));
    assert(allp(p, b));
    assert forall|i: int| 0 <= i < b.len() implies lin(a, n, #[trigger] b[i]) by { assert(p(b[i])); }
    assert(spanned(b, a, n));
}
pub open spec fn norms_ascend(f: Form, s: Seq<Vec<Rat>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> nrm(f, vvr(#[trigger] s[i]@)) <= nrm(f, vvr(#[trigger] s[j]@)) }
pub proof fn lemma_sorted(f: Form, a: Seq<Vec<Rat>>, b: Seq<Vec<Rat>>, n: int)
    requires widthr(rowsr(a), n), norms_ascend(f, b),
        same_items(a, b), same_items(b, a),
    ensures same_elems(rowsr(b), rowsr(a)), widthr(rowsr(b), n), forall|i: int| 0 <= i < b.len() ==> #[trigger] from_here(f, rowsr(b), i)
{
    reveal(same_elems);
    let (s, d) = (rowsr(b), rowsr(a));
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] has_elem(d, s[i]) by {
        assert(in_seq(a, b[i]));
        let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == b[i];
        assert(d[j] == s[i]);
    }
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] has_elem(s, d[i]) by {
        assert(in_seq(b, a[i]));
        let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == a[i];
        assert(s[j] == d[i]);
    }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).len() == n by {
        assert(has_elem(d, s[i]));
        let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == s[i];
    }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] from_here(f, s, i) by {
        assert forall|j: int| i <= j < s.len() implies nrm(f, s[i]) <= nrm(f, #[trigger] s[j]) by {
            if i < j { assert(nrm(f, vvr(b[i]@)) <= nrm(f, vvr(b[j]@))); }
        }
    }
}
pub open spec fn chosen(f: Form, ra: Seq<RV>, w: RV, c: RV) -> bool { c == if ra.len() > 0 && fv(f, ra[0], w) > 0real { neg1(w) } else { w } }
pub proof fn lemma_chosen(f: Form, ra: Seq<RV>, s: Seq<RV>, n: int, i: int, c: RV)
    requires n >= 0, is_form(f, n), widthr(s, n), kept(f, ra, s, n, i), 0 <= i < s.len(), chosen(f, ra, s[i], c)
    ensures c.len() == n, pm(c, s[i]), ra.len() > 0 ==> fv(f, ra[0], c) <= 0real, widthr(ra.push(c), n), ra.push(c)[0].len() == n
{
    reveal(kept);
    let w = s[i];
    assert(w.len() == n);
    assert forall|j: int| 0 <= j < ra.len() + 1 implies (#[trigger] ra.push(c)[j]).len() == n by { if j < ra.len() { assert(ra.push(c)[j] == ra[j]); } }
    assert(ra.push(c)[0].len() == n);
    if ra.len() > 0 {
        assert(ra[0].len() == n);
        lemma_fv_r(f, n, w, -1real, w, 0real, ra[0]);
        assert(fv(f, ra[0], w) == fv(f, w, ra[0]));
        assert(fv(f, ra[0], c) == fv(f, c, ra[0]));
    }
}
@fn spacegroups/lattices.rs :: reduced_lattice_basis
    inst Rat
    sub T=Rat F=Form
    call dot=dot.vdot neg=vneg_v rank=rank_v abs=vabs .partial_cmp=vpcmp
    param dot &Form
    cmp
    unwrap
    accty 2 Vec<Rat>
    attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires vs@.len() >= 2, is_form(*dot, vs@.len() as int), epsilon.v() == 0real
    ensures res matches Some(a) ==> reduced_of(*dot, rowsr(a@), rowsr(vs@), vs@.len() as int),
        res.is_none() ==> deficient(rowsr(vs@), vs@.len() as int),
@closure sort
    Vec<Rat>
    ensures o == ord_of(cmpv(*dot, posdirf(), vvr(v@), vvr(w@)))
@at start
    let ghost f = *dot;
    let ghost n = vs@.len() as int;
    proof { lemma_cmpv(f); }
@at let ws
    let ghost (d, wsd) = (rowsr(ws@), ws@);
    proof { assert(rowsr(vs@)[0].len() == n); }
@at before loop 1
    let ghost s = rowsr(ws@);
    proof {
        assert forall|i: int, j: int| 0 <= i < j < ws@.len() implies nrm(f, vvr(#[trigger] ws@[i]@)) <= nrm(f, vvr(#[trigger] ws@[j]@)) by { }
        lemma_sorted(f, wsd, ws@, n);
        assert(rowsr(a@) =~= Seq::<RV>::empty());
        lemma_kept0(f, s, n);
    }
@loop 1
    seq1@ == ws@, s == rowsr(ws@), widthr(s, n), kept(f, rowsr(a@), s, n, it1 as int), a@.len() < n, dim == n
@at loop 1 start
    let ghost i = it1 - 1;
    let ghost (a0, ra) = (a@, rowsr(a@));
@loop 2
    acc2@.len() == it2, seq2@ == ws@[i]@, forall|k: int| 0 <= k < it2 ==> (#[trigger] acc2@[k]).v() == seq2@[k].v(),
@at after push 1
    let ghost c = vvr(a@[a0.len() as int]@);
    proof {
        assert(rowsr(a@) =~= ra.push(c));
        assert(vvr(w@) =~= s[i]);
        assert(chosen(f, ra, s[i], c));
        lemma_chosen(f, ra, s, n, i, c);
        assert(from_here(f, s, i));
    }
@at then 3 end
    proof {
        assert(a@ =~= a0);
        let r = choose|r: int| LinR::rank_is(ra.push(c), n, r) && r < ra.len() + 1;
        lemma_kept_drop(f, ra, s, n, i, c, r);
    }
@at ret 1
    proof {
        lemma_kept_add(f, ra, s, n, i, c, ra.len() as int + 1);
        lemma_some(f, rowsr(a@), s, d, rowsr(vs@), n, i + 1);
    }
@at loop 1 end
    proof {
        if a@.len() > a0.len() { lemma_kept_add(f, ra, s, n, i, c, ra.len() as int + 1); }
    }
@at after loop 1
    proof { lemma_none(f, rowsr(a@), s, d, rowsr(vs@), n); }
@endfn
