@# rational_lattice_basis of src/spacegroups/lattices.rs
pub type ZV = Seq<int>;
pub open spec fn is_int(x: real) -> bool { x == x.floor() as real }
pub uninterp spec fn dn(x: real) -> int;
pub uninterp spec fn gcds(a: int, b: int) -> int;
impl Rat {
    /// a denominator: positive, and the product is an integer
    #[verifier::external_body] pub fn denom(&self) -> (r: &Int) ensures r.v() == dn(self.v()), r.v() > 0, is_int(self.v() * (r.v() as real)) { unimplemented!() }
}
impl Int {
    #[verifier::external_body] pub fn gcd(&self, o: &Int) -> (r: Int) ensures r.v() == gcds(self.v(), o.v()), self.v() > 0 && o.v() > 0 ==> r.v() > 0 && self.v() % r.v() == 0 && o.v() % r.v() == 0 { unimplemented!() }
    /// results are taken to fit
    #[verifier::external_body] pub fn to_i32(&self) -> (r: Option<Int>) ensures r matches Some(z) && z.v() == self.v() { unimplemented!() }
}
pub fn vint(x: Int) -> (r: Int) ensures r == x { x }
#[verifier::external_body] pub fn vratio(x: Int) -> (r: Rat) ensures r.v() == x.v() as real { unimplemented!() }
pub proof fn lemma_trunc(x: real)
    requires true
    ensures is_int(x) ==> trunc(x) as real == x
{
    if is_int(x) && x < 0real { let z = x.floor(); assert(0real - x == (-z) as real); assert(((-z) as real).floor() == -z); }
}
@fn spacegroups/lattices.rs :: r_to_i32
    as r_to_i32
    sub BigRational=Rat i32=Int
@spec
    ensures res.is_some() <==> is_int(x.v()), res matches Some(z) ==> z.v() as real == x.v()
@at end
    proof { lemma_trunc(x.v()); }
@endfn
pub open spec fn scl(u: ZV, f: int) -> RV { Seq::new(u.len(), |k: int| (u[k] as real) / (f as real)) }
pub open spec fn unitz(n: int, k: int, f: int) -> ZV { Seq::new(n as nat, |j: int| if j == k { f } else { 0int }) }
pub open spec fn unitr(n: int, k: int) -> RV { Seq::new(n as nat, |j: int| if j == k { 1real } else { 0real }) }
/// generators times the common denominator: the unit vectors, then the given vectors
pub open spec fn gens(m: Seq<ZV>, b: Seq<RV>, n: int, f: int) -> bool {
    &&& m.len() <= n + b.len()
    &&& forall|k: int| 0 <= k < n && k < m.len() ==> #[trigger] m[k] == unitz(n, k, f)
    &&& forall|k: int| n <= k < m.len() ==> (#[trigger] m[k]).len() == n && scl(m[k], f) == b[k - n]
}
pub open spec fn has_units(p: spec_fn(RV) -> bool, n: int) -> bool { forall|k: int| 0 <= k < n ==> p(#[trigger] unitr(n, k)) }
/// a generates the integer combinations of b and the unit vectors
pub open spec fn gen_by(a: Seq<RV>, b: Seq<RV>, n: int) -> bool {
    forall|p: spec_fn(RV) -> bool| #[trigger] latp(p, n) && p(zr(n)) ==> (allp(p, a) <==> allp(p, b) && has_units(p, n))
}
pub open spec fn latq(p: spec_fn(RV) -> bool, f: int) -> spec_fn(ZV) -> bool { |u: ZV| p(scl(u, f)) }
pub proof fn lemma_scl(u: ZV, a: int, v: ZV, b: int, f: int)
    requires u.len() == v.len(), f > 0
    ensures scl(LinZ::comb(u, a, v, b), f) == cbi(scl(u, f), a, scl(v, f), b)
{
    let (x, y) = (scl(LinZ::comb(u, a, v, b), f), cbi(scl(u, f), a, scl(v, f), b));
    assert forall|k: int| 0 <= k < u.len() implies x[k] == y[k] by {
        let (c, d, g) = (u[k] as real, v[k] as real, f as real);
        lemma_mulr(a, u[k]); lemma_mulr(b, v[k]);
        let (ar, br) = (a as real, b as real);
        assert((a * u[k] + b * v[k]) as real == ar * c + br * d);
        assert((ar * c + br * d) / g == ar * (c / g) + br * (d / g)) by (nonlinear_arith) requires g > 0real;
    }
    assert(x =~= y);
}
pub proof fn lemma_latq(p: spec_fn(RV) -> bool, n: int, f: int)
    requires n >= 0, f > 0, latp(p, n), p(zr(n))
    ensures LinZ::sub(latq(p, f), n)
{
    let q = latq(p, f);
    assert(scl(LinZ::zero(n), f) =~= zr(n)) by {
        let g = f as real;
        assert((0int as real) / g == 0real) by (nonlinear_arith) requires g > 0real;
    }
    assert forall|u: ZV, a: int, v: ZV, b: int| u.len() == n && v.len() == n && q(u) && q(v) implies q(#[trigger] LinZ::comb(u, a, v, b)) by {
        lemma_scl(u, a, v, b, f);
        assert(p(cbi(scl(u, f), a, scl(v, f), b)));
    }
}
pub proof fn lemma_unit(n: int, k: int, f: int)
    requires 0 <= k < n, f > 0
    ensures scl(unitz(n, k, f), f) == unitr(n, k), LinZ::piv(unitz(n, k, f)) == k
{
    let g = f as real;
    assert(g / g == 1real) by (nonlinear_arith) requires g > 0real;
    assert((0int as real) / g == 0real) by (nonlinear_arith) requires g > 0real;
    assert(scl(unitz(n, k, f), f) =~= unitr(n, k));
    LinZ::lemma_piv_is(unitz(n, k, f), k);
}
pub proof fn lemma_gen_by(e: Seq<ZV>, m: Seq<ZV>, a: Seq<RV>, b: Seq<RV>, n: int, f: int)
    requires n >= 0, f > 0, LinZ::basis_of(e, m, n), gens(m, b, n, f), m.len() == n + b.len(), a.len() == e.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == scl(e[i], f)
    ensures gen_by(a, b, n)
{
    assert forall|p: spec_fn(RV) -> bool| #[trigger] latp(p, n) && p(zr(n)) implies (allp(p, a) <==> allp(p, b) && has_units(p, n)) by {
        let q = latq(p, f);
        lemma_latq(p, n, f);
        assert(LinZ::all(q, e) <==> LinZ::all(q, m));
        if allp(p, a) {
            assert forall|i: int| 0 <= i < e.len() implies q(#[trigger] e[i]) by { assert(p(a[i])); }
            assert(LinZ::all(q, m));
            assert forall|i: int| 0 <= i < b.len() implies p(#[trigger] b[i]) by { assert(q(m[n + i])); assert(scl(m[n + i], f) == b[n + i - n]); }
            assert forall|k: int| 0 <= k < n implies p(#[trigger] unitr(n, k)) by { assert(q(m[k])); lemma_unit(n, k, f); }
        }
        if allp(p, b) && has_units(p, n) {
            assert forall|i: int| 0 <= i < m.len() implies q(#[trigger] m[i]) by {
                if i < n { lemma_unit(n, i, f); assert(p(unitr(n, i))); } else { assert(p(b[i - n])); }
            }
            assert(LinZ::all(q, e));
            assert forall|i: int| 0 <= i < a.len() implies p(#[trigger] a[i]) by { assert(q(e[i])); }
        }
    }
}
pub proof fn lemma_has_piv(e: Seq<ZV>, m: Seq<ZV>, b: Seq<RV>, n: int, f: int, k: int) -> (r: int)
    requires n >= 0, f != 0, LinZ::basis_of(e, m, n), gens(m, b, n, f), m.len() >= n, 0 <= k < n
    ensures 0 <= r < e.len(), LinZ::piv(e[r]) == k
{
    LinZ::lemma_spans_sub(e, n);
    let q = |v: ZV| LinZ::spans(e, n, v);
    assert forall|i: int| 0 <= i < e.len() implies q(#[trigger] e[i]) by { LinZ::lemma_row_spans(e, e, n, i); }
    assert(LinZ::all(q, e));
    assert(q(m[k]));
    LinZ::lemma_piv_is(unitz(n, k, f), k);
    let (r, t) = LinZ::lemma_spans_lead(e, n, m[k]);
    r
}
pub open spec fn has_piv(e: Seq<ZV>, k: int) -> bool { exists|r: int| 0 <= r < e.len() && LinZ::piv(#[trigger] e[r]) == k }
pub proof fn lemma_all_piv(e: Seq<ZV>, n: int, k: int)
    requires LinZ::echelon(e, n), forall|k: int| 0 <= k < n ==> #[trigger] has_piv(e, k), 0 <= k < n
    ensures k < e.len(), LinZ::piv(e[k]) == k
    decreases k
{
    assert(has_piv(e, k));
    let r = choose|r: int| 0 <= r < e.len() && LinZ::piv(#[trigger] e[r]) == k;
    LinZ::lemma_ech_len(e, n, r);
    if k > 0 {
        lemma_all_piv(e, n, k - 1);
        if r < k - 1 { assert(LinZ::piv(e[r]) < LinZ::piv(e[k - 1])); }
        if r > k { LinZ::lemma_ech_len(e, n, k); assert(LinZ::piv(e[k]) < LinZ::piv(e[r])); }
    } else if r > 0 { LinZ::lemma_ech_len(e, n, 0); assert(LinZ::piv(e[0]) < LinZ::piv(e[r])); }
}
/// there are as many basis vectors as dimensions
pub proof fn lemma_full(e: Seq<ZV>, m: Seq<ZV>, b: Seq<RV>, n: int, f: int)
    requires n >= 0, f != 0, LinZ::basis_of(e, m, n), gens(m, b, n, f), m.len() >= n
    ensures e.len() == n
{
    assert forall|k: int| 0 <= k < n implies #[trigger] has_piv(e, k) by { let r = lemma_has_piv(e, m, b, n, f, k); assert(LinZ::piv(e[r]) == k); }
    if n > 0 { lemma_all_piv(e, n, n - 1); }
    if e.len() > 0 { LinZ::lemma_ech_len(e, n, e.len() - 1); }
}
pub open spec fn ints(v: RV, f: int) -> bool { forall|k: int| 0 <= k < v.len() ==> is_int(#[trigger] v[k] * (f as real)) }
pub proof fn lemma_is_int(z: int, y: real)
    requires y == z as real
    ensures is_int(y)
{ let w = z as real; assert(w.floor() == z); assert(is_int(w)); }
pub open spec fn mulof(a: int, c: int, b: int) -> bool { a == c * b }
pub proof fn lemma_int_mul(x: real, d: int, f: int, c: int)
    requires is_int(x * (d as real)), f == c * d
    ensures is_int(x * (f as real))
{
    let z = (x * (d as real)).floor();
    lemma_mulr(c, d);
    lemma_mulr(c, z);
    let (cr, dr) = (c as real, d as real);
    let w = x * dr;
    assert(x * (cr * dr) == cr * w) by (nonlinear_arith) requires w == x * dr;
    let fr = f as real;
    assert(fr == cr * dr);
    assert(x * fr == cr * w);
    let zr = z as real;
    assert(w == zr);
    assert((c * z) as real == cr * zr);
    assert(x * fr == (c * z) as real);
    lemma_is_int(c * z, x * (f as real));
}
/// the old denominator times a quotient is a multiple of both
pub proof fn lemma_denom(f: int, d: int, g: int, f2: int)
    requires f > 0, d > 0, g > 0, f % g == 0, d % g == 0, f2 == f * tdiv(d, g)
    ensures f2 > 0, exists|c: int| #[trigger] mulof(f2, c, f), exists|c: int| #[trigger] mulof(f2, c, d)
{
    let (a, b) = (f / g, d / g);
    assert(f == g * a && d == g * b) by (nonlinear_arith) requires f % g == 0, d % g == 0, g > 0, a == f / g, b == d / g;
    assert(tdiv(d, g) == b);
    assert(b > 0) by (nonlinear_arith) requires d == g * b, d > 0, g > 0;
    assert(f * b > 0) by (nonlinear_arith) requires f > 0, b > 0;
    assert(f * b == b * f) by (nonlinear_arith);
    assert(f * b == a * d) by (nonlinear_arith) requires f == g * a, d == g * b;
    assert(mulof(f2, b, f) && mulof(f2, a, d));
}
pub proof fn lemma_ints(v: RV, f: int, f2: int)
    requires ints(v, f), exists|c: int| #[trigger] mulof(f2, c, f)
    ensures ints(v, f2)
{
    let c = choose|c: int| #[trigger] mulof(f2, c, f);
    assert forall|k: int| 0 <= k < v.len() implies is_int(#[trigger] v[k] * (f2 as real)) by { assert(is_int(v[k] * (f as real))); lemma_int_mul(v[k], f, f2, c); }
}
pub proof fn lemma_gens0(b: Seq<RV>, n: int, f: int)
    requires n >= 0
    ensures gens(Seq::<ZV>::empty(), b, n, f), LinZ::basis_of(Seq::<ZV>::empty(), Seq::<ZV>::empty(), n)
{ }
pub proof fn lemma_back(v: ZV, b: RV, f: int)
    requires f > 0, v.len() == b.len(), forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]) as real == b[k] * (f as real)
    ensures scl(v, f) == b
{
    let g = f as real;
    assert forall|k: int| 0 <= k < v.len() implies scl(v, f)[k] == b[k] by { let y = b[k]; assert(v[k] as real == y * g); assert((y * g) / g == y) by (nonlinear_arith) requires g > 0real; }
    assert(scl(v, f) =~= b);
}
@fn spacegroups/lattices.rs :: rational_lattice_basis
    sub BigRational=Rat BigInt=Int i32=Int
    call Int::from=vint Rat::from=vratio extend_basis=extend_basis_Int
    letty basis Vec<Vec<Int>>
    replit Int
    unwrap
    accty 5 Vec<Int>
    accty 6 Vec<Vec<Rat>>
    accty 7 Vec<Rat>
@spec
    requires vectors@.len() > 0, widthr(rowsr(vectors@), vectors@[0]@.len() as int)
    ensures gen_by(rowsr(res@), rowsr(vectors@), vectors@[0]@.len() as int), res@.len() == vectors@[0]@.len(),
        widthr(rowsr(res@), vectors@[0]@.len() as int),
@at start
    let ghost n = vectors@[0]@.len() as int;
    let ghost b = rowsr(vectors@);
@loop 1
    common_denom.v() > 0, seq1@ == vectors@, forall|i: int| 0 <= i < it1 ==> ints(#[trigger] b[i], common_denom.v()),
@loop 2
    common_denom.v() > 0, seq2@ == vectors@[it1 - 1]@, forall|i: int| 0 <= i < it1 - 1 ==> ints(#[trigger] b[i], common_denom.v()),
    forall|j: int| 0 <= j < it2 ==> is_int(#[trigger] b[it1 - 1][j] * (common_denom.v() as real)),
@at loop 2 start
    let ghost f0 = common_denom.v();
@at loop 2 end
    proof {
        let f2 = common_denom.v();
        let j = it2 - 1;
        let y = b[it1 - 1][j];
        let d0 = dn(y);
        lemma_denom(f0, d0, gcds(f0, d0), f2);
        let c = choose|c: int| #[trigger] mulof(f2, c, d0);
        lemma_int_mul(y, d0, f2, c);
        let e = choose|c: int| #[trigger] mulof(f2, c, f0);
        assert forall|i: int| 0 <= i < it1 - 1 implies ints(#[trigger] b[i], f2) by { lemma_ints(b[i], f0, f2); }
        assert forall|i: int| 0 <= i < it2 implies is_int(#[trigger] b[it1 - 1][i] * (f2 as real)) by {
            if i < j { assert(is_int(b[it1 - 1][i] * (f0 as real))); lemma_int_mul(b[it1 - 1][i], f0, f2, e); }
        }
    }
@at after loop 1
    let ghost fd = common_denom.v();
    let ghost mut m: Seq<ZV> = Seq::empty();
    proof { lemma_gens0(b, n, fd); }
@loop 3
    dim == n, common_denom.v() == fd, m.len() == it3, gens(m, b, n, fd), LinZ::basis_of(LinZ::rows(basis@), m, n),
@at loop 3 start
    let ghost b0 = LinZ::rows(basis@);
@at loop 3 end
    proof {
        let v = unitz(n, k as int, fd);
        assert(LinZ::vv(b@) =~= v);
        LinZ::lemma_basis_step(b0, LinZ::rows(basis@), m, v, n);
        m = m.push(v);
    }
@loop 4
    common_denom.v() == fd, seq4@ == vectors@, m.len() == n + it4, gens(m, b, n, fd), LinZ::basis_of(LinZ::rows(basis@), m, n),
@at loop 4 start
    let ghost b0 = LinZ::rows(basis@);
    let ghost j = it4 - 1;
    proof { assert(b[j].len() == n); assert(ints(b[j], fd)); }
@loop 5
    seq5@ == vectors@[j]@, acc5@.len() == it5, forall|k: int| 0 <= k < it5 ==> (#[trigger] acc5@[k]).v() as real == seq5@[k].v() * (fd as real),
@at loop 5 start
    proof { assert(is_int(b[j][it5 - 1] * (fd as real))); }
@at loop 4 end
    proof {
        let v = LinZ::vv(d@);
        lemma_back(v, b[j], fd);
        LinZ::lemma_basis_step(b0, LinZ::rows(basis@), m, v, n);
        m = m.push(v);
    }
@loop 6
    seq6@ == basis@, acc6@.len() == it6, forall|i: int| 0 <= i < it6 ==> vvr(#[trigger] acc6@[i]@) == scl(LinZ::rows(basis@)[i], fd),
@loop 7
    seq7@ == basis@[it6 - 1]@, acc7@.len() == it7, forall|k: int| 0 <= k < it7 ==> (#[trigger] acc7@[k]).v() == (seq7@[k].v() as real) / (fd as real),
@at after loop 7
    proof { assert(vvr(acc7@) =~= scl(LinZ::rows(basis@)[it6 - 1], fd)); }
@at end
    proof {
        let e = LinZ::rows(basis@);
        lemma_gen_by(e, m, rowsr(res@), b, n, fd);
        lemma_full(e, m, b, n, fd);
        assert forall|i: int| 0 <= i < res@.len() implies (#[trigger] rowsr(res@)[i]).len() == n by { assert(e[i].len() == n); }
    }
@endfn
