@# graph_component_measures, is_connected and shift_normalized of src/pgraphs.rs
pub open spec fn cyc_basis(es: Seq<EV>, v: u32, b: Seq<ZV>) -> bool { LinZ::echelon(b, ldim()) && forall|t: ZV| #[trigger] LinZ::spans(b, ldim(), t) <==> cyc(es, v, t) }
/// the number of vertices whose copies can be reached from v
pub open spec fn comp_size(es: Seq<EV>, v: u32, n: int) -> bool { exists|s: Set<u32>| s.len() == n && #[trigger] is_comp(es, v, s) }
pub open spec fn is_comp(es: Seq<EV>, v: u32, s: Set<u32>) -> bool { s.finite() && forall|u: u32| #[trigger] s.contains(u) <==> meets(es, v, u) }
/// the rank of the lattice of the shifts from v to its own copies
pub open spec fn comp_rank(es: Seq<EV>, v: u32, n: int) -> bool { exists|b: Seq<ZV>| b.len() == n && #[trigger] cyc_basis(es, v, b) }
/// the number of pieces into which the component falls: the index of that lattice
pub open spec fn comp_mult(es: Seq<EV>, v: u32, n: int, m: Option<Int>) -> bool {
    if n == ldim() { m matches Some(k) && index_is(cycp(es, v), ldim(), k.v()) } else { m.is_none() }
}
/// the ends of the rewritten edges are the vertices reached
pub proof fn lemma_ends(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, r: Seq<EV>, e: Set<u32>)
    requires trav(es, v, s, c, r), esok(es), ends_of(r, r.len() as int, e)
    ensures is_comp(es, v, e)
{
    lemma_cyc_lattice(es, v, s, c, r);
    assert forall|u: u32| #[trigger] e.contains(u) <==> meets(es, v, u) by {
        if e.contains(u) {
            let i = choose|i: int| 0 <= i < r.len() && ((#[trigger] r[i]).0 == u || r[i].1 == u);
            lemma_trav_edge(es, v, s, c, r, i);
        }
        if meets(es, v, u) {
            assert(s.dom().contains(u));
            lemma_end_listed(es, v, s, c, r, u);
        }
    }
}
pub open spec fn ends_of(r: Seq<EV>, k: int, e: Set<u32>) -> bool { e.finite() && forall|u: u32| #[trigger] e.contains(u) <==> end_of(r, k, u) }
pub proof fn lemma_end_listed(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, r: Seq<EV>, u: u32)
    requires trav(es, v, s, c, r), s.dom().contains(u)
    ensures end_of(r, r.len() as int, u)
{
    let j = choose|j: int| 0 <= j < es.len() && ((#[trigger] es[j]).0 == u || es[j].1 == u);
    assert(has(es, es[j]));
    let i = lemma_trav_has(es, v, s, c, r, es[j]);
    assert(r[i].0 == es[j].0 && r[i].1 == es[j].1);
}
pub proof fn lemma_basis_cyc(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, r: Seq<EV>, b: Seq<ZV>)
    requires trav(es, v, s, c, r), esok(es), LinZ::basis_of(b, shifts_of(r).take(r.len() as int), ldim())
    ensures cyc_basis(es, v, b)
{
    broadcast use axiom_ldim;
    lemma_cyc_lattice(es, v, s, c, r);
    let m = shifts_of(r);
    assert(m.take(m.len() as int) =~= m);
    assert forall|t: ZV| #[trigger] LinZ::spans(b, ldim(), t) <==> cyc(es, v, t) by { LinZ::lemma_span_eq_spans(b, m, ldim(), t); }
}
impl Int { #[verifier::external_body] pub fn abs(&self) -> (r: Int) ensures r.v() == iabs(self.v()) { unimplemented!() } }
@fn pgraphs.rs :: graph_component_measures
    sub T=Lab BTreeSet=VSet i32=Int
    generics <CS>
    call extend_basis=extend_basis_Int
    letty basis Vec<Vec<Int>>
    call to_vec=to_vec
@spec
    requires end_of(g.es(), g.es().len() as int, *v0)
    ensures comp_size(g.es(), *v0, res.0 as int), comp_rank(g.es(), *v0, res.1 as int), comp_mult(g.es(), *v0, res.1 as int, res.2)
@at start
    hide(trav); hide(joined); hide(adj); hide(cyc);
    let ghost es = g.es();
    let ghost mut s: SM = Map::empty();
    let ghost mut c: Seq<EV> = seq![];
    let ghost mut r: Seq<EV> = seq![];
    proof { assert(esok(es)) by { broadcast use axiom_graph; } }
@at before loop 1
    proof {
        r = keys(edges@);
        let (s1, c1) = choose|s: SM, c: Seq<EV>| #[trigger] trav(es, *v0, s, c, r);
        s = s1; c = c1;
        lemma_cyc_lattice(es, *v0, s, c, r);
    }
@loop 1
    es == g.es(), r == keys(edges@), ends_of(r, it1 as int, vertices.s())
@at loop 1 end
    proof { assert(r[it1 - 1] == edges@[it1 - 1].key()); }
@at after loop 1
    proof { lemma_ends(es, *v0, s, c, r, vertices.s()); }
@at before loop 2
    proof { assert(LinZ::rows(basis@) =~= seq![]); assert(shifts_of(r).take(0) =~= seq![]); }
@loop 2
    es == g.es(), r == keys(edges@), LinZ::width(shifts_of(r), ldim()), LinZ::basis_of(LinZ::rows(basis@), shifts_of(r).take(it2 as int), ldim())
@at loop 2 start
    let ghost b0 = LinZ::rows(basis@);
    proof { broadcast use axiom_lab; assert(shifts_of(r)[it2 - 1] == edges@[it2 - 1].shift.v()); assert(edges@[it2 - 1].shift.v().len() == ldim()); }
@at loop 2 end
    proof {
        let m = shifts_of(r);
        assert(m.take(it2 - 1).push(m[it2 - 1]) =~= m.take(it2 as int));
        LinZ::lemma_basis_step(b0, LinZ::rows(basis@), m.take(it2 - 1), m[it2 - 1], ldim());
    }
@at after loop 2
    let ghost b = LinZ::rows(basis@);
    proof { lemma_basis_cyc(es, *v0, s, c, r, b); }
@loop 3
    d.v() == diag(b, it3 as int)
@at loop 3 start
    proof { assert(b[it3 - 1].len() == ldim()); assert(basis@[it3 - 1]@.len() == ldim()); }
@at after loop 3
    proof { broadcast use axiom_ldim; lemma_index(b, ldim(), cycp(es, *v0)); }
@endfn

impl VEq for Option<Int> { open spec fn eq_spec(&self, o: &Option<Int>) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.v() == b.v(), (None, None) => true, _ => false } }
    #[verifier::external_body] fn veq(&self, o: &Option<Int>) -> bool { unimplemented!() } }
/// all copies of all vertices are joined
pub open spec fn net_connected(es: Seq<EV>) -> bool {
    forall|x: NV, y: NV| is_nv(es, x) && is_nv(es, y) ==> #[trigger] joined(es, x, y)
}
pub open spec fn is_nv(es: Seq<EV>, x: NV) -> bool { end_of(es, es.len() as int, x.0) && x.1.len() == ldim() }
/// vertices reached are vertices
pub proof fn lemma_meets_vert(es: Seq<EV>, v: u32, n: nat, y: NV)
    requires esok(es), end_of(es, es.len() as int, v), path(es, at0(v), n, y)
    ensures end_of(es, es.len() as int, y.0)
{
    if n > 0 {
        let x = lemma_path_pred(es, at0(v), (n - 1) as nat, y);
        let d = choose|d: EV| #[trigger] has(es, canon(d)) && d.0 == x.0 && d.1 == y.0 && d.2.len() == ldim() && y.1 == addl(d.2, x.1);
        let j = choose|j: int| 0 <= j < es.len() && es[j] == canon(d);
        assert(es[j].0 == y.0 || es[j].1 == y.0);
    }
}
pub proof fn lemma_prod_one(m: ZV, k: int)
    requires 0 <= k <= m.len(), forall|i: int| 0 <= i < k ==> #[trigger] m[i] > 0
    ensures prod(m, k) >= 1, prod(m, k) == 1 <==> forall|i: int| 0 <= i < k ==> #[trigger] m[i] == 1
    decreases k
{
    if k > 0 {
        lemma_prod_one(m, k - 1);
        let (a, b) = (prod(m, k - 1), m[k - 1]);
        assert(a * b >= 1 && (a * b == 1 <==> a == 1 && b == 1)) by (nonlinear_arith) requires a >= 1, b >= 1;
    }
}
/// a lattice has index one just when it holds everything
pub proof fn lemma_index_one(p: spec_fn(ZV) -> bool, n: int, k: int)
    requires n >= 0, LinZ::sub(p, n), index_is(p, n, k)
    ensures k == 1 <==> forall|x: ZV| x.len() == n ==> #[trigger] p(x)
{
    let m = choose|m: ZV| m.len() == n && prod(m, n) == k && #[trigger] cosets(p, n, m);
    lemma_prod_one(m, n);
    let z = zerol(n);
    if k == 1 {
        assert forall|x: ZV| x.len() == n implies #[trigger] p(x) by {
            assert(has_rep(p, m, x));
            let y = choose|y: ZV| in_box(m, y) && #[trigger] p(subl(x, y));
            assert(y =~= z) by { assert forall|i: int| 0 <= i < n implies y[i] == 0 by { assert(m[i] == 1); } }
            assert(subl(x, y) =~= x);
        }
    }
    if forall|x: ZV| x.len() == n ==> #[trigger] p(x) {
        assert forall|i: int| 0 <= i < n implies #[trigger] m[i] == 1 by {
            let y = Seq::new(n as nat, |j: int| if j == i { m[i] - 1 } else { 0 });
            assert(in_box(m, y)) by { assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] y[j] < m[j] by { assert(m[j] > 0); } }
            assert(in_box(m, z)) by { assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] z[j] < m[j] by { assert(m[j] > 0); } }
            assert(p(subl(y, z)));
            assert(y[i] == z[i]);
        }
    }
}
/// a basis of everything has n rows
pub proof fn lemma_full_rank(b: Seq<ZV>, n: int)
    requires n >= 0, LinZ::echelon(b, n), forall|x: ZV| x.len() == n ==> #[trigger] LinZ::spans(b, n, x)
    ensures b.len() == n
{
    let e = Seq::new(n as nat, |i: int| LinZ::unitc(n, i));
    assert(LinZ::echelon(e, n)) by {
        assert forall|i: int| 0 <= i < n implies LinZ::piv(#[trigger] e[i]) == i by { LinZ::lemma_piv_is(e[i], i); }
    }
    assert(LinZ::span_eq(b, e, n)) by {
        assert forall|p: spec_fn(ZV) -> bool| #[trigger] LinZ::sub(p, n) implies (LinZ::all(p, b) <==> LinZ::all(p, e)) by {
            if LinZ::all(p, b) {
                assert forall|i: int| 0 <= i < n implies p(#[trigger] e[i]) by {
                    assert(LinZ::spans(b, n, e[i]));
                    let k = choose|k: ZV| k.len() == b.len() && e[i] == #[trigger] LinZ::lc(k, b, n, b.len() as int);
                    LinZ::lemma_lc_in(p, k, b, n, b.len() as int);
                }
            }
            if LinZ::all(p, e) {
                assert forall|i: int| 0 <= i < b.len() implies p(#[trigger] b[i]) by { lemma_units(p, e, b[i], n, n); assert(b[i].take(n) =~= b[i]); assert(cut(b[i], n) =~= b[i]); }
            }
        }
    }
    LinZ::lemma_dimension(b, e, n);
}
pub open spec fn cut(x: ZV, k: int) -> ZV { Seq::new(x.len(), |i: int| if i < k { x[i] } else { 0 }) }
pub proof fn lemma_units(p: spec_fn(ZV) -> bool, e: Seq<ZV>, x: ZV, n: int, k: int)
    requires LinZ::sub(p, n), 0 <= k <= n, x.len() == n, e == Seq::new(n as nat, |i: int| LinZ::unitc(n, i)), LinZ::all(p, e)
    ensures p(cut(x, k))
    decreases k
{
    if k == 0 { assert(cut(x, 0) =~= LinZ::zero(n)); }
    else {
        lemma_units(p, e, x, n, k - 1);
        let u = e[k - 1];
        assert(p(u));
        let w = LinZ::comb(cut(x, k - 1), 1, u, x[k - 1]);
        assert(p(w));
        assert(w =~= cut(x, k)) by { assert forall|i: int| 0 <= i < n implies w[i] == cut(x, k)[i] by { assert(x[k - 1] * 0 == 0 && x[k - 1] * 1 == x[k - 1]) by (nonlinear_arith); } }
    }
}
/// size and multiplicity decide connectedness
pub proof fn lemma_connected(es: Seq<EV>, vs: Seq<u32>, v: u32, n: int, k: int, m: Option<Int>)
    requires esok(es), isverts(vs, es), has(vs, v), comp_size(es, v, n), comp_rank(es, v, k), comp_mult(es, v, k, m)
    ensures net_connected(es) <==> n == vs.len() && (m matches Some(x) && x.v() == 1)
{
    broadcast use axiom_ldim;
    let s = choose|s: Set<u32>| s.len() == n && #[trigger] is_comp(es, v, s);
    let b = choose|b: Seq<ZV>| b.len() == k && #[trigger] cyc_basis(es, v, b);
    let p = cycp(es, v);
    lemma_cyc_sub(es, v);
    lemma_vert_set(es, vs, v, s);
    if k == ldim() { lemma_index_one(p, ldim(), m.unwrap().v()); }
    if n == vs.len() && (m matches Some(x) && x.v() == 1) {
        assert forall|x: NV, y: NV| is_nv(es, x) && is_nv(es, y) implies #[trigger] joined(es, x, y) by {
            lemma_reach_all(es, vs, v, s, x);
            lemma_reach_all(es, vs, v, s, y);
            lemma_joined_sym(es, at0(v), x);
            lemma_joined_trans(es, x, at0(v), y);
        }
    }
    if net_connected(es) {
        assert forall|x: ZV| x.len() == ldim() implies #[trigger] p(x) by { assert(is_nv(es, at0(v))); assert(is_nv(es, (v, x))); assert(joined(es, at0(v), (v, x))); }
        assert forall|x: ZV| x.len() == ldim() implies #[trigger] LinZ::spans(b, ldim(), x) by { assert(p(x)); }
        lemma_full_rank(b, ldim());
        assert forall|u: u32| #[trigger] has(vs, u) implies s.contains(u) by { assert(is_nv(es, at0(v))); assert(is_nv(es, at0(u))); assert(joined(es, at0(v), (u, at0(u).1))); }
    }
}
/// the vertices reached are all vertices just when there are as many
pub proof fn lemma_vert_set(es: Seq<EV>, vs: Seq<u32>, v: u32, s: Set<u32>)
    requires esok(es), isverts(vs, es), has(vs, v), is_comp(es, v, s)
    ensures s.len() == vs.len() <==> forall|u: u32| #[trigger] has(vs, u) ==> s.contains(u)
{
    let t = vs.to_set();
    vs.unique_seq_to_set();
    assert(s.subset_of(t)) by {
        assert forall|u: u32| s.contains(u) implies t.contains(u) by {
            assert(meets(es, v, u));
            let x = choose|x: ZV| x.len() == ldim() && #[trigger] joined(es, at0(v), (u, x));
            let n = choose|n: nat| #[trigger] path(es, at0(v), n, (u, x));
            lemma_meets_vert(es, v, n, (u, x));
            assert(has(vs, u));
            let i = choose|i: int| 0 <= i < vs.len() && vs[i] == u;
            assert(vs.contains(u));
        }
    }
    if s.len() == vs.len() {
        vstd::set_lib::lemma_subset_equality(s, t);
        assert forall|u: u32| #[trigger] has(vs, u) implies s.contains(u) by { assert(vs.contains(u)); assert(t.contains(u)); }
    }
    if forall|u: u32| #[trigger] has(vs, u) ==> s.contains(u) {
        assert(s =~= t) by { assert forall|u: u32| t.contains(u) implies s.contains(u) by { assert(vs.contains(u)); let i = choose|i: int| 0 <= i < vs.len() && vs[i] == u; assert(has(vs, u)); } }
    }
}
pub proof fn lemma_reach_all(es: Seq<EV>, vs: Seq<u32>, v: u32, s: Set<u32>, x: NV)
    requires esok(es), isverts(vs, es), is_comp(es, v, s), is_nv(es, x), forall|u: u32| #[trigger] has(vs, u) ==> s.contains(u), forall|t: ZV| t.len() == ldim() ==> #[trigger] cycp(es, v)(t)
    ensures joined(es, at0(v), x)
{
    assert(has(vs, x.0));
    assert(meets(es, v, x.0));
    let t = choose|t: ZV| t.len() == ldim() && #[trigger] joined(es, at0(v), (x.0, t));
    let q = subl(x.1, t);
    assert(cycp(es, v)(q));
    lemma_joined_moved(es, at0(v), (x.0, t), q);
    assert(moved(at0(v), q).1 =~= q);
    assert(moved((x.0, t), q).1 =~= x.1);
    lemma_joined_trans(es, at0(v), (v, q), x);
}
/// how far each vertex of a set is moved
pub ghost struct Pot { pub d: Set<u32>, pub f: spec_fn(u32) -> ZV }
impl Pot { pub open spec fn dom(self) -> Set<u32> { self.d } pub open spec fn at(self, u: u32) -> ZV { (self.f)(u) } }
pub open spec fn nopot() -> Pot { Pot { d: Set::empty(), f: |u: u32| seq![] } }
pub open spec fn pot_join(pot: Pot, s: SM) -> Pot { Pot { d: pot.d.union(s.dom()), f: |u: u32| if s.dom().contains(u) { s[u].v() } else { pot.at(u) } } }
pub open spec fn padj(pot: Pot, e: EV) -> EV { (e.0, e.1, subl(addl(pot.at(e.0), e.2), pot.at(e.1))) }
pub open spec fn from_edge(es: Seq<EV>, pot: Pot, x: EV) -> bool { exists|e: EV| #[trigger] has(es, e) && pot.dom().contains(e.0) && x == padj(pot, e) }
pub open spec fn from_canon(es: Seq<EV>, pot: Pot, x: EV) -> bool { exists|e: EV| #[trigger] has(es, e) && x == canon(padj(pot, e)) }
pub open spec fn closed_pot(es: Seq<EV>, pot: Pot) -> bool {
    &&& forall|e: EV| #[trigger] has(es, e) ==> pot.dom().contains(e.0) == pot.dom().contains(e.1)
    &&& forall|u: u32| #[trigger] pot.dom().contains(u) ==> pot.at(u).len() == ldim()
}
pub open spec fn zsame(es: Seq<EV>, pot: Pot, r: Seq<EV>) -> bool { forall|u: u32, w: u32| pot.dom().contains(u) && #[trigger] meets(es, u, w) ==> #[trigger] zjoined(r, u, w) }
/// the edges r are the edges of some components, seen after moving their vertices; those without shift connect each of these components
pub open spec fn npart(es: Seq<EV>, pot: Pot, r: Seq<EV>) -> bool {
    closed_pot(es, pot) && (forall|x: EV| #[trigger] has(r, x) <==> from_edge(es, pot, x)) && zsame(es, pot, r)
}
/// rs describes the net of es, with every vertex u moved by pot.at(u); the edges of rs without shift connect each of its components
pub open spec fn shift_normal(es: Seq<EV>, pot: Pot, rs: Seq<EV>) -> bool {
    &&& forall|u: u32| #[trigger] end_of(es, es.len() as int, u) ==> pot.dom().contains(u) && pot.at(u).len() == ldim()
    &&& forall|x: EV| #[trigger] has(rs, x) <==> from_canon(es, pot, x)
    &&& forall|u: u32, w: u32| end_of(es, es.len() as int, u) && #[trigger] meets(es, u, w) ==> zjoined(rs, u, w)
}
/// the same net: its edges are those of the given one, between the moved vertices
pub open spec fn shifted(pot: Pot, x: NV) -> NV { (x.0, subl(x.1, pot.at(x.0))) }
pub proof fn lemma_same_net(es: Seq<EV>, pot: Pot, rs: Seq<EV>, x: NV, y: NV)
    requires esok(es), shift_normal(es, pot, rs), is_nv(es, x), is_nv(es, y)
    ensures adj(es, x, y) <==> adj(rs, shifted(pot, x), shifted(pot, y))
{
    hide(end_of); hide(meets);
    broadcast use axiom_ldim;
    let (x1, y1) = (shifted(pot, x), shifted(pot, y));
    let (px, py) = (pot.at(x.0), pot.at(y.0));
    if adj(es, x, y) {
        let d = choose|d: EV| #[trigger] has(es, canon(d)) && d.0 == x.0 && d.1 == y.0 && d.2.len() == ldim() && y.1 == addl(d.2, x.1);
        let f = padj(pot, d);
        lemma_padj_canon(pot, d);
        assert(from_canon(es, pot, canon(f)));
        assert(has(rs, canon(f)));
        assert(y1.1 =~= addl(f.2, x1.1));
    }
    if adj(rs, x1, y1) {
        let f = choose|d: EV| #[trigger] has(rs, canon(d)) && d.0 == x1.0 && d.1 == y1.0 && d.2.len() == ldim() && y1.1 == addl(d.2, x1.1);
        assert(from_canon(es, pot, canon(f)));
        let e = choose|e: EV| #[trigger] has(es, e) && canon(f) == canon(padj(pot, e));
        lemma_same_edge(es, pot, e, f, x, y);
    }
}
pub proof fn lemma_same_edge(es: Seq<EV>, pot: Pot, e: EV, f: EV, x: NV, y: NV)
    requires esok(es), has(es, e), canon(f) == canon(padj(pot, e)), is_nv(es, x), is_nv(es, y), f.2.len() == ldim(), f.0 == x.0, f.1 == y.0,
        pot.at(x.0).len() == ldim(), pot.at(y.0).len() == ldim(), subl(y.1, pot.at(y.0)) == addl(f.2, subl(x.1, pot.at(x.0)))
    ensures adj(es, x, y)
{
    let j = choose|j: int| 0 <= j < es.len() && es[j] == e;
    assert(es[j].2.len() == ldim() && canon(es[j]) == es[j]);
    let g = padj(pot, e);
    lemma_canon(f); lemma_canon(g); lemma_canon(e);
    let (px, py) = (pot.at(x.0), pot.at(y.0));
    assert forall|i: int| 0 <= i < ldim() implies y.1[i] - py[i] == f.2[i] + (x.1[i] - px[i]) by {
        assert(subl(y.1, py)[i] == y.1[i] - py[i]);
        assert(addl(f.2, subl(x.1, px))[i] == f.2[i] + (x.1[i] - px[i]));
    }
    if f == g {
        assert(y.1 =~= addl(e.2, x.1)) by { assert forall|i: int| 0 <= i < ldim() implies y.1[i] == e.2[i] + x.1[i] by { assert(f.2[i] == px[i] + e.2[i] - py[i]); } }
        assert(has(es, canon(e)));
        assert(adj(es, x, y));
    } else {
        assert(f == rev(g)) by { assert(rev(rev(f)) == f); }
        let d = rev(e);
        assert(y.1 =~= addl(d.2, x.1)) by { assert forall|i: int| 0 <= i < ldim() implies y.1[i] == -e.2[i] + x.1[i] by { assert(f.2[i] == -(py[i] + e.2[i] - px[i])); } }
        assert(has(es, canon(d)));
        assert(adj(es, x, y));
    }
}
pub proof fn lemma_padj_canon(pot: Pot, d: EV)
    requires d.2.len() == ldim(), pot.at(d.0).len() == ldim(), pot.at(d.1).len() == ldim()
    ensures canon(padj(pot, d)) == canon(padj(pot, canon(d)))
{
    lemma_canon(d);
    if canon(d) != d {
        assert(padj(pot, rev(d)).2 =~= rev(padj(pot, d)).2);
        lemma_canon(padj(pot, d));
    }
}
pub proof fn lemma_zpath_of(r: Seq<EV>, t: Seq<EV>, v: u32, n: nat, u: u32)
    requires zpath(r, v, n, u), forall|i: int| 0 <= i < r.len() ==> zstep_of(t, #[trigger] r[i])
    ensures zpath(t, v, n, u)
    decreases n
{
    if n > 0 {
        let w = choose|w: u32| zpath(r, v, (n - 1) as nat, w) && #[trigger] zstep(r, w, u);
        lemma_zpath_of(r, t, v, (n - 1) as nat, w);
        let i = choose|i: int| 0 <= i < r.len() && zedge(#[trigger] r[i], w, u);
        assert(zstep_of(t, r[i]));
        assert(zstep(t, w, u));
    }
}
/// an edge without shift is there as well
pub open spec fn zstep_of(t: Seq<EV>, e: EV) -> bool { forall|w: u32, u: u32| #[trigger] zedge(e, w, u) ==> zstep(t, w, u) }
pub proof fn lemma_zjoined_of(r: Seq<EV>, t: Seq<EV>, v: u32, u: u32)
    requires zjoined(r, v, u), forall|i: int| 0 <= i < r.len() ==> zstep_of(t, #[trigger] r[i])
    ensures zjoined(t, v, u)
{ let n = choose|n: nat| #[trigger] zpath(r, v, n, u); lemma_zpath_of(r, t, v, n, u); }
pub proof fn lemma_zpath_back(r: Seq<EV>, v: u32, n: nat, u: u32, x: u32)
    requires zpath(r, v, n, u), zjoined(r, u, x)
    ensures zjoined(r, v, x)
    decreases n
{
    let k = choose|k: nat| #[trigger] zpath(r, u, k, x);
    lemma_zpath_cat(r, v, n, u, k, x);
}
pub proof fn lemma_zpath_cat(r: Seq<EV>, v: u32, n: nat, u: u32, k: nat, x: u32)
    requires zpath(r, v, n, u), zpath(r, u, k, x)
    ensures zpath(r, v, n + k, x)
    decreases k
{
    if k > 0 {
        let w = choose|w: u32| zpath(r, u, (k - 1) as nat, w) && #[trigger] zstep(r, w, x);
        lemma_zpath_cat(r, v, n, u, (k - 1) as nat, w);
        assert((n + k - 1) as nat == n + (k - 1) as nat);
    }
}
pub proof fn lemma_zpath_rev(r: Seq<EV>, v: u32, n: nat, u: u32)
    requires zpath(r, v, n, u)
    ensures zpath(r, u, n, v)
    decreases n
{
    if n > 0 {
        let w = choose|w: u32| zpath(r, v, (n - 1) as nat, w) && #[trigger] zstep(r, w, u);
        lemma_zpath_rev(r, v, (n - 1) as nat, w);
        let i = choose|i: int| 0 <= i < r.len() && zedge(#[trigger] r[i], w, u);
        assert(zedge(r[i], u, w));
        assert(zstep(r, u, w));
        assert(zpath(r, u, 0, u));
        assert(zpath(r, u, 1, w));
        lemma_zpath_cat(r, u, 1, w, (n - 1) as nat, v);
        assert(1 + (n - 1) as nat == n);
    }
}
pub proof fn lemma_zjoined_both(r: Seq<EV>, v: u32, u: u32, w: u32)
    requires zjoined(r, v, u), zjoined(r, v, w)
    ensures zjoined(r, u, w)
{
    let n = choose|n: nat| #[trigger] zpath(r, v, n, u);
    let k = choose|k: nat| #[trigger] zpath(r, v, k, w);
    lemma_zpath_rev(r, v, n, u);
    lemma_zpath_cat(r, u, n, v, k, w);
}
pub proof fn lemma_npart_start(es: Seq<EV>, r: Seq<EV>)
    requires r.len() == 0
    ensures npart(es, nopot(), r)
{ }
/// what is closed under edges is closed under paths
pub proof fn lemma_closed_path(es: Seq<EV>, pot: Pot, v: u32, n: nat, y: NV)
    requires closed_pot(es, pot), path(es, at0(v), n, y)
    ensures pot.dom().contains(v) == pot.dom().contains(y.0)
    decreases n
{
    if n > 0 {
        let x = lemma_path_pred(es, at0(v), (n - 1) as nat, y);
        lemma_closed_path(es, pot, v, (n - 1) as nat, x);
        let d = choose|d: EV| #[trigger] has(es, canon(d)) && d.0 == x.0 && d.1 == y.0 && d.2.len() == ldim() && y.1 == addl(d.2, x.1);
        lemma_canon(d);
        assert(pot.dom().contains(canon(d).0) == pot.dom().contains(canon(d).1));
    }
}
pub proof fn lemma_closed_meets(es: Seq<EV>, pot: Pot, v: u32, u: u32)
    requires closed_pot(es, pot), meets(es, v, u)
    ensures pot.dom().contains(v) == pot.dom().contains(u)
{
    let t = choose|t: ZV| t.len() == ldim() && #[trigger] joined(es, at0(v), (u, t));
    let n = choose|n: nat| #[trigger] path(es, at0(v), n, (u, t));
    lemma_closed_path(es, pot, v, n, (u, t));
}
/// the ends of the edges of a traversal
pub proof fn lemma_trav_ends(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, r: Seq<EV>)
    requires trav(es, v, s, c, r), esok(es)
    ensures forall|u: u32| #[trigger] s.dom().contains(u) <==> end_of(r, r.len() as int, u)
{
    assert forall|u: u32| #[trigger] s.dom().contains(u) <==> end_of(r, r.len() as int, u) by {
        if s.dom().contains(u) { lemma_end_listed(es, v, s, c, r, u); }
        if end_of(r, r.len() as int, u) {
            let i = choose|i: int| 0 <= i < r.len() && ((#[trigger] r[i]).0 == u || r[i].1 == u);
            lemma_trav_edge(es, v, s, c, r, i);
        }
    }
}
/// one more component, not met before
pub proof fn lemma_npart_step(es: Seq<EV>, pot: Pot, r0: Seq<EV>, v: u32, s: SM, c: Seq<EV>, t: Seq<EV>)
    requires esok(es), npart(es, pot, r0), trav(es, v, s, c, t), !pot.dom().contains(v)
    ensures npart(es, pot_join(pot, s), r0 + t), pot_join(pot, s).dom() == pot.dom().union(s.dom()), s.dom().contains(v), forall|u: u32| #[trigger] s.dom().contains(u) <==> end_of(t, t.len() as int, u)
{
    let q = pot_join(pot, s);
    lemma_trav_ends(es, v, s, c, t);
    lemma_cyc_lattice(es, v, s, c, t);
    assert forall|u: u32| #[trigger] s.dom().contains(u) implies !pot.dom().contains(u) by { lemma_closed_meets(es, pot, v, u); }
    lemma_step_closed(es, pot, v, s, c, t);
    lemma_step_edges(es, pot, r0, v, s, c, t);
    lemma_step_zsame(es, pot, r0, v, s, c, t);
}
pub proof fn lemma_step_closed(es: Seq<EV>, pot: Pot, v: u32, s: SM, c: Seq<EV>, t: Seq<EV>)
    requires closed_pot(es, pot), trav(es, v, s, c, t)
    ensures closed_pot(es, pot_join(pot, s))
{
    let q = pot_join(pot, s);
    assert forall|e: EV| #[trigger] has(es, e) implies q.dom().contains(e.0) == q.dom().contains(e.1) by {
        let j = choose|j: int| 0 <= j < es.len() && es[j] == e;
        assert(s.dom().contains(es[j].0) == s.dom().contains(es[j].1));
    }
    assert forall|u: u32| #[trigger] q.dom().contains(u) implies q.at(u).len() == ldim() by { if s.dom().contains(u) { axiom_lab(s[u]); } else { assert(pot.dom().contains(u)); } }
}
pub proof fn lemma_has_cat<K>(a: Seq<K>, b: Seq<K>, x: K)
    ensures has(a + b, x) <==> has(a, x) || has(b, x)
{
    let q = a + b;
    if has(a, x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(q[i] == x); }
    if has(b, x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(q[a.len() + i] == x); }
    if has(q, x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
}
pub proof fn lemma_step_edges(es: Seq<EV>, pot: Pot, r0: Seq<EV>, v: u32, s: SM, c: Seq<EV>, t: Seq<EV>)
    requires closed_pot(es, pot), forall|x: EV| #[trigger] has(r0, x) <==> from_edge(es, pot, x), trav(es, v, s, c, t), forall|u: u32| #[trigger] s.dom().contains(u) ==> !pot.dom().contains(u)
    ensures forall|x: EV| #[trigger] has(r0 + t, x) <==> from_edge(es, pot_join(pot, s), x)
{
    let q = pot_join(pot, s);
    assert forall|x: EV| #[trigger] has(r0 + t, x) <==> from_edge(es, q, x) by {
        lemma_has_cat(r0, t, x);
        if has(r0, x) {
            let e = choose|e: EV| #[trigger] has(es, e) && pot.dom().contains(e.0) && x == padj(pot, e);
            assert(!s.dom().contains(e.0) && !s.dom().contains(e.1));
            assert(x == padj(q, e));
        }
        if has(t, x) {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
            lemma_trav_edge(es, v, s, c, t, i);
            assert(x == padj(q, c[i]));
        }
        if from_edge(es, q, x) {
            let e = choose|e: EV| #[trigger] has(es, e) && q.dom().contains(e.0) && x == padj(q, e);
            if s.dom().contains(e.0) {
                let i = lemma_trav_has(es, v, s, c, t, e);
                assert(t[i] == adjd(s, c[i]));
                assert(t[i] == x);
            } else {
                assert(pot.dom().contains(e.0) && pot.dom().contains(e.1));
                assert(!s.dom().contains(e.1));
                assert(x == padj(pot, e));
                assert(from_edge(es, pot, x));
            }
        }
    }
}
pub proof fn lemma_sub_steps(r: Seq<EV>, t: Seq<EV>)
    requires forall|x: EV| #[trigger] has(r, x) ==> has(t, x)
    ensures forall|i: int| 0 <= i < r.len() ==> zstep_of(t, #[trigger] r[i])
{
    assert forall|i: int| 0 <= i < r.len() implies zstep_of(t, #[trigger] r[i]) by {
        assert(has(r, r[i]));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == r[i];
        assert forall|w: u32, u: u32| #[trigger] zedge(r[i], w, u) implies zstep(t, w, u) by { assert(zedge(t[j], w, u)); }
    }
}
pub proof fn lemma_step_zsame(es: Seq<EV>, pot: Pot, r0: Seq<EV>, v: u32, s: SM, c: Seq<EV>, t: Seq<EV>)
    requires esok(es), zsame(es, pot, r0), trav(es, v, s, c, t)
    ensures zsame(es, pot_join(pot, s), r0 + t)
{
    let q = pot_join(pot, s);
    let r = r0 + t;
    assert forall|x: EV| #[trigger] has(r0, x) implies has(r, x) by { lemma_has_cat(r0, t, x); }
    assert forall|x: EV| #[trigger] has(t, x) implies has(r, x) by { lemma_has_cat(r0, t, x); }
    lemma_sub_steps(r0, r);
    lemma_sub_steps(t, r);
    assert forall|u: u32, w: u32| q.dom().contains(u) && #[trigger] meets(es, u, w) implies #[trigger] zjoined(r, u, w) by {
        if pot.dom().contains(u) { assert(zjoined(r0, u, w)); lemma_zjoined_of(r0, r, u, w); }
        else { lemma_trav_same(es, v, s, c, t, u, w); lemma_zjoined_of(t, r, u, w); }
    }
}
pub proof fn lemma_trav_same(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, t: Seq<EV>, u: u32, w: u32)
    requires esok(es), trav(es, v, s, c, t), s.dom().contains(u), meets(es, u, w)
    ensures zjoined(t, u, w)
{
    let pot = pot_join(nopot(), s);
    lemma_step_closed(es, nopot(), v, s, c, t);
    lemma_closed_meets(es, pot, u, w);
    assert(s.dom().contains(w));
    lemma_zjoined_both(t, v, u, w);
}
pub proof fn lemma_npart_end(es: Seq<EV>, pot: Pot, vs: Seq<u32>, r: Seq<EV>, rs: Seq<EV>)
    requires esok(es), isverts(vs, es), npart(es, pot, r), forall|k: int| 0 <= k < vs.len() ==> pot.dom().contains(#[trigger] vs[k]), forall|x: EV| #[trigger] has(rs, x) <==> has(canons(r), x)
    ensures shift_normal(es, pot, rs)
{
    assert forall|u: u32| #[trigger] end_of(es, es.len() as int, u) implies pot.dom().contains(u) && pot.at(u).len() == ldim() by { assert(has(vs, u)); }
    assert forall|x: EV| #[trigger] has(rs, x) <==> from_canon(es, pot, x) by {
        if has(canons(r), x) {
            let i = choose|i: int| 0 <= i < r.len() && canons(r)[i] == x;
            assert(has(r, r[i]));
            assert(from_edge(es, pot, r[i]));
            let e = choose|e: EV| #[trigger] has(es, e) && pot.dom().contains(e.0) && r[i] == padj(pot, e);
            assert(x == canon(padj(pot, e)));
        }
        if from_canon(es, pot, x) {
            let e = choose|e: EV| #[trigger] has(es, e) && x == canon(padj(pot, e));
            let j = choose|j: int| 0 <= j < es.len() && es[j] == e;
            assert(end_of(es, es.len() as int, e.0));
            assert(pot.dom().contains(e.0));
            assert(from_edge(es, pot, padj(pot, e)));
            assert(has(r, padj(pot, e)));
            let i = choose|i: int| 0 <= i < r.len() && r[i] == padj(pot, e);
            assert(canons(r)[i] == x);
        }
    }
    assert forall|i: int| 0 <= i < r.len() implies zstep_of(rs, #[trigger] r[i]) by {
        let x = canon(r[i]);
        lemma_canon(r[i]);
        assert(canons(r)[i] == x);
        assert(has(rs, x));
        let j = choose|j: int| 0 <= j < rs.len() && rs[j] == x;
        assert forall|w: u32, u: u32| #[trigger] zedge(r[i], w, u) implies zstep(rs, w, u) by {
            broadcast use axiom_ldim;
            assert(negl(zerol(ldim())) =~= zerol(ldim()));
            assert(zedge(rs[j], w, u));
        }
    }
    assert forall|u: u32, w: u32| end_of(es, es.len() as int, u) && #[trigger] meets(es, u, w) implies zjoined(rs, u, w) by { assert(zjoined(r, u, w)); lemma_zjoined_of(r, rs, u, w); }
}
impl<CS> Graph<Lab, CS> {
@fn pgraphs.rs :: Graph::is_connected
    cmp
    lit Int
@spec
    ensures res == net_connected(self.es())
@at start
    let ghost es = self.es();
    proof {
        assert(esok(es)) by { broadcast use axiom_graph; }
        assert forall|vs: Seq<u32>| #[trigger] isverts(vs, es) implies (if vs.len() == 0 { net_connected(es) } else { end_of(es, es.len() as int, vs[0]) }) by {
            if vs.len() > 0 { assert(has(vs, vs[0])); }
            else { assert forall|x: NV, y: NV| is_nv(es, x) && is_nv(es, y) implies #[trigger] joined(es, x, y) by { assert(has(vs, x.0)); } }
        }
        assert forall|vs: Seq<u32>, v: u32, n: int, k: int, m: Option<Int>| end_of(es, es.len() as int, v) && #[trigger] isverts(vs, es) && #[trigger] comp_size(es, v, n) && #[trigger] comp_rank(es, v, k) && #[trigger] comp_mult(es, v, k, m) implies
            (net_connected(es) <==> n == vs.len() && (m matches Some(x) && x.v() == 1)) by { assert(has(vs, v)); lemma_connected(es, vs, v, n, k, m); }
    }
@endfn
@fn pgraphs.rs :: Graph::shift_normalized
    sub Self=Graph T=Lab HashSet=VSet
    rettype Graph<Lab, CS>
@spec
    ensures exists|pot: Pot| #[trigger] shift_normal(self.es(), pot, res.es())
@at start
    hide(trav); hide(npart); hide(isverts);
    let ghost es = self.es();
    let ghost mut pot: Pot = nopot();
    let ghost mut vs: Seq<u32> = seq![];
    proof { assert(esok(es)) by { broadcast use axiom_graph; } }
@at before loop 1
    proof { assert(keys(edges@) =~= seq![]); lemma_npart_start(es, keys(edges@)); assert(pot.dom() =~= seen.s()); }
@loop 1
    es == self.es(), esok(es), isverts(seq1@, es), seen.s() == pot.dom(), npart(es, pot, keys(edges@)), forall|k: int| 0 <= k < it1 ==> pot.dom().contains(#[trigger] seq1@[k])
@at loop 1 start
    let ghost r0 = keys(edges@);
    let ghost s0 = seen.s();
    let ghost mut t: Seq<EV> = seq![];
    proof { assert(has(seq1@, seq1@[it1 - 1])); reveal(isverts); }
@at init loop 2
    proof { t = keys(seq2@); assert(r0 + t.take(0) =~= r0); assert(s0.union(Set::empty()) =~= s0); }
@loop 2
    t == keys(seq2@), keys(edges@) == r0 + t.take(it2 as int), forall|u: u32| #[trigger] seen.s().contains(u) <==> s0.contains(u) || end_of(t, it2 as int, u)
@at loop 2 start
    let ghost e0 = edges@;
@at loop 2 end
    proof {
        assert(t[it2 - 1] == seq2@[it2 - 1].key());
        let n = keys(edges@);
        assert(n.len() == r0.len() + it2);
        assert(n =~= (r0 + t.take(it2 - 1)).push(t[it2 - 1])) by { assert forall|i: int| 0 <= i < e0.len() implies n[i] == keys(e0)[i] by { } }
        assert(n =~= r0 + t.take(it2 as int));
    }
@at after loop 2
    proof {
        assert(t.take(t.len() as int) =~= t);
        let v = seq1@[it1 - 1];
        let (s, c) = choose|s: SM, c: Seq<EV>| #[trigger] trav(es, v, s, c, t);
        lemma_npart_step(es, pot, r0, v, s, c, t);
        pot = pot_join(pot, s);
        assert(pot.dom() =~= seen.s());
    }
@at end
    proof { lemma_npart_end(es, pot, seq1@, keys(edges@), res.es()); }
@endfn
}
