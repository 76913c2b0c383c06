@# position, edge_vector, the stability tests and the lookup of edges by their vectors
pub open spec fn fl(x: Seq<real>) -> Seq<real> { Seq::new(x.len(), |k: int| x[k] - (x[k].floor() as real)) }
/// the position of u, reduced into the unit cell
pub open spec fn np(m: PM, u: u32) -> Seq<real> { fl(m[u].v()) }
/// the vectors of the edges that leave v
pub open spec fn dvs(es: Seq<EV>, m: PM, v: u32) -> Seq<Seq<real>> { Seq::new(incs(es, v).len(), |i: int| dv(m, incs(es, v)[i])) }
pub open spec fn vert(es: Seq<EV>, u: u32) -> bool { end_of(es, es.len() as int, u) }
/// no two vertices at the same place
pub open spec fn stable(es: Seq<EV>, m: PM) -> bool { forall|u: u32, w: u32| #[trigger] vert(es, u) && #[trigger] vert(es, w) && u != w ==> np(m, u) != np(m, w) }
/// no two edges with the same vector at a vertex
pub open spec fn locally_stable(es: Seq<EV>, m: PM) -> bool { forall|v: u32| #[trigger] vert(es, v) ==> distinct(dvs(es, m, v)) }
/// two vertices at the same place with the same vectors
pub open spec fn collide(es: Seq<EV>, m: PM, u: u32, w: u32) -> bool { vert(es, u) && vert(es, w) && u != w && np(m, u) == np(m, w) && dvs(es, m, u).to_multiset() == dvs(es, m, w).to_multiset() }
/// what queries of positions do to the graph: the positions are computed once
pub open spec fn asks<CS>(g: &Graph<Lab, CS>, o: &Graph<Lab, CS>) -> bool { g.wf() && g.edges == o.edges && g.symmetries == o.symmetries && g.edge_lookup == o.edge_lookup && (o.pm() != Map::<u32, Point>::empty() ==> g.pm() == o.pm()) }
/// after a query there are positions
pub open spec fn known<CS>(g: &Graph<Lab, CS>) -> bool { is_place(g.es(), g.pm()) && g.pm() != Map::<u32, Point>::empty() }
impl VKey for Rat { type K = real; open spec fn key(&self) -> real { self.v() } uninterp spec fn klt(a: real, b: real) -> bool; }
impl<T: VKey> VKey for Vec<T> { type K = Seq<T::K>; open spec fn key(&self) -> Seq<T::K> { keys(self@) } uninterp spec fn klt(a: Seq<T::K>, b: Seq<T::K>) -> bool; }
impl VAdd<Int> for Rat { type Out = Rat; open spec fn add_ens(self, r: Int, o: Rat) -> bool { o.v() == self.v() + r.v() as real }
    #[verifier::external_body] fn vadd(self, r: Int) -> Rat { unimplemented!() } }
impl VAdd<&Int> for Rat { type Out = Rat; open spec fn add_ens(self, r: &Int, o: Rat) -> bool { o.v() == self.v() + r.v() as real }
    #[verifier::external_body] fn vadd(self, r: &Int) -> Rat { unimplemented!() } }
impl VAdd<Int> for &Rat { type Out = Rat; open spec fn add_ens(self, r: Int, o: Rat) -> bool { o.v() == self.v() + r.v() as real }
    #[verifier::external_body] fn vadd(self, r: Int) -> Rat { unimplemented!() } }
impl VAdd<&Int> for &Rat { type Out = Rat; open spec fn add_ens(self, r: &Int, o: Rat) -> bool { o.v() == self.v() + r.v() as real }
    #[verifier::external_body] fn vadd(self, r: &Int) -> Rat { unimplemented!() } }
impl VSub<Int> for Rat { type Out = Rat; open spec fn sub_ens(self, r: Int, o: Rat) -> bool { o.v() == self.v() - r.v() as real }
    #[verifier::external_body] fn vsub(self, r: Int) -> Rat { unimplemented!() } }
impl VSub<&Int> for Rat { type Out = Rat; open spec fn sub_ens(self, r: &Int, o: Rat) -> bool { o.v() == self.v() - r.v() as real }
    #[verifier::external_body] fn vsub(self, r: &Int) -> Rat { unimplemented!() } }
impl VSub<Int> for &Rat { type Out = Rat; open spec fn sub_ens(self, r: Int, o: Rat) -> bool { o.v() == self.v() - r.v() as real }
    #[verifier::external_body] fn vsub(self, r: Int) -> Rat { unimplemented!() } }
impl VSub<&Int> for &Rat { type Out = Rat; open spec fn sub_ens(self, r: &Int, o: Rat) -> bool { o.v() == self.v() - r.v() as real }
    #[verifier::external_body] fn vsub(self, r: &Int) -> Rat { unimplemented!() } }
/// labels are i32
#[verifier::external_body] pub fn vint(x: Int) -> (r: Int) ensures r == x { unimplemented!() }
pub proof fn lemma_vert_inc(es: Seq<EV>, v: u32)
    requires vert(es, v), esok(es)
    ensures incs(es, v).len() > 0
{ lemma_inc(es, es.len() as int, v); }
pub proof fn lemma_edge_verts<CS>(es: Seq<EV>, v: u32, q: Seq<Edge<Lab, CS>>, i: int)
    requires keys(q) == incs(es, v), 0 <= i < q.len(), esok(es)
    ensures vert(es, q[i].head), vert(es, q[i].tail), q[i].key() == incs(es, v)[i]
{
    assert(keys(q)[i] == q[i].key());
    assert(has(incs(es, v), incs(es, v)[i]));
    lemma_inc(es, es.len() as int, v);
    lemma_inc_end(es, v, incs(es, v)[i]);
}
pub proof fn lemma_not_distinct<K>(f: Seq<K>, n: int)
    requires 0 <= n < f.len(), exists|i: int| 0 <= i < n && #[trigger] f[i] == f[n]
    ensures !distinct(f)
{ let i = choose|i: int| 0 <= i < n && #[trigger] f[i] == f[n]; assert(f[i] == f[n]); }
/// sorting: what comes out depends on the elements alone
pub uninterp spec fn sorted_of<K>(s: vstd::multiset::Multiset<K>) -> Seq<K>;
pub broadcast axiom fn axiom_sorted<K>(s: Seq<K>) ensures #[trigger] sorted_of(s.to_multiset()).to_multiset() == s.to_multiset();
pub trait VSort { type E: VKey; spec fn lst(&self) -> Seq<Self::E>; fn vsort(&mut self) ensures keys(final(self).lst()) == sorted_of(keys(old(self).lst()).to_multiset()); }
impl<T: VKey> VSort for Vec<T> { type E = T; open spec fn lst(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vsort(&mut self) { unimplemented!() } }
/// a pointer from a cell, read
pub trait VPtr: Sized { fn vasref(&mut self) -> (r: Option<&Self>) ensures r is Some, *r->Some_0 == *old(self), *final(self) == *old(self); }
impl<T> VPtr for T { #[verifier::external_body] fn vasref(&mut self) -> (r: Option<&T>) { unimplemented!() } }
/// what tells a vertex from another: the vectors around it, sorted, and its place
pub open spec fn sig(es: Seq<EV>, m: PM, v: u32) -> Seq<Seq<real>> { sorted_of(dvs(es, m, v).to_multiset()).push(np(m, v)) }
pub open spec fn sigs(es: Seq<EV>, m: PM, vs: Seq<u32>) -> Seq<Seq<Seq<real>>> { Seq::new(vs.len(), |i: int| sig(es, m, vs[i])) }
pub proof fn lemma_sig(es: Seq<EV>, m: PM, u: u32, w: u32)
    ensures sig(es, m, u) == sig(es, m, w) <==> np(m, u) == np(m, w) && dvs(es, m, u).to_multiset() == dvs(es, m, w).to_multiset()
{
    let (a, b) = (sig(es, m, u), sig(es, m, w));
    if a == b {
        assert(a.last() == np(m, u) && b.last() == np(m, w));
        assert(a.drop_last() =~= sorted_of(dvs(es, m, u).to_multiset()));
        assert(b.drop_last() =~= sorted_of(dvs(es, m, w).to_multiset()));
        axiom_sorted(dvs(es, m, u)); axiom_sorted(dvs(es, m, w));
    }
}
pub proof fn lemma_collide(es: Seq<EV>, m: PM, vs: Seq<u32>, n: int)
    requires isverts(vs, es), 0 <= n < vs.len(), exists|i: int| 0 <= i < n && #[trigger] sigs(es, m, vs)[i] == sigs(es, m, vs)[n]
    ensures exists|u: u32, w: u32| #[trigger] collide(es, m, u, w)
{
    let i = choose|i: int| 0 <= i < n && #[trigger] sigs(es, m, vs)[i] == sigs(es, m, vs)[n];
    lemma_vert(es, vs, i); lemma_vert(es, vs, n); lemma_sig(es, m, vs[i], vs[n]);
    assert(vs[i] < vs[n]);
    assert(collide(es, m, vs[i], vs[n]));
}
pub proof fn lemma_no_collision(es: Seq<EV>, m: PM, vs: Seq<u32>)
    requires isverts(vs, es), distinct(sigs(es, m, vs).take(vs.len() as int))
    ensures !exists|u: u32, w: u32| #[trigger] collide(es, m, u, w)
{
    let f = sigs(es, m, vs).take(vs.len() as int);
    assert forall|u: u32, w: u32| !#[trigger] collide(es, m, u, w) by {
        if collide(es, m, u, w) {
            lemma_sig(es, m, u, w);
            assert(has(vs, u) && has(vs, w));
            let i = choose|i: int| 0 <= i < vs.len() && vs[i] == u;
            let j = choose|j: int| 0 <= j < vs.len() && vs[j] == w;
            assert(f[i] == f[j]);
            if i < j { assert(f[i] != f[j]); } else { assert(f[j] != f[i]); }
        }
    }
}
pub proof fn lemma_uniq0<CS>(m: PM, q: Seq<EV>) ensures uniq(m, q, 0, Map::<Seq<real>, Edge<Lab, CS>>::empty()) { }
/// the table of unique vectors takes another edge
pub proof fn lemma_uniq_step<CS>(es: Seq<EV>, v: u32, m: PM, n: int, h0: Map<Seq<real>, Edge<Lab, CS>>, h1: Map<Seq<real>, Edge<Lab, CS>>, e: Edge<Lab, CS>)
    requires 0 < n <= incs(es, v).len(), uniq(m, incs(es, v), n - 1, h0), e.key() == incs(es, v)[n - 1],
        h1 == (if upto(dvs(es, m, v), n - 1).contains(dv(m, e.key())) { h0.remove(dv(m, e.key())) } else { h0.insert(dv(m, e.key()), e) })
    ensures uniq(m, incs(es, v), n, h1)
{
    let q = incs(es, v); let f = dvs(es, m, v); let x0 = dv(m, e.key());
    let p = f.take(n - 1);
    let dup = upto(f, n - 1).contains(x0);
    if dup { let i = choose|i: int| 0 <= i < p.len() && p[i] == x0; assert(dv(m, q[i]) == x0 && i < n - 1); }
    assert forall|t: int| #[trigger] only(m, q, n, t) implies h1.dom().contains(dv(m, q[t])) by {
        if t < n - 1 {
            assert(only(m, q, n - 1, t));
            assert(dv(m, q[n - 1]) != dv(m, q[t]));
        } else if dup { let i = choose|i: int| 0 <= i < p.len() && p[i] == x0; assert(dv(m, q[i]) == dv(m, q[t])); }
    }
    assert forall|x: Seq<real>| #[trigger] h1.dom().contains(x) implies uniq_at(m, q, n, h1[x].key(), x) by {
        if x == x0 {
            assert(!dup);
            assert forall|i: int| 0 <= i < n && i != n - 1 implies dv(m, #[trigger] q[i]) != dv(m, q[n - 1]) by { assert(p[i] == dv(m, q[i])); assert(p.contains(p[i])); }
            assert(only(m, q, n, n - 1));
        } else {
            assert(h0.dom().contains(x) && h1[x] == h0[x]);
            let t = choose|t: int| #[trigger] only(m, q, n - 1, t) && q[t] == h0[x].key() && dv(m, h0[x].key()) == x;
            assert(only(m, q, n, t));
        }
    }
}
/// the tables of the first n vertices
pub open spec fn lk_part<CS>(es: Seq<EV>, m: PM, vs: Seq<u32>, n: int, lk: Map<u32, VMap<Vector, Edge<Lab, CS>>>) -> bool {
    &&& forall|v: u32| #[trigger] lk.dom().contains(v) <==> has(vs.take(n), v)
    &&& forall|v: u32| #[trigger] lk.dom().contains(v) ==> uniq(m, incs(es, v), incs(es, v).len() as int, lk[v].m())
}
pub proof fn lemma_lk0<CS>(es: Seq<EV>, m: PM, vs: Seq<u32>) ensures lk_part(es, m, vs, 0, Map::<u32, VMap<Vector, Edge<Lab, CS>>>::empty()) { }
pub proof fn lemma_lk_step<CS>(es: Seq<EV>, m: PM, vs: Seq<u32>, n: int, lk: Map<u32, VMap<Vector, Edge<Lab, CS>>>, h: VMap<Vector, Edge<Lab, CS>>)
    requires 0 < n <= vs.len(), lk_part(es, m, vs, n - 1, lk), uniq(m, incs(es, vs[n - 1]), incs(es, vs[n - 1]).len() as int, h.m())
    ensures lk_part(es, m, vs, n, lk.insert(vs[n - 1], h))
{
    let (x, y) = (vs.take(n), vs.take(n - 1));
    let l = lk.insert(vs[n - 1], h);
    assert forall|u: u32| #[trigger] l.dom().contains(u) <==> has(x, u) by {
        if has(x, u) { let i = choose|i: int| 0 <= i < n && x[i] == u; if i < n - 1 { assert(y[i] == u); assert(has(y, u)); } }
        if has(y, u) { let i = choose|i: int| 0 <= i < n - 1 && y[i] == u; assert(x[i] == u); }
        assert(x[n - 1] == vs[n - 1]);
    }
}
pub proof fn lemma_lk_all<CS>(es: Seq<EV>, m: PM, vs: Seq<u32>, lk: Map<u32, VMap<Vector, Edge<Lab, CS>>>)
    requires isverts(vs, es), lk_part(es, m, vs, vs.len() as int, lk)
    ensures is_lookup(es, m, lk)
{
    assert(vs.take(vs.len() as int) =~= vs);
    assert forall|v: u32| #[trigger] lk.dom().contains(v) <==> end_of(es, es.len() as int, v) by { assert(has(vs, v) <==> end_of(es, es.len() as int, v)); }
}
pub proof fn lemma_known<CS>(g: &Graph<Lab, CS>, v: u32)
    requires g.wf(), vert(g.es(), v)
    ensures known(g) <==> g.pm() != Map::<u32, Point>::empty(), known(g) ==> g.pm().dom().contains(v) && g.pm()[v].v().len() == ldim(), g.es().len() > 0, is_place(g.es(), g.pm()) ==> known(g)
{
    if is_place(g.es(), g.pm()) { assert(g.pm().dom().contains(v)); }
    if g.es().len() == 0 { assert(!end_of(g.es(), 0, v)); }
}
pub proof fn lemma_asks_es<CS>(g: &Graph<Lab, CS>, o: &Graph<Lab, CS>) requires asks(g, o) ensures g.es() == o.es() { }
/// the first n keys
pub open spec fn upto<K>(f: Seq<K>, n: int) -> Set<K> { f.take(n).to_set() }
pub proof fn lemma_upto0<K>(f: Seq<K>) ensures upto(f, 0) == Set::<K>::empty(), distinct(f.take(0))
{ assert(f.take(0) =~= Seq::<K>::empty()); assert(upto(f, 0) =~= Set::<K>::empty()); }
pub proof fn lemma_upto_step<K>(f: Seq<K>, n: int)
    requires 0 < n <= f.len(), distinct(f.take(n - 1))
    ensures !upto(f, n - 1).contains(f[n - 1]) ==> distinct(f.take(n)) && upto(f, n) == upto(f, n - 1).insert(f[n - 1]), upto(f, n - 1).contains(f[n - 1]) ==> exists|i: int| 0 <= i < n - 1 && #[trigger] f[i] == f[n - 1]
{
    let (a, b) = (f.take(n - 1), f.take(n));
    if upto(f, n - 1).contains(f[n - 1]) { let i = choose|i: int| 0 <= i < a.len() && a[i] == f[n - 1]; assert(f[i] == f[n - 1]); }
    else {
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by {
            if j < n - 1 { assert(a[i] != a[j]); } else { assert(a.contains(a[i])); assert(a[i] == b[i]); }
        }
        assert forall|x: K| upto(f, n).contains(x) == upto(f, n - 1).insert(f[n - 1]).contains(x) by {
            if upto(f, n).contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < n - 1 { assert(a[i] == x); } }
            if upto(f, n - 1).contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); }
            assert(b[n - 1] == f[n - 1]);
        }
        assert(upto(f, n) =~= upto(f, n - 1).insert(f[n - 1]));
    }
}
pub proof fn lemma_upto_any<K>(f: Seq<K>, n: int)
    requires 0 < n <= f.len()
    ensures upto(f, n) == upto(f, n - 1).insert(f[n - 1])
{
    let (a, b) = (f.take(n - 1), f.take(n));
    assert forall|x: K| upto(f, n).contains(x) == upto(f, n - 1).insert(f[n - 1]).contains(x) by {
        if upto(f, n).contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < n - 1 { assert(a[i] == x); } }
        if upto(f, n - 1).contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); }
        assert(b[n - 1] == f[n - 1]);
    }
    assert(upto(f, n) =~= upto(f, n - 1).insert(f[n - 1]));
}
pub proof fn lemma_key_push<T: VKey>(d0: Seq<T>, d1: Seq<T>, f: Seq<T::K>, n: int)
    requires 0 < n <= f.len(), keys(d0) == f.take(n - 1), d1.len() == d0.len() + 1, d1 == d0.push(d1.last()), d1.last().key() == f[n - 1]
    ensures keys(d1) == f.take(n)
{
    assert(keys(d0).len() == n - 1);
    assert forall|i: int| 0 <= i < n implies #[trigger] keys(d1)[i] == f.take(n)[i] by { if i < n - 1 { assert(keys(d0)[i] == f.take(n - 1)[i]); assert(d1[i] == d0[i]); } }
    assert(keys(d1) =~= f.take(n));
}
pub proof fn lemma_lk_none<CS>(es: Seq<EV>, m: PM, lk: Map<u32, VMap<Vector, Edge<Lab, CS>>>)
    requires is_lookup(es, m, lk), es.len() == 0
    ensures lk == Map::<u32, VMap<Vector, Edge<Lab, CS>>>::empty()
{
    assert forall|v: u32| !lk.dom().contains(v) by { assert(!end_of(es, 0, v)); }
    assert(lk =~= Map::<u32, VMap<Vector, Edge<Lab, CS>>>::empty());
}
/// the places of the vertices
pub open spec fn nps(m: PM, vs: Seq<u32>) -> Seq<Seq<real>> { Seq::new(vs.len(), |i: int| np(m, vs[i])) }
pub proof fn lemma_not_stable(es: Seq<EV>, m: PM, vs: Seq<u32>, n: int)
    requires isverts(vs, es), 0 <= n < vs.len(), exists|i: int| 0 <= i < n && #[trigger] nps(m, vs)[i] == nps(m, vs)[n]
    ensures !stable(es, m)
{
    let i = choose|i: int| 0 <= i < n && #[trigger] nps(m, vs)[i] == nps(m, vs)[n];
    lemma_vert(es, vs, i); lemma_vert(es, vs, n);
    assert(vs[i] < vs[n]);
    assert(vert(es, vs[i]) && vert(es, vs[n]));
}
pub proof fn lemma_is_stable(es: Seq<EV>, m: PM, vs: Seq<u32>)
    requires isverts(vs, es), distinct(nps(m, vs).take(vs.len() as int))
    ensures stable(es, m)
{
    let f = nps(m, vs).take(vs.len() as int);
    assert forall|u: u32, w: u32| #[trigger] vert(es, u) && #[trigger] vert(es, w) && u != w implies np(m, u) != np(m, w) by {
        assert(has(vs, u) && has(vs, w));
        let i = choose|i: int| 0 <= i < vs.len() && vs[i] == u;
        let j = choose|j: int| 0 <= j < vs.len() && vs[j] == w;
        assert(f[i] == np(m, u) && f[j] == np(m, w));
        if i < j { assert(f[i] != f[j]); } else { assert(f[j] != f[i]); }
    }
}
pub proof fn lemma_some_vert(es: Seq<EV>, vs: Seq<u32>)
    requires isverts(vs, es)
    ensures es.len() > 0 ==> vs.len() > 0
{ if es.len() > 0 { assert(end_of(es, es.len() as int, es[0].0)); assert(has(vs, es[0].0)); } }
impl<CS> Graph<Lab, CS> {
@fn pgraphs.rs :: Graph<T,CS>::position
    self &mut self
    sub T=Lab
    vidx positions
@spec
    requires old(self).wf(), vert(old(self).es(), *v)
    ensures asks(final(self), old(self)), known(final(self)), res.v() == final(self).pm()[*v].v()
@at start
    proof { lemma_known(self, *v); }
@endfn
@fn pgraphs.rs :: Graph<T,CS>::position_normalized
    self &mut self
    sub T=Lab
    vseq self.position(&v)
    collect 1 Point
    accty 1 Vec<Rat>
@spec
    requires old(self).wf(), vert(old(self).es(), *v)
    ensures asks(final(self), old(self)), known(final(self)), res.v() == np(final(self).pm(), *v)
@at start
    broadcast use axiom_point;
@loop 1
    invariant asks(self, old(self)), known(self), end1 == seq1@.len(), rats(seq1@) == self.pm()[*v].v(), rats(acc1@) =~= np(self.pm(), *v).take(it1 as int), acc1@.len() == it1
@at loop 1 start
    let ghost a0 = acc1@;
@at loop 1 end
    proof {
        let o = np(self.pm(), *v);
        assert(rats(seq1@)[it1 - 1] == seq1@[it1 - 1].v());
        assert(rats(acc1@) =~= o.take(it1 as int)) by { assert forall|k: int| 0 <= k < it1 implies #[trigger] rats(acc1@)[k] == o.take(it1 as int)[k] by { if k < it1 - 1 { assert(rats(a0)[k] == o.take(it1 - 1)[k]); } } }
    }
@at after loop 1
    proof { assert(np(self.pm(), *v).take(it1 as int) =~= np(self.pm(), *v)); }
@endfn
@fn pgraphs.rs :: Graph<T,CS>::edge_vector
    self &mut self
    sub T=Lab BigInt=Int
    vidx p q
    call to_vec=to_vec Int::from=vint
    collect 1 Vector
    accty 1 Vec<Rat>
@spec
    requires old(self).wf(), vert(old(self).es(), e.head), vert(old(self).es(), e.tail)
    ensures asks(final(self), old(self)), known(final(self)), res.v() == dv(final(self).pm(), e.key())
@at start
    broadcast use axiom_ldim;
    let ghost g0 = *self;
@at before loop 1
    proof { lemma_known(self, e.head); lemma_known(self, e.tail); lemma_asks_es(self, &g0); axiom_lab(e.shift); assert(ints(s@).len() == s@.len()); }
@loop 1
    invariant asks(self, &g0), known(self), d == ldim(), p.v() == self.pm()[e.head].v(), q.v() == self.pm()[e.tail].v(), ints(s@) == e.key().2, p.v().len() == d, q.v().len() == d, s@.len() == d, acc1@.len() == it1,
        forall|k: int| 0 <= k < it1 ==> (#[trigger] acc1@[k]).v() == dl(self.pm(), e.key(), k)
@at loop 1 end
    proof { assert(ints(s@)[it1 - 1] == s@[it1 - 1].v()); assert(dl(self.pm(), e.key(), it1 - 1) == q.v()[it1 - 1] + s@[it1 - 1].v() as real - p.v()[it1 - 1]); }
@at after loop 1
    proof { assert(rats(acc1@) =~= dv(self.pm(), e.key())); }
@endfn
@fn pgraphs.rs :: Graph<T,CS>::is_stable
    self &mut self
    sub T=Lab HashSet=VSet
@spec
    requires old(self).wf()
    ensures asks(final(self), old(self)), old(self).es().len() > 0 ==> known(final(self)), res == stable(old(self).es(), final(self).pm())
@at start
    let ghost g0 = *self;
    let ghost es = self.es();
@at init loop 1
    let ghost vs = seq1@;
    proof { lemma_some_vert(es, vs); lemma_upto0(nps(self.pm(), vs)); }
@loop 1
    invariant asks(self, &g0), end1 == seq1@.len(), seq1@ == vs, isverts(vs, es), it1 > 0 ==> known(self), seen.s() == upto(nps(self.pm(), vs), it1 as int), distinct(nps(self.pm(), vs).take(it1 as int))
@at loop 1 start
    proof { lemma_vert(es, vs, it1 - 1); lemma_asks_es(self, &g0); }
    let ghost m0 = self.pm();
@at after position_normalized 1
    proof { if it1 == 1 { lemma_upto0(nps(m0, vs)); lemma_upto0(nps(self.pm(), vs)); } else { assert(self.pm() == m0); } lemma_upto_step(nps(self.pm(), vs), it1 as int); }
@at then 1
    proof { lemma_not_stable(es, self.pm(), vs, it1 - 1); }
@at after loop 1
    proof { lemma_is_stable(es, self.pm(), vs); }
@endfn
@fn pgraphs.rs :: Graph<T,CS>::is_locally_stable
    self &mut self
    sub T=Lab HashSet=VSet
@spec
    requires old(self).wf()
    ensures asks(final(self), old(self)), old(self).es().len() > 0 ==> known(final(self)), res == locally_stable(old(self).es(), final(self).pm())
@at start
    let ghost g0 = *self;
    let ghost es = self.es();
@at init loop 1
    let ghost vs = seq1@;
    proof { lemma_some_vert(es, vs); }
@loop 1
    invariant asks(self, &g0), end1 == seq1@.len(), seq1@ == vs, isverts(vs, es), it1 > 0 ==> known(self), forall|i: int| 0 <= i < it1 ==> distinct(dvs(es, self.pm(), #[trigger] vs[i]))
@at loop 1 start
    proof { lemma_vert(es, vs, it1 - 1); lemma_asks_es(self, &g0); }
@at init loop 2
    proof { lemma_vert_inc(es, v); lemma_upto0(dvs(es, self.pm(), v)); lemma_asks_es(self, &g0); }
@loop 2
    invariant asks(self, &g0), v == vs[it1 - 1], end2 == seq2@.len(), keys(seq2@) == incs(es, v), it1 > 1 || it2 > 0 ==> known(self), seen.s() == upto(dvs(es, self.pm(), v), it2 as int), distinct(dvs(es, self.pm(), v).take(it2 as int)),
        forall|i: int| 0 <= i < it1 - 1 ==> distinct(dvs(es, self.pm(), #[trigger] vs[i]))
@at loop 2 start
    let ghost m0 = self.pm();
    proof { lemma_edge_verts(es, v, seq2@, it2 - 1); lemma_asks_es(self, &g0); }
@at after edge_vector 1
    proof {
        if it2 == 1 { lemma_upto0(dvs(es, m0, v)); lemma_upto0(dvs(es, self.pm(), v)); } else { assert(self.pm() == m0); }
        lemma_upto_step(dvs(es, self.pm(), v), it2 as int);
        assert(dvs(es, self.pm(), v)[it2 - 1] == q.v());
    }
@at then 1
    proof { lemma_not_distinct(dvs(es, self.pm(), v), it2 - 1); assert(vert(es, v)); }
@at after loop 2
    proof { assert(dvs(es, self.pm(), v).take(it2 as int) =~= dvs(es, self.pm(), v)); }
@at after loop 1
    proof { assert forall|u: u32| #[trigger] vert(es, u) implies distinct(dvs(es, self.pm(), u)) by { assert(has(vs, u)); } }
@endfn
@fn pgraphs.rs :: Graph<T,CS>::has_second_order_collisions
    self &mut self
    sub T=Lab HashSet=VSet
    vseq v p
    call .sort=vsort
    accty 3 Vec<Rat>
    accty 4 Vec<Rat>
    letty deltas Vec<Vec<Rat>>
@spec
    requires old(self).wf()
    ensures asks(final(self), old(self)), old(self).es().len() > 0 ==> known(final(self)), res == exists|u: u32, w: u32| #[trigger] collide(old(self).es(), final(self).pm(), u, w)
@at start
    broadcast use {axiom_point, axiom_vector};
    let ghost g0 = *self;
    let ghost es = self.es();
@at init loop 1
    let ghost vs = seq1@;
    proof { lemma_some_vert(es, vs); lemma_upto0(sigs(es, self.pm(), vs)); }
@loop 1
    invariant asks(self, &g0), end1 == seq1@.len(), seq1@ == vs, isverts(vs, es), it1 > 0 ==> known(self), seen.s() == upto(sigs(es, self.pm(), vs), it1 as int), distinct(sigs(es, self.pm(), vs).take(it1 as int))
@at loop 1 start
    proof { lemma_vert(es, vs, it1 - 1); lemma_asks_es(self, &g0); }
    let ghost m0 = self.pm();
@at init loop 2
    let ghost v0 = v;
    proof { lemma_vert_inc(es, v); lemma_asks_es(self, &g0); }
@loop 2
    invariant asks(self, &g0), v == v0, vert(es, v0), v0 == vs[it1 - 1], end2 == seq2@.len(), keys(seq2@) == incs(es, v0), it1 > 1 || it2 > 0 ==> known(self), it1 > 1 ==> self.pm() == m0, keys(deltas@) == dvs(es, self.pm(), v0).take(it2 as int)
@at loop 2 start
    let ghost m1 = self.pm();
    let ghost d0 = deltas@;
    proof { lemma_edge_verts(es, v0, seq2@, it2 - 1); lemma_asks_es(self, &g0); }
@at init loop 3
    proof { assert(keys(d0) =~= dvs(es, self.pm(), v0).take(it2 - 1)); }
@loop 3
    invariant acc3@ == seq3@.take(it3 as int), end3 == seq3@.len()
@at loop 3 end
    proof { assert(seq3@.take(it3 as int) =~= seq3@.take(it3 - 1).push(seq3@[it3 - 1])); }
@at after loop 3
    proof { assert(acc3@ =~= seq3@); assert(keys(acc3@) =~= rats(seq3@)); }
@at loop 2 end
    proof { lemma_key_push(d0, deltas@, dvs(es, self.pm(), v0), it2 as int); }
@at after loop 2
    proof { assert(dvs(es, self.pm(), v0).take(it2 as int) =~= dvs(es, self.pm(), v0)); }
@at init loop 4
    let ghost d1 = deltas@;
@loop 4
    invariant acc4@ == seq4@.take(it4 as int), end4 == seq4@.len(), deltas@ == d1
@at loop 4 end
    proof { assert(seq4@.take(it4 as int) =~= seq4@.take(it4 - 1).push(seq4@[it4 - 1])); }
@at after loop 4
    proof { assert(acc4@ =~= seq4@); assert(keys(acc4@) =~= rats(seq4@)); }
@at after push 2
    proof {
        assert(keys(deltas@) =~= sig(es, self.pm(), v0));
        if it1 == 1 { lemma_upto0(sigs(es, m0, vs)); lemma_upto0(sigs(es, self.pm(), vs)); } else { assert(self.pm() == m0); }
        lemma_upto_step(sigs(es, self.pm(), vs), it1 as int);
        assert(sigs(es, self.pm(), vs)[it1 - 1] == deltas.key());
    }
@at then 1
    proof { lemma_collide(es, self.pm(), vs, it1 - 1); }
@at after loop 1
    proof { lemma_no_collision(es, self.pm(), vs); }
@endfn
@fn pgraphs.rs :: Graph<T,CS>::edge_by_unique_delta
    self &mut self
    sub T=Lab
    call .as_ref=vasref
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).edges == old(self).edges, final(self).symmetries == old(self).symmetries, old(self).pm() != Map::<u32, Point>::empty() ==> final(self).pm() == old(self).pm(),
        old(self).es().len() > 0 ==> known(final(self)),
        res matches Some(e) ==> uniq_at(final(self).pm(), incs(old(self).es(), *v), incs(old(self).es(), *v).len() as int, e.key(), delta.v()),
        res is None ==> forall|t: int| #[trigger] only(final(self).pm(), incs(old(self).es(), *v), incs(old(self).es(), *v).len() as int, t) ==> dv(final(self).pm(), incs(old(self).es(), *v)[t]) != delta.v()
@at start
    let ghost es = self.es();
    let ghost lk0 = self.edge_lookup.c.m();
    proof { lemma_inc(es, es.len() as int, *v); if lk0.dom().contains(*v) { lemma_known(self, *v); } if es.len() > 0 { assert(vert(es, es[0].0)); lemma_known(self, es[0].0); } }
@at then 1 end
    proof { if es.len() == 0 { lemma_lk_none(es, self.pm(), self.edge_lookup.c.m()); } }
@endfn
}
@fn pgraphs.rs :: edges_by_unique_deltas
    generics <CS>
    param g &mut Graph<Lab, CS>
    sub T=Lab HashSet=VSet BTreeMap=VMap HashMap=VMap
@spec
    requires old(g).wf()
    ensures asks(final(g), old(g)), old(g).es().len() > 0 ==> known(final(g)), is_lookup(old(g).es(), final(g).pm(), res.m())
@at start
    let ghost g0 = *g;
    let ghost es = g.es();
@at init loop 1
    let ghost vs = seq1@;
    proof { lemma_some_vert(es, vs); lemma_lk0::<CS>(es, g.pm(), vs); }
@loop 1
    invariant asks(g, &g0), end1 == seq1@.len(), seq1@ == vs, isverts(vs, es), it1 > 0 ==> known(g), lk_part(es, g.pm(), vs, it1 as int, result.m()), it1 == 0 ==> result.m() == Map::<u32, VMap<Vector, Edge<Lab, CS>>>::empty()
@at loop 1 start
    proof { lemma_vert(es, vs, it1 - 1); lemma_asks_es(g, &g0); }
    let ghost m0 = g.pm();
@at init loop 2
    proof { lemma_vert_inc(es, head); lemma_upto0(dvs(es, g.pm(), head)); lemma_uniq0::<CS>(g.pm(), incs(es, head)); lemma_asks_es(g, &g0); }
@loop 2
    invariant asks(g, &g0), vert(es, head), head == vs[it1 - 1], end2 == seq2@.len(), keys(seq2@) == incs(es, head), it1 > 1 || it2 > 0 ==> known(g), it1 > 1 ==> g.pm() == m0, seen.s() == upto(dvs(es, g.pm(), head), it2 as int),
        it2 == 0 ==> to_edge.m() == Map::<Seq<real>, Edge<Lab, CS>>::empty(), uniq(g.pm(), incs(es, head), it2 as int, to_edge.m())
@at loop 2 start
    let ghost m1 = g.pm();
    let ghost h0 = to_edge.m();
    let ghost s0 = seen.s();
    proof { lemma_edge_verts(es, head, seq2@, it2 - 1); lemma_asks_es(g, &g0); }
    let ghost e0 = seq2@[it2 - 1];
@at after edge_vector 1
    proof {
        if it2 == 1 { lemma_upto0(dvs(es, m1, head)); lemma_upto0(dvs(es, g.pm(), head)); lemma_uniq0::<CS>(g.pm(), incs(es, head)); } else { assert(g.pm() == m1); }
        assert(dvs(es, g.pm(), head)[it2 - 1] == delta.v());
    }
@at loop 2 end
    proof { lemma_upto_any(dvs(es, g.pm(), head), it2 as int); lemma_uniq_step(es, head, g.pm(), it2 as int, h0, to_edge.m(), e0); }
@at after loop 2
    proof { if it1 == 1 { lemma_lk0::<CS>(es, g.pm(), vs); } else { assert(g.pm() == m0); } lemma_lk_step(es, g.pm(), vs, it1 as int, result.m(), to_edge); }
@at after loop 1
    proof { lemma_lk_all(es, g.pm(), vs, result.m()); }
@endfn
