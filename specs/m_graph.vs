@# Graph of src/pgraphs.rs. The cells are read as exclusive access: the methods take self by unique reference.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(CS)]
pub struct Automorphism<T, CS> { p: PhantomData<(T, CS)> }
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(CS)]
@struct pgraphs.rs Graph UnsafeCell=VCell BTreeMap=VMap HashMap=VMap
/// a table of incidences, entry by entry
pub open spec fn tab<CS>(m: Map<u32, Vec<Edge<Lab, CS>>>, f: spec_fn(u32) -> Seq<EV>) -> bool {
    forall|v: u32| { let fv = f(v); #[trigger] m.dom().contains(v) == (fv.len() > 0) && (m.dom().contains(v) ==> keys(m[v]@) == fv) }
}
/// while the k-th edge is entered in its j directions
pub open spec fn part(es: Seq<EV>, k: int, j: int, v: u32) -> Seq<EV> {
    let p = inc(es, k - 1, v);
    if j <= 0 { p } else if j == 1 { app(p, es[k - 1], v) } else { app(app(p, es[k - 1], v), rev(es[k - 1]), v) }
}
impl<CS> Graph<Lab, CS> {
    pub open spec fn es(self) -> Seq<EV> { keys(self.edges@) }
    /// the cached answers are the right ones
    pub open spec fn wf(self) -> bool {
        &&& esok(self.es())
        &&& self.vertices.c matches Some(vs) ==> isverts(vs@, self.es())
        &&& forall|v: u32| #[trigger] self.incidences.c.m().dom().contains(v) ==> keys(self.incidences.c.m()[v]@) == incs(self.es(), v)
        &&& self.pm() == Map::<u32, Point>::empty() || is_place(self.es(), self.pm())
        &&& self.edge_lookup.c.m() == Map::<u32, VMap<Vector, Edge<Lab, CS>>>::empty() || is_place(self.es(), self.pm()) && is_lookup(self.es(), self.pm(), self.edge_lookup.c.m())
    }
    /// the cached positions
    pub open spec fn pm(self) -> PM { self.positions.c.m() }
    /// what the queries that ask for no positions leave alone
    pub open spec fn keeps(self, o: Self) -> bool { self.edges == o.edges && self.positions == o.positions && self.edge_lookup == o.edge_lookup && self.symmetries == o.symmetries }
}
/// a strictly ascending list is determined by its elements
pub proof fn lemma_unique_u32(a: Seq<u32>, b: Seq<u32>)
    requires forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] a[i] < #[trigger] a[j], forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] b[i] < #[trigger] b[j],
        forall|x: u32| has(a, x) <==> has(b, x)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 || b.len() == 0 {
        if a.len() > 0 { assert(has(a, a[0])); }
        if b.len() > 0 { assert(has(b, b[0])); }
        assert(a =~= b);
    } else {
        let (m, n) = (a.len() - 1, b.len() - 1);
        assert(has(a, a[m]) && has(b, b[n]));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == a[m];
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b[n];
        assert(a[m] == b[n]);
        assert forall|x: u32| has(a.drop_last(), x) <==> has(b.drop_last(), x) by {
            if has(a.drop_last(), x) {
                let k = choose|k: int| 0 <= k < m && a.drop_last()[k] == x;
                assert(has(a, a[k]));
                let l = choose|l: int| 0 <= l < b.len() && b[l] == x;
                assert(l < n); assert(b.drop_last()[l] == x);
            }
            if has(b.drop_last(), x) {
                let k = choose|k: int| 0 <= k < n && b.drop_last()[k] == x;
                assert(has(b, b[k]));
                let l = choose|l: int| 0 <= l < a.len() && a[l] == x;
                assert(l < m); assert(a.drop_last()[l] == x);
            }
        }
        lemma_unique_u32(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a[m])); assert(b =~= b.drop_last().push(b[n]));
    }
}
/// graphs with the same undirected edges store the same list
pub proof fn lemma_unique_es(a: Seq<EV>, b: Seq<EV>)
    requires esok(a), esok(b), forall|x: EV| has(a, x) <==> has(b, x)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 || b.len() == 0 {
        if a.len() > 0 { assert(has(a, a[0])); }
        if b.len() > 0 { assert(has(b, b[0])); }
        assert(a =~= b);
    } else {
        let (m, n) = (a.len() - 1, b.len() - 1);
        assert(has(a, a[m]) && has(b, b[n]));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == a[m];
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b[n];
        lemma_evlt(a[m], b[n], a[m]); 
        assert(a[m] == b[n]) by { if i < n && j < m { assert(evlt(b[i], b[n]) && evlt(a[j], a[m])); } }
        lemma_evlt(a[m], a[m], a[m]);
        assert forall|x: EV| has(a.drop_last(), x) <==> has(b.drop_last(), x) by {
            if has(a.drop_last(), x) {
                let k = choose|k: int| 0 <= k < m && a.drop_last()[k] == x;
                assert(has(a, a[k]));
                let l = choose|l: int| 0 <= l < b.len() && b[l] == x;
                assert(l < n) by { if l == n { assert(evlt(a[k], a[m])); } } assert(b.drop_last()[l] == x);
            }
            if has(b.drop_last(), x) {
                let k = choose|k: int| 0 <= k < n && b.drop_last()[k] == x;
                assert(has(b, b[k]));
                let l = choose|l: int| 0 <= l < a.len() && a[l] == x;
                assert(l < m) by { if l == m { assert(evlt(b[k], b[n])); } } assert(a.drop_last()[l] == x);
            }
        }
        lemma_unique_es(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a[m])); assert(b =~= b.drop_last().push(b[n]));
    }
}
pub proof fn lemma_tab<CS>(m: Map<u32, Vec<Edge<Lab, CS>>>, n: Map<u32, Vec<Edge<Lab, CS>>>, f: spec_fn(u32) -> Seq<EV>, g: spec_fn(u32) -> Seq<EV>, e: Edge<Lab, CS>)
    requires tab(m, f), forall|v: u32| #[trigger] g(v) == app(f(v), e.key(), v), n.dom() == m.dom().insert(e.head), keys(n[e.head]@) == f(e.head).push(e.key()),
        forall|v: u32| v != e.head && #[trigger] m.dom().contains(v) ==> n[v] == m[v]
    ensures tab(n, g)
{
    assert forall|v: u32| ({ let fv = g(v); #[trigger] n.dom().contains(v) == (fv.len() > 0) && (n.dom().contains(v) ==> keys(n[v]@) == fv) }) by {
        assert(m.dom().contains(v) || !m.dom().contains(v));
        assert(g(v) == app(f(v), e.key(), v));
    }
}
pub open spec fn ends(es: Seq<EV>, k: int) -> Seq<u32> decreases k { if k <= 0 { seq![] } else { ends(es, k - 1) + seq![es[k - 1].0, es[k - 1].1] } }
pub proof fn lemma_ends(es: Seq<EV>, k: int, v: u32)
    requires 0 <= k <= es.len()
    ensures has(ends(es, k), v) <==> end_of(es, k, v)
    decreases k
{
    if k > 0 {
        lemma_ends(es, k - 1, v);
        let (p, r, n) = (ends(es, k - 1), ends(es, k), ends(es, k - 1).len() as int);
        assert(r[n] == es[k - 1].0 && r[n + 1] == es[k - 1].1);
        if has(p, v) { let i = choose|i: int| 0 <= i < p.len() && p[i] == v; assert(r[i] == v); }
        if has(r, v) && !(has(p, v)) { let i = choose|i: int| 0 <= i < r.len() && r[i] == v; assert(i >= n) by { if i < n { assert(p[i] == v); } } assert(es[k - 1].0 == v || es[k - 1].1 == v); }
        if end_of(es, k - 1, v) { let i = choose|i: int| 0 <= i < k - 1 && ((#[trigger] es[i]).0 == v || es[i].1 == v); assert(0 <= i < k && (es[i].0 == v || es[i].1 == v)); }
    }
}
pub proof fn lemma_verts(vs: Seq<u32>, es: Seq<EV>)
    requires ascending::<u32>(keys(vs)), kset(keys(vs)) == kset(ends(es, es.len() as int))
    ensures isverts(vs, es)
{
    let q = ends(es, es.len() as int);
    assert(keys(vs) =~= vs);
    assert forall|v: u32| #[trigger] has(vs, v) <==> end_of(es, es.len() as int, v) by {
        lemma_ends(es, es.len() as int, v);
        assert(kset(vs).contains(v) == vs.contains(v)); assert(kset(q).contains(v) == q.contains(v));
        if has(vs, v) { let i = choose|i: int| 0 <= i < vs.len() && vs[i] == v; assert(vs.contains(v)); }
        if has(q, v) { let i = choose|i: int| 0 <= i < q.len() && q[i] == v; assert(q.contains(v)); }
    }
}
pub proof fn lemma_new(raw: Seq<EV>, acc: Seq<EV>, es: Seq<EV>)
    requires acc == canons(raw), kset(es) == kset(acc), forall|i: int| 0 <= i < raw.len() ==> (#[trigger] raw[i]).2.len() == ldim(), forall|i: int, j: int| 0 <= i < j < es.len() ==> evlt(#[trigger] es[i], #[trigger] es[j])
    ensures esok(es), forall|x: EV| #[trigger] has(es, x) <==> has(acc, x)
{
    assert forall|x: EV| #[trigger] has(es, x) <==> has(acc, x) by {
        assert(kset(es).contains(x) == es.contains(x)); assert(kset(acc).contains(x) == acc.contains(x));
        if has(es, x) { let i = choose|i: int| 0 <= i < es.len() && es[i] == x; assert(es.contains(x)); }
        if has(acc, x) { let i = choose|i: int| 0 <= i < acc.len() && acc[i] == x; assert(acc.contains(x)); }
    }
    assert forall|i: int| 0 <= i < es.len() implies canon(#[trigger] es[i]) == es[i] && es[i].2.len() == ldim() by {
        assert(has(es, es[i]));
        let j = choose|j: int| 0 <= j < acc.len() && acc[j] == es[i];
        lemma_canon(raw[j]);
    }
}
impl<CS> Graph<Lab, CS> {
@fn pgraphs.rs :: Graph<T,CS>::new
    sub T=Lab UnsafeCell=VCell BTreeMap=VMap HashSet=VSet
@spec
    ensures res.wf(), forall|x: EV| #[trigger] has(res.es(), x) <==> has(canons(keys(raw_edges@)), x)
@loop 1
    invariant acc1@ == seq1@.take(it1 as int), ascending::<Edge<Lab, CS>>(keys(seq1@)), kset(keys(seq1@)) == kset(canons(keys(raw_edges@))), start1 == 0, end1 == seq1@.len()
@loop 2
    invariant keys(acc2@) == canons(keys(raw_edges@)).take(it2 as int), start2 == 0, end2 == raw_edges@.len(), seq2@ == raw_edges@
@at loop 2 end
    proof { assert(keys(acc2@) =~= canons(keys(raw_edges@)).take(it2 as int)); }
@at after loop 2
    proof { assert(canons(keys(raw_edges@)).take(it2 as int) =~= canons(keys(raw_edges@))); }
@at after loop 1
    proof {
        assert(acc1@ =~= seq1@);
        broadcast use axiom_lab;
        lemma_new(keys(raw_edges@), canons(keys(raw_edges@)), keys(acc1@));
    }
@endfn
@fn pgraphs.rs :: Graph<T,CS>::vertices
    self &mut self
    sub T=Lab BTreeSet=VSorted
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).keeps(*old(self)), isverts(res@, old(self).es())
@loop 1
    invariant acc1@ == seq1@.take(it1 as int), ascending::<u32>(keys(seq1@)), kset(keys(seq1@)) == kset(ends(self.es(), self.es().len() as int)), start1 == 0, end1 == seq1@.len(), self.wf(), self.keeps(*old(self))
@loop 2
    invariant acc2@ == ends(self.es(), it2 as int), start2 == 0, end2 == self.edges@.len(), seq2@ == self.edges@, self.wf(), self.keeps(*old(self))
@loop 3
    invariant acc2@ == ends(self.es(), it2 - 1) + seq![self.es()[it2 - 1].0, self.es()[it2 - 1].1].take(it3 as int), start3 == 0, end3 == 2, seq3@ == seq![self.es()[it2 - 1].0, self.es()[it2 - 1].1], 0 < it2 <= end2, end2 == self.edges@.len(), self.wf(), self.keeps(*old(self))
@at loop 3 end
    proof { assert(acc2@ =~= ends(self.es(), it2 - 1) + seq![self.es()[it2 - 1].0, self.es()[it2 - 1].1].take(it3 as int)); }
@at init loop 3
    proof { assert(acc2@ =~= ends(self.es(), it2 - 1) + seq![self.es()[it2 - 1].0, self.es()[it2 - 1].1].take(0)); assert(seq3@ =~= seq![self.es()[it2 - 1].0, self.es()[it2 - 1].1]); }
@at after loop 3
    proof { assert(acc2@ =~= ends(self.es(), it2 as int)); }
@at after loop 2
    proof { assert(keys(acc2@) =~= acc2@); }
@at after loop 1
    proof { assert(acc1@ =~= seq1@); assert(keys(acc1@) =~= acc1@); lemma_verts(acc1@, self.es()); }
@endfn
@fn pgraphs.rs :: Graph<T,CS>::incidences
    self &mut self
    sub T=Lab BTreeMap=VMap
    vidx incidences
@spec
    requires old(self).wf(), end_of(old(self).es(), old(self).es().len() as int, *v)
    ensures final(self).wf(), final(self).keeps(*old(self)), keys(res@) == incs(old(self).es(), *v)
@loop 1
    invariant start1 == 0, end1 == seq1@.len(), seq1@ == self.edges@, self.wf(), self.keeps(*old(self)),
        tab(incidences.m(), |v: u32| inc(self.es(), it1 as int, v))
@loop 2
    invariant 0 < it1 <= end1, end1 == seq1@.len(), seq1@ == self.edges@, start2 == 0, end2 == 2, end2 == seq2@.len(), self.wf(), self.keeps(*old(self)),
        seq2@[0].key() == self.es()[it1 - 1], seq2@[1].key() == rev(self.es()[it1 - 1]),
        tab(incidences.m(), |v: u32| part(self.es(), it1 as int, it2 as int, v))
@at loop 2 start
    let ghost m0 = incidences.m();
@at loop 2 end
    proof {
        assert(incidences.m().dom() =~= m0.dom().insert(e.head));
        assert(keys(incidences.m()[e.head]@) =~= part(self.es(), it1 as int, it2 - 1, e.head).push(e.key()));
        let f = |v: u32| part(self.es(), it1 as int, it2 - 1, v);
        let g = |v: u32| part(self.es(), it1 as int, it2 as int, v);
        lemma_tab(m0, incidences.m(), f, g, e);
    }
@at after loop 1
    proof {
        lemma_inc(self.es(), self.es().len() as int, *v);
        assert(incidences.m().dom().contains(*v));
        assert(keys(incidences.m()[*v]@) == incs(self.es(), *v));
    }
@at end
    proof { assert(keys(res@) == incs(self.es(), *v)); }
@endfn
@fn pgraphs.rs :: Graph<T,CS>::directed_edges
    self &mut self
    sub T=Lab
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).keeps(*old(self)),
        exists|vs: Seq<u32>| #[trigger] isverts(vs, old(self).es()) && keys(res@) == directed(old(self).es(), vs, vs.len() as int)
@loop 1
    invariant start1 == 0, end1 == seq1@.len(), isverts(seq1@, self.es()), self.wf(), self.keeps(*old(self)), keys(acc1@) == directed(self.es(), seq1@, it1 as int)
@at loop 1 start
    proof { assert(has(seq1@, seq1@[cur1 as int])); }
@loop 2
    invariant start2 == 0, end2 == seq2@.len(), start1 == 0, end1 == seq1@.len(), cur1 < end1, isverts(seq1@, self.es()), self.wf(), self.keeps(*old(self)),
        keys(seq2@) == incs(self.es(), seq1@[cur1 as int]), keys(acc1@) == directed(self.es(), seq1@, cur1 as int) + keys(seq2@).take(it2 as int)
@at init loop 2
    proof { assert(keys(acc1@) =~= directed(self.es(), seq1@, cur1 as int) + keys(seq2@).take(0)); }
@at loop 2 start
    let ghost a0 = acc1@;
@at loop 2 end
    proof { let (x, y) = (keys(seq2@).take(cur2 as int), keys(seq2@).take(it2 as int)); assert(y =~= x.push(keys(seq2@)[cur2 as int])); assert(keys(acc1@) =~= keys(a0).push(keys(seq2@)[cur2 as int])); assert(keys(acc1@) =~= directed(self.es(), seq1@, cur1 as int) + keys(seq2@).take(it2 as int)); }
@at after loop 2
    proof { assert(keys(seq2@).take(end2 as int) =~= keys(seq2@)); }
@endfn
}
/// the incidences of the first k vertices, one after the other
pub open spec fn directed(es: Seq<EV>, vs: Seq<u32>, k: int) -> Seq<EV> decreases k {
    if k <= 0 { seq![] } else { directed(es, vs, k - 1) + incs(es, vs[k - 1]) }
}
/// the directed edges are the undirected ones and their reverses
pub proof fn lemma_directed(es: Seq<EV>, vs: Seq<u32>, k: int)
    requires esok(es), isverts(vs, es), 0 <= k <= vs.len()
    ensures forall|d: EV| #[trigger] has(directed(es, vs, k), d) <==> has(es, canon(d)) && has(vs.take(k), d.0)
    decreases k
{
    if k > 0 {
        lemma_directed(es, vs, k - 1);
        lemma_inc(es, es.len() as int, vs[k - 1]);
        assert(es.take(es.len() as int) =~= es);
        let (p, q, r) = (directed(es, vs, k - 1), incs(es, vs[k - 1]), directed(es, vs, k));
        let (t, u) = (vs.take(k - 1), vs.take(k));
        assert(u =~= t.push(vs[k - 1]));
        assert forall|d: EV| #[trigger] has(r, d) <==> has(es, canon(d)) && has(u, d.0) by {
            if has(p, d) { let i = choose|i: int| 0 <= i < p.len() && p[i] == d; assert(r[i] == d); }
            if has(q, d) { let i = choose|i: int| 0 <= i < q.len() && q[i] == d; assert(r[p.len() + i] == d); }
            if has(r, d) { let i = choose|i: int| 0 <= i < r.len() && r[i] == d; if i < p.len() { assert(p[i] == d); } else { assert(q[i - p.len()] == d); } assert(has(p, d) || has(q, d)); }
            if has(t, d.0) { let i = choose|i: int| 0 <= i < t.len() && t[i] == d.0; assert(u[i] == d.0); }
            if d.0 == vs[k - 1] { assert(u[k - 1] == d.0); }
            if has(u, d.0) { let i = choose|i: int| 0 <= i < u.len() && u[i] == d.0; if i < k - 1 { assert(t[i] == d.0); assert(has(t, d.0)); } else { assert(d.0 == vs[k - 1]); } }
            if has(es, canon(d)) { let i = choose|i: int| 0 <= i < es.len() && es[i] == canon(d); assert(es[i].2.len() == ldim()); }
        }
    }
}
/// two lists that present the same undirected edges give the same graph, the same vertices, the same incidences and the same directed edges
pub proof fn lemma_presentation(a: Seq<EV>, b: Seq<EV>, r: Seq<EV>, s: Seq<EV>, va: Seq<u32>, vb: Seq<u32>)
    requires esok(a), esok(b), forall|x: EV| #[trigger] has(a, x) <==> has(canons(r), x), forall|x: EV| #[trigger] has(b, x) <==> has(canons(s), x),
        forall|x: EV| #[trigger] has(canons(r), x) <==> has(canons(s), x), isverts(va, a), isverts(vb, b)
    ensures a == b, va == vb, forall|v: u32| incs(a, v) == incs(b, v), directed(a, va, va.len() as int) == directed(b, vb, vb.len() as int)
{
    assert forall|x: EV| has(a, x) <==> has(b, x) by { assert(has(canons(r), x) <==> has(canons(s), x)); }
    lemma_unique_es(a, b);
    assert forall|x: u32| has(va, x) <==> has(vb, x) by { assert(end_of(a, a.len() as int, x) == end_of(b, b.len() as int, x)); }
    lemma_unique_u32(va, vb);
}
/// reversing an edge of the list, repeating it, or moving it changes nothing
pub proof fn lemma_presentation_moves(r: Seq<EV>, i: int, s: Seq<EV>)
    requires 0 <= i < r.len(), s == r.update(i, rev(r[i])) || s == r.push(r[i]) || s.to_multiset() == r.to_multiset()
    ensures forall|x: EV| #[trigger] has(canons(r), x) <==> has(canons(s), x)
{
    lemma_canon(r[i]);
    let (p, q) = (canons(r), canons(s));
    if s == r.update(i, rev(r[i])) { assert(p =~= q); }
    else if s == r.push(r[i]) {
        assert forall|x: EV| #[trigger] has(p, x) <==> has(q, x) by {
            if has(p, x) { let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(q[j] == x); }
            if has(q, x) { let j = choose|j: int| 0 <= j < q.len() && q[j] == x; if j < r.len() { assert(p[j] == x); } else { assert(p[i] == x); } }
        }
    } else {
        assert forall|x: EV| #[trigger] has(p, x) <==> has(q, x) by {
            r.to_multiset_ensures(); s.to_multiset_ensures();
            if has(p, x) { let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(r.contains(r[j])); assert(r.to_multiset().count(r[j]) > 0); assert(s.to_multiset().count(r[j]) > 0); assert(s.contains(r[j])); let l = choose|l: int| 0 <= l < s.len() && s[l] == r[j]; assert(q[l] == x); }
            if has(q, x) { let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(s.contains(s[j])); assert(s.to_multiset().count(s[j]) > 0); assert(r.to_multiset().count(s[j]) > 0); assert(r.contains(s[j])); let l = choose|l: int| 0 <= l < r.len() && r[l] == s[j]; assert(p[l] == x); }
        }
    }
}
