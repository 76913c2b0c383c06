@# traverse_with_shift_adjustments of src/pgraphs.rs
pub type SM = Map<u32, Lab>;
/// the shift of an edge after its ends have been moved
pub open spec fn adjd(s: SM, e: EV) -> EV { (e.0, e.1, subl(addl(s[e.0].v(), e.2), s[e.1].v())) }
pub open spec fn adjds(s: SM, c: Seq<EV>) -> Seq<EV> { Seq::new(c.len(), |i: int| adjd(s, c[i])) }
pub open spec fn zedge(r: EV, w: u32, u: u32) -> bool { r.2 == zerol(ldim()) && (r.0 == w && r.1 == u || r.0 == u && r.1 == w) }
pub open spec fn zstep(r: Seq<EV>, w: u32, u: u32) -> bool { exists|i: int| 0 <= i < r.len() && zedge(#[trigger] r[i], w, u) }
/// a path of n edges without shift
pub open spec fn zpath(r: Seq<EV>, v: u32, n: nat, u: u32) -> bool decreases n { if n == 0 { u == v } else { exists|w: u32| zpath(r, v, (n - 1) as nat, w) && #[trigger] zstep(r, w, u) } }
pub open spec fn zjoined(r: Seq<EV>, v: u32, u: u32) -> bool { exists|n: nat| #[trigger] zpath(r, v, n, u) }
/// the edges c of the component of v, each once, written with the shifts that s gives to its vertices
pub open spec fn trav(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, r: Seq<EV>) -> bool {
    &&& s.dom().contains(v) && s[v].v() == zerol(ldim())
    &&& forall|u: u32| #[trigger] s.dom().contains(u) ==> end_of(es, es.len() as int, u) && joined(es, at0(v), (u, s[u].v())) && zjoined(r, v, u)
    &&& forall|i: int| 0 <= i < es.len() ==> s.dom().contains((#[trigger] es[i]).0) == s.dom().contains(es[i].1)
    &&& forall|e: EV| #[trigger] has(c, e) <==> has(es, e) && s.dom().contains(e.0)
    &&& distinct(c)
    &&& r == adjds(s, c)
}
/// what has been found so far; the vertices in done have been worked off
#[verifier::opaque]
pub open spec fn part_trav(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, r: Seq<EV>) -> bool {
    &&& s.dom().contains(v) && s[v].v() == zerol(ldim())
    &&& forall|u: u32| #[trigger] s.dom().contains(u) ==> end_of(es, es.len() as int, u) && joined(es, at0(v), (u, s[u].v())) && zjoined(r, v, u)
    &&& forall|e: EV| #[trigger] has(c, e) ==> has(es, e) && s.dom().contains(e.0) && s.dom().contains(e.1)
    &&& distinct(c)
    &&& r == adjds(s, c)
}
pub open spec fn worked(s: SM, c: Seq<EV>, q: Seq<EV>, k: int) -> bool { forall|i: int| 0 <= i < k ==> s.dom().contains((#[trigger] q[i]).1) && has(c, canon(q[i])) }
pub open spec fn done_ok(es: Seq<EV>, s: SM, c: Seq<EV>, done: Set<u32>) -> bool { forall|u: u32| #[trigger] done.contains(u) ==> s.dom().contains(u) && worked(s, c, incs(es, u), incs(es, u).len() as int) }
/// every vertex found is worked off, or waits in the queue, or is x
pub open spec fn waits(s: SM, done: Set<u32>, q: Seq<u32>, x: Set<u32>) -> bool {
    &&& forall|u: u32| #[trigger] s.dom().contains(u) ==> done.contains(u) || has(q, u) || x.contains(u)
    &&& forall|u: u32| #[trigger] has(q, u) ==> s.dom().contains(u)
}
/// ends of edges not found yet
pub open spec fn missing(es: Seq<EV>, s: SM, k: int) -> int decreases k {
    if k <= 0 { 0 } else { missing(es, s, k - 1) + (if s.dom().contains(es[k - 1].0) { 0int } else { 1 }) + (if s.dom().contains(es[k - 1].1) { 0int } else { 1 }) }
}
pub proof fn lemma_missing_pos(es: Seq<EV>, s: SM, k: int)
    ensures missing(es, s, k) >= 0
    decreases k
{ if k > 0 { lemma_missing_pos(es, s, k - 1); } }
pub proof fn lemma_missing(es: Seq<EV>, s: SM, u: u32, l: Lab, k: int)
    requires 0 <= k <= es.len(), !s.dom().contains(u)
    ensures missing(es, s, k) >= 0, missing(es, s.insert(u, l), k) <= missing(es, s, k), missing(es, s.insert(u, l), k) >= 0, end_of(es, k, u) ==> missing(es, s.insert(u, l), k) < missing(es, s, k)
    decreases k
{
    if k > 0 {
        lemma_missing(es, s, u, l, k - 1);
        if end_of(es, k, u) && !end_of(es, k - 1, u) { let i = choose|i: int| 0 <= i < k && ((#[trigger] es[i]).0 == u || es[i].1 == u); assert(i == k - 1) by { if i < k - 1 { assert(0 <= i < k - 1 && (es[i].0 == u || es[i].1 == u)); } } }
    }
}
pub proof fn lemma_zpath_more(r: Seq<EV>, x: Seq<EV>, v: u32, n: nat, u: u32)
    requires zpath(r, v, n, u), r.len() <= x.len(), forall|i: int| 0 <= i < r.len() ==> x[i] == r[i]
    ensures zpath(x, v, n, u)
    decreases n
{
    if n > 0 {
        let w = choose|w: u32| zpath(r, v, (n - 1) as nat, w) && #[trigger] zstep(r, w, u);
        lemma_zpath_more(r, x, v, (n - 1) as nat, w);
        let i = choose|i: int| 0 <= i < r.len() && zedge(#[trigger] r[i], w, u);
        assert(zedge(x[i], w, u)); assert(zstep(x, w, u));
    }
}
pub proof fn lemma_zjoined_more(r: Seq<EV>, x: Seq<EV>, v: u32, u: u32)
    requires zjoined(r, v, u), r.len() <= x.len(), forall|i: int| 0 <= i < r.len() ==> x[i] == r[i]
    ensures zjoined(x, v, u)
{ let n = choose|n: nat| #[trigger] zpath(r, v, n, u); lemma_zpath_more(r, x, v, n, u); }
pub proof fn lemma_zjoined_step(r: Seq<EV>, v: u32, w: u32, u: u32)
    requires zjoined(r, v, w), zstep(r, w, u)
    ensures zjoined(r, v, u)
{ let n = choose|n: nat| #[trigger] zpath(r, v, n, w); assert(((n + 1) - 1) as nat == n); assert(zpath(r, v, (n + 1) as nat, u)); }
pub proof fn lemma_start(es: Seq<EV>, v: u32, s: SM)
    requires s.dom() =~= Set::<u32>::empty().insert(v), s[v].v() == zerol(ldim()), end_of(es, es.len() as int, v)
    ensures part_trav(es, v, s, seq![], seq![])
{
    reveal(part_trav);
    assert(path(es, at0(v), 0, at0(v))); assert(zpath(seq![], v, 0, v));
    assert(adjds(s, seq![]) =~= Seq::<EV>::empty());
}
/// e leaves v: its end, if new, gets its shift, and its canonical form, if new, is written down
pub proof fn lemma_trav_step(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, r: Seq<EV>, e: EV, s2: SM, c2: Seq<EV>, r2: Seq<EV>)
    requires part_trav(es, v, s, c, r), esok(es), has(es, canon(e)), s.dom().contains(e.0), e.2.len() == ldim(),
        if s.dom().contains(e.1) { s2 == s } else { s2.dom() == s.dom().insert(e.1) && (forall|u: u32| #[trigger] s.dom().contains(u) ==> s2[u] == s[u]) && s2[e.1].v() == addl(s[e.0].v(), e.2) },
        if has(c, canon(e)) { c2 == c && r2 == r } else { c2 == c.push(canon(e)) && r2 == r.push(adjd(s2, canon(e))) },
    ensures part_trav(es, v, s2, c2, r2), has(c2, canon(e)), s2.dom().contains(e.1), forall|x: EV| has(c, x) ==> has(c2, x)
{
    reveal(part_trav);
    broadcast use axiom_lab;
    let f = canon(e);
    lemma_canon(e);
    let new = !s.dom().contains(e.1);
    assert(new ==> !(has(c, f)));
    assert forall|x: EV| has(c, x) implies has(c2, x) by { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; assert(c2[i] == x); }
    if !(has(c, f)) { assert(c2[c.len() as int] == f); }
    assert forall|x: EV| #[trigger] has(c2, x) implies has(es, x) && s2.dom().contains(x.0) && s2.dom().contains(x.1) by {
        if x != f { let i = choose|i: int| 0 <= i < c2.len() && c2[i] == x; assert(c[i] == x); assert(has(c, x)); }
    }
    assert(distinct(c2)) by {
        assert forall|i: int, j: int| 0 <= i < j < c2.len() implies #[trigger] c2[i] != #[trigger] c2[j] by { if j == c.len() { assert(c[i] == c2[i]); assert(has(c, c[i])); } }
    }
    assert(r2 =~= adjds(s2, c2)) by {
        assert forall|i: int| 0 <= i < c.len() implies r[i] == adjd(s2, c2[i]) by { assert(has(c, c[i])); }
    }
    assert forall|u: u32| #[trigger] s2.dom().contains(u) implies end_of(es, es.len() as int, u) && joined(es, at0(v), (u, s2[u].v())) && zjoined(r2, v, u) by {
        if s.dom().contains(u) { lemma_zjoined_more(r, r2, v, u); }
        else {
            let (x, y) = ((e.0, s[e.0].v()), (e.1, addl(s[e.0].v(), e.2)));
            assert(y.1 =~= addl(e.2, x.1));
            assert(adj(es, x, y));
            lemma_joined_step(es, at0(v), x, y);
            lemma_adj_end(es, x, y);
            lemma_zjoined_more(r, r2, v, e.0);
            let z = adjd(s2, f);
            assert(e.0 != e.1);
            assert(z.2 =~= zerol(ldim()));
            assert(zedge(r2[r.len() as int], e.0, e.1));
            assert(zstep(r2, e.0, e.1));
            lemma_zjoined_step(r2, v, e.0, e.1);
        }
    }
}
pub proof fn lemma_trav_end(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, r: Seq<EV>, done: Set<u32>)
    requires part_trav(es, v, s, c, r), esok(es), done_ok(es, s, c, done), forall|u: u32| #[trigger] s.dom().contains(u) ==> done.contains(u)
    ensures trav(es, v, s, c, r)
{
    reveal(part_trav);
    assert(es.take(es.len() as int) =~= es);
    assert forall|i: int| 0 <= i < es.len() implies s.dom().contains((#[trigger] es[i]).0) == s.dom().contains(es[i].1) && (s.dom().contains(es[i].0) ==> has(c, es[i])) by {
        let e = es[i];
        assert(has(es, e)); lemma_canon(e);
        lemma_inc(es, es.len() as int, e.0); lemma_inc(es, es.len() as int, e.1);
        if s.dom().contains(e.0) {
            let q = incs(es, e.0); assert(has(q, e)); let j = choose|j: int| 0 <= j < q.len() && q[j] == e;
            assert(done.contains(e.0)); assert(s.dom().contains(q[j].1) && has(c, canon(q[j])));
        }
        if s.dom().contains(e.1) {
            let q = incs(es, e.1); assert(has(q, rev(e))); let j = choose|j: int| 0 <= j < q.len() && q[j] == rev(e);
            assert(done.contains(e.1)); assert(s.dom().contains(q[j].1));
        }
    }
    assert forall|e: EV| #[trigger] has(c, e) <==> has(es, e) && s.dom().contains(e.0) by {
        if has(es, e) && s.dom().contains(e.0) { let i = choose|i: int| 0 <= i < es.len() && es[i] == e; assert(has(c, es[i])); }
    }
}
pub proof fn lemma_worked_more(s: SM, c: Seq<EV>, s2: SM, c2: Seq<EV>, q: Seq<EV>, k: int)
    requires worked(s, c, q, k), forall|u: u32| #[trigger] s.dom().contains(u) ==> s2.dom().contains(u), forall|x: EV| #[trigger] has(c, x) ==> has(c2, x)
    ensures worked(s2, c2, q, k)
{ }
pub proof fn lemma_done_more(es: Seq<EV>, s: SM, c: Seq<EV>, s2: SM, c2: Seq<EV>, done: Set<u32>)
    requires done_ok(es, s, c, done), forall|u: u32| #[trigger] s.dom().contains(u) ==> s2.dom().contains(u), forall|x: EV| #[trigger] has(c, x) ==> has(c2, x)
    ensures done_ok(es, s2, c2, done)
{
    assert forall|u: u32| #[trigger] done.contains(u) implies s2.dom().contains(u) && worked(s2, c2, incs(es, u), incs(es, u).len() as int) by {
        lemma_worked_more(s, c, s2, c2, incs(es, u), incs(es, u).len() as int);
    }
}
pub open spec fn left(es: Seq<EV>, s: SM, q: Seq<u32>) -> int { missing(es, s, es.len() as int) + q.len() }
pub proof fn lemma_waits(s: SM, s2: SM, done: Set<u32>, q: Seq<u32>, x: Set<u32>, u: u32)
    requires waits(s, done, q, x), s2.dom() == s.dom().insert(u)
    ensures waits(s2, done, q.push(u), x)
{
    let r = q.push(u);
    assert(r[q.len() as int] == u);
    assert forall|w: u32| #[trigger] s2.dom().contains(w) implies done.contains(w) || has(r, w) || x.contains(w) by {
        if has(q, w) { let i = choose|i: int| 0 <= i < q.len() && q[i] == w; assert(r[i] == w); }
        if w != u { assert(s.dom().contains(w)); }
    }
    assert forall|w: u32| #[trigger] has(r, w) implies s2.dom().contains(w) by { if w != u { let i = choose|i: int| 0 <= i < r.len() && r[i] == w; assert(q[i] == w); assert(has(q, w)); } }
}
pub proof fn lemma_pop(s: SM, done: Set<u32>, q: Seq<u32>)
    requires waits(s, done, q, Set::empty()), q.len() > 0
    ensures waits(s, done, q.skip(1), Set::empty().insert(q[0])), s.dom().contains(q[0])
{
    let r = q.skip(1);
    assert(has(q, q[0]));
    assert forall|w: u32| #[trigger] s.dom().contains(w) implies done.contains(w) || has(r, w) || Set::empty().insert(q[0]).contains(w) by {
        if has(q, w) && w != q[0] { let i = choose|i: int| 0 <= i < q.len() && q[i] == w; assert(r[i - 1] == w); }
    }
    assert forall|w: u32| #[trigger] has(r, w) implies s.dom().contains(w) by { let i = choose|i: int| 0 <= i < r.len() && r[i] == w; assert(q[i + 1] == w); assert(has(q, w)); }
}
pub proof fn lemma_kset<K>(s: Seq<K>, x: K)
    ensures kset(s).contains(x) == has(s, x), kset(s.push(x)) == kset(s).insert(x)
{
    assert(kset(s).contains(x) == s.contains(x));
    if has(s, x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.contains(x)); }
    assert(kset(s.push(x)) =~= kset(s).insert(x)) by {
        let t = s.push(x);
        assert(t[s.len() as int] == x);
        assert forall|y: K| kset(t).contains(y) == kset(s).insert(x).contains(y) by {
            assert(kset(t).contains(y) == t.contains(y)); assert(kset(s).contains(y) == s.contains(y));
            if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(t[i] == y); }
            if t.contains(y) && y != x { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; assert(s[i] == y); }
        }
    }
}
@fn pgraphs.rs :: traverse_with_shift_adjustments
    sub T=Lab BTreeMap=VMap HashSet=VSet VecDeque=VDeque
    generics <CS>
    vidx shifts
@spec
    requires end_of(g.es(), g.es().len() as int, *v0)
    ensures exists|s: SM, c: Seq<EV>| #[trigger] trav(g.es(), *v0, s, c, keys(res@))
@at start
    let ghost es = g.es();
    let ghost mut c: Seq<EV> = seq![];
    let ghost mut done: Set<u32> = Set::empty();
    let ghost mut pq: Seq<u32> = seq![];
    proof { broadcast use axiom_lab, axiom_graph; }
@at before loop 1
    proof {
        reveal_with_fuel(map_from, 3);
        assert(esok(es)) by { broadcast use axiom_graph; }
        assert(shifts.m().dom() =~= Set::<u32>::empty().insert(*v0));
        lemma_start(es, *v0, shifts.m());
        assert(keys(result@) =~= seq![]);
        assert(kset(c) =~= Set::<EV>::empty());
        assert(queue.q()[0] == *v0);
        assert(waits(shifts.m(), done, queue.q(), Set::empty())) by { assert(has(queue.q(), *v0)); }
        lemma_missing_pos(es, shifts.m(), es.len() as int);
        pq = queue.q();
    }
@loop 1
    invariant pq == queue.q(), es == g.es(), esok(es), part_trav(es, *v0, shifts.m(), c, keys(result@)), seen.s() == kset(c), done_ok(es, shifts.m(), c, done), waits(shifts.m(), done, queue.q(), Set::empty()), missing(es, shifts.m(), es.len() as int) >= 0
    ensures queue.q().len() == 0
    decreases left(es, shifts.m(), queue.q())
@at loop 1 start
    let ghost left0 = left(es, shifts.m(), pq);
    proof { if pq.len() > 0 { lemma_pop(shifts.m(), done, pq); assert(end_of(es, es.len() as int, pq[0])) by { reveal(part_trav); assert(shifts.m().dom().contains(pq[0])); } } }
@at init loop 2
    proof { lemma_inc(es, es.len() as int, v); assert(es.take(es.len() as int) =~= es); }
@loop 2
    invariant start2 == 0, end2 == seq2@.len(), es == g.es(), esok(es), keys(seq2@) == incs(es, v), shifts.m().dom().contains(v),
        forall|d: EV| #[trigger] has(incs(es, v), d) <==> d.0 == v && has(es, canon(d)) && canon(d).2.len() == ldim(),
        part_trav(es, *v0, shifts.m(), c, keys(result@)), seen.s() == kset(c), done_ok(es, shifts.m(), c, done), waits(shifts.m(), done, queue.q(), Set::empty().insert(v)),
        worked(shifts.m(), c, keys(seq2@), it2 as int), missing(es, shifts.m(), es.len() as int) >= 0, left(es, shifts.m(), queue.q()) < left0
@at loop 2 start
    let ghost (s0, c0, r0, q0) = (shifts.m(), c, keys(result@), queue.q());
    let ghost d = keys(seq2@)[cur2 as int];
    proof { assert(has(incs(es, v), d)); lemma_canon(d); lemma_kset(c0, canon(d)); broadcast use axiom_lab; }
@at loop 2 end
    proof {
        let s2 = shifts.m();
        if !(has(c0, canon(d))) { c = c0.push(canon(d)); assert(keys(result@).last().2 =~= adjd(s2, canon(d)).2); assert(keys(result@) =~= r0.push(adjd(s2, canon(d)))); }
        if !s0.dom().contains(d.1) {
            assert(s2.dom() =~= s0.dom().insert(d.1));
            assert(s2[d.1].v() =~= addl(d.2, s0[v].v()));
            assert(s2[d.1].v() =~= addl(s0[v].v(), d.2));
            lemma_waits(s0, s2, done, q0, Set::empty().insert(v), d.1);
            lemma_adj_end(es, (d.0, d.2), (d.1, addl(d.2, d.2)));
            lemma_missing(es, s0, d.1, s2[d.1], es.len() as int);
            assert(s2 =~= s0.insert(d.1, s2[d.1]));
        }
        lemma_trav_step(es, *v0, s0, c0, r0, d, s2, c, keys(result@));
        lemma_done_more(es, s0, c0, s2, c, done);
        lemma_worked_more(s0, c0, s2, c, keys(seq2@), cur2 as int);
    }
@at after loop 2
    proof {
        assert(keys(seq2@).len() == seq2@.len());
        let dn = done.insert(v);
        assert(waits(shifts.m(), dn, queue.q(), Set::empty()));
        assert(done_ok(es, shifts.m(), c, dn));
        done = dn; pq = queue.q();
    }
@at end
    proof { lemma_trav_end(es, *v0, shifts.m(), c, keys(res@), done); }
@endfn
