@# CoordinationSequence of src/pgraphs.rs
#[verifier::reject_recursive_types(CS)]
@struct pgraphs.rs CoordinationSequence HashSet=VSet T=Lab
impl<'a, CS> CoordinationSequence<'a, CS> {
    pub open spec fn e(self) -> Seq<EV> { self.graph.es() }
    pub open spec fn wf(self) -> bool { forall|x: NV| #[trigger] self.this_shell.s().contains(x) ==> x.1.len() == ldim() && end_of(self.e(), self.e().len() as int, x.0) }
    /// the two latest shells around v
    pub open spec fn shells(self, v: NV, k: nat) -> bool {
        &&& forall|y: NV| #[trigger] self.this_shell.s().contains(y) <==> dist(self.e(), v, k, y)
        &&& forall|y: NV| #[trigger] self.last_shell.s().contains(y) <==> k > 0 && dist(self.e(), v, (k - 1) as nat, y)
    }
    pub open spec fn fresh(self, y: NV) -> bool { !self.last_shell.s().contains(y) && !self.this_shell.s().contains(y) }
    pub open spec fn inner(self, ks: Seq<NV>) -> bool { forall|y: NV| has(ks, y) <==> #[trigger] self.this_shell.s().contains(y) }
    pub open spec fn next_of(self, ks: Seq<NV>, k: int, y: NV) -> bool { self.fresh(y) && exists|j: int| 0 <= j < k && adj(self.e(), #[trigger] ks[j], y) }
    pub proof fn lemma_next_of(self, ks: Seq<NV>, k: int, y: NV)
        requires 0 < k
        ensures self.next_of(ks, k, y) <==> self.next_of(ks, k - 1, y) || adj(self.e(), ks[k - 1], y) && self.fresh(y)
    {
        if self.next_of(ks, k, y) { let j = choose|j: int| 0 <= j < k && adj(self.e(), #[trigger] ks[j], y); if j < k - 1 { assert(0 <= j < k - 1 && adj(self.e(), ks[j], y)); } }
        if self.next_of(ks, k - 1, y) { let j = choose|j: int| 0 <= j < k - 1 && adj(self.e(), #[trigger] ks[j], y); assert(0 <= j < k && adj(self.e(), ks[j], y)); }
    }
    pub proof fn lemma_step(self, n: Self, ks: Seq<NV>)
        requires self.wf(), self.inner(ks), n.graph == self.graph, n.last_shell.s() == self.this_shell.s(), forall|y: NV| #[trigger] n.this_shell.s().contains(y) <==> self.next_of(ks, ks.len() as int, y)
        ensures n.wf(), forall|v: NV, k: nat| v.1.len() == ldim() && #[trigger] self.shells(v, k) ==> n.shells(v, k + 1)
    {
        assert forall|y: NV| #[trigger] n.this_shell.s().contains(y) implies y.1.len() == ldim() && end_of(n.e(), n.e().len() as int, y.0) by {
            let j = choose|j: int| 0 <= j < ks.len() && adj(self.e(), #[trigger] ks[j], y);
            assert(has(ks, ks[j])); assert(self.this_shell.s().contains(ks[j]));
            lemma_adj_sym(self.e(), ks[j], y);
            lemma_adj_end(self.e(), ks[j], y);
        }
        assert forall|v: NV, k: nat| v.1.len() == ldim() && #[trigger] self.shells(v, k) implies n.shells(v, k + 1) by {
            assert forall|y: NV| #[trigger] n.this_shell.s().contains(y) <==> dist(n.e(), v, k + 1, y) by {
                lemma_shell(self.e(), v, k, y);
                assert(self.this_shell.s().contains(y) == dist(self.e(), v, k, y)); assert(self.last_shell.s().contains(y) == (k > 0 && dist(self.e(), v, (k - 1) as nat, y)));
                if self.next_of(ks, ks.len() as int, y) {
                    let j = choose|j: int| 0 <= j < ks.len() && adj(self.e(), #[trigger] ks[j], y);
                    assert(has(ks, ks[j])); assert(self.this_shell.s().contains(ks[j])); assert(dist(self.e(), v, k, ks[j]));
                }
                if dist(n.e(), v, k + 1, y) {
                    let x = choose|x: NV| #[trigger] dist(self.e(), v, k, x) && adj(self.e(), x, y);
                    assert(self.this_shell.s().contains(x)); assert(has(ks, x));
                    let j = choose|j: int| 0 <= j < ks.len() && ks[j] == x; assert(adj(self.e(), ks[j], y));
                }
            }
            assert forall|y: NV| #[trigger] n.last_shell.s().contains(y) <==> k + 1 > 0 && dist(n.e(), v, (k + 1 - 1) as nat, y) by { assert(self.this_shell.s().contains(y) == dist(self.e(), v, k, y)); }
        }
    }
@fn pgraphs.rs :: CoordinationSequence<'a,T,CS>::new
    sub T=Lab HashSet=VSet
    lifetimes
@spec
    requires end_of(graph.es(), graph.es().len() as int, *v0)
    ensures res.wf(), res.graph == graph, res.shells((*v0, zerol(ldim())), 0)
@at end
    proof {
        broadcast use axiom_lab;
        let z = (*v0, zerol(ldim()));
        let q = choose|q: Seq<NV>| q.len() == 1 && q[0] == z && res.this_shell.s() == #[trigger] kset(q);
        assert forall|y: NV| #[trigger] res.this_shell.s().contains(y) <==> y == z by { assert(kset(q).contains(y) == q.contains(y)); assert(q.contains(q[0])); }
        assert forall|y: NV| #[trigger] res.this_shell.s().contains(y) <==> dist(graph.es(), z, 0, y) by { assert(path(graph.es(), z, 0, y) == (z == y)); }
    }
@endfn
@fn pgraphs.rs :: Iterator for CoordinationSequence<'a,T,CS>::next
    sub T=Lab HashSet=VSet
    vseq self.this_shell
    rettype Option<usize>
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).graph == old(self).graph, final(self).this_shell.s().finite(), res == Some(final(self).this_shell.s().len() as usize),
        forall|v: NV, k: nat| v.1.len() == ldim() && #[trigger] old(self).shells(v, k) ==> final(self).shells(v, k + 1)
@at start
    proof { broadcast use axiom_lab, axiom_graph, axiom_set; }
@loop 1
    invariant start1 == 0, end1 == seq1@.len(), seq1@ == self.this_shell.vseq_spec(), *self == *old(self), self.wf(), self.inner(keys(seq1@)),
        forall|y: NV| #[trigger] next_shell.s().contains(y) <==> self.next_of(keys(seq1@), it1 as int, y)
@at loop 1 start
    let ghost n0 = next_shell.s();
    let ghost x = seq1@[cur1 as int].key();
    proof { assert(keys(seq1@)[cur1 as int] == x); assert(self.this_shell.s().contains(x)); }
@loop 2
    invariant start2 == 0, end2 == seq2@.len(), *self == *old(self), self.wf(), x == ((*vertex), shift.v()),
        keys(seq2@) == incs(self.e(), x.0),
        forall|y: NV| #[trigger] next_shell.s().contains(y) <==> n0.contains(y) || hit(keys(seq2@), it2 as int, x, y) && self.fresh(y)
@at loop 2 start
    let ghost n1 = next_shell.s();
@at loop 2 end
    proof {
        let q = keys(seq2@);
        assert(q[cur2 as int] == e.key());
        assert(w.key() == (q[cur2 as int].1, addl(q[cur2 as int].2, x.1)));
        assert forall|y: NV| #[trigger] next_shell.s().contains(y) <==> n0.contains(y) || hit(q, it2 as int, x, y) && self.fresh(y) by {
            lemma_hit(q, it2 as int, x, y);
            assert(n1.contains(y) == (n0.contains(y) || hit(q, cur2 as int, x, y) && self.fresh(y)));
        }
    }
@at after loop 2
    proof {
        broadcast use axiom_graph;
        assert forall|y: NV| #[trigger] next_shell.s().contains(y) <==> self.next_of(keys(seq1@), it1 as int, y) by {
            lemma_hits(self.e(), x, y);
            self.lemma_next_of(keys(seq1@), it1 as int, y);
            assert(n0.contains(y) == self.next_of(keys(seq1@), cur1 as int, y));
        }
    }
@at end
    proof { old(self).lemma_step(*self, keys(seq1@)); }
@endfn
}
pub open spec fn hit(q: Seq<EV>, k: int, x: NV, y: NV) -> bool { exists|i: int| 0 <= i < k && y == ((#[trigger] q[i]).1, addl(q[i].2, x.1)) }
pub proof fn lemma_hit(q: Seq<EV>, k: int, x: NV, y: NV)
    requires 0 < k <= q.len()
    ensures hit(q, k, x, y) <==> hit(q, k - 1, x, y) || y == (q[k - 1].1, addl(q[k - 1].2, x.1))
{
    if hit(q, k, x, y) { let i = choose|i: int| 0 <= i < k && y == ((#[trigger] q[i]).1, addl(q[i].2, x.1)); if i < k - 1 { assert(0 <= i < k - 1 && y == (q[i].1, addl(q[i].2, x.1))); } }
    if hit(q, k - 1, x, y) { let i = choose|i: int| 0 <= i < k - 1 && y == ((#[trigger] q[i]).1, addl(q[i].2, x.1)); assert(0 <= i < k && y == (q[i].1, addl(q[i].2, x.1))); }
}
/// the incidences of a vertex lead to its neighbours
pub proof fn lemma_hits(es: Seq<EV>, x: NV, y: NV)
    requires esok(es)
    ensures hit(incs(es, x.0), incs(es, x.0).len() as int, x, y) <==> adj(es, x, y)
{
    let q = incs(es, x.0);
    lemma_inc(es, es.len() as int, x.0);
    assert(es.take(es.len() as int) =~= es);
    if hit(q, q.len() as int, x, y) {
        let i = choose|i: int| 0 <= i < q.len() && y == ((#[trigger] q[i]).1, addl(q[i].2, x.1));
        assert(has(q, q[i])); assert(has(es, canon(q[i])));
    }
    if adj(es, x, y) {
        let d = choose|d: EV| #[trigger] has(es, canon(d)) && d.0 == x.0 && d.1 == y.0 && d.2.len() == ldim() && y.1 == addl(d.2, x.1);
        assert(has(q, d)); let i = choose|i: int| 0 <= i < q.len() && q[i] == d;
        assert(y == (q[i].1, addl(q[i].2, x.1)));
    }
}
impl<CS> Graph<Lab, CS> {
@fn pgraphs.rs :: Graph::coordination_sequence
    sub T=Lab
    lifetimes
    rettype CoordinationSequence<'_, CS>
@spec
    requires end_of(self.es(), self.es().len() as int, *v)
    ensures res.wf(), res.graph == self, res.shells((*v, zerol(ldim())), 0)
@endfn
}
