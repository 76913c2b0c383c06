@# Contracts of src/partitions.rs. The cell is read as exclusive access: its methods take self by unique reference.
use std::collections::HashMap;
use vstd::std_specs::hash::*;
@struct partitions.rs PartitionImpl
@struct partitions.rs Partition UnsafeCell=VCell
/// UnsafeCell, with get() read as exclusive access
pub struct VCell<T> { pub c: T }
impl<T> VCell<T> {
    #[verifier::external_body] pub fn new(x: T) -> (r: VCell<T>) ensures r.c == x { unimplemented!() }
    #[verifier::external_body] pub fn get(&mut self) -> (r: &mut T) ensures *r == old(self).c, final(self).c == *final(r) { unimplemented!() }
}
/// where the parent links lead from i
pub open spec fn root(p: Seq<usize>, r: Seq<usize>, i: int) -> int
    decreases usize::MAX - r[i]
{
    if 0 <= i < p.len() && p[i] != i && r[i] < r[p[i] as int] { root(p, r, p[i] as int) } else { i }
}
/// the links form a forest, ranks grow towards the roots
pub open spec fn forest(p: Seq<usize>, r: Seq<usize>) -> bool {
    &&& p.len() == r.len()
    &&& forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < p.len() && (p[i] != i ==> r[i] < r[p[i] as int])
}
pub proof fn lemma_root(p: Seq<usize>, r: Seq<usize>, i: int)
    requires forest(p, r), 0 <= i < p.len()
    ensures 0 <= root(p, r, i) < p.len(), p[root(p, r, i)] == root(p, r, i), root(p, r, root(p, r, i)) == root(p, r, i),
        root(p, r, i) == i || r[i] < r[root(p, r, i)]
    decreases usize::MAX - r[i]
{
    if p[i] != i { lemma_root(p, r, p[i] as int); }
}
/// pointing t at its root changes no root
pub proof fn lemma_compress(p: Seq<usize>, r: Seq<usize>, t: int, j: int)
    requires forest(p, r), 0 <= t < p.len(), 0 <= j < p.len(), root(p, r, t) != t
    ensures forest(p.update(t, root(p, r, t) as usize), r), root(p.update(t, root(p, r, t) as usize), r, j) == root(p, r, j)
    decreases usize::MAX - r[j]
{
    let q = p.update(t, root(p, r, t) as usize);
    lemma_root(p, r, t);
    lemma_root(p, r, j);
    assert(forest(q, r)) by {
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] < q.len() && (q[i] != i ==> r[i] < r[q[i] as int]) by {
            assert(p[i] < p.len());
        }
    }
    if p[j] != j {
        if j == t {
            assert(q[root(p, r, t)] == root(p, r, t));
            assert(root(q, r, root(p, r, t)) == root(p, r, t));
        } else { lemma_compress(p, r, t, p[j] as int); assert(q[j] == p[j]); }
    }
}
/// hanging the root y below the root x joins their trees and changes no other
pub proof fn lemma_link(p: Seq<usize>, r: Seq<usize>, s: Seq<usize>, x: int, y: int, j: int)
    requires forest(p, r), 0 <= x < p.len(), 0 <= y < p.len(), 0 <= j < p.len(), p[x] == x, p[y] == y, x != y,
        s == r || s == r.update(x, s[x]) && s[x] >= r[x], r[y] < s[x], s.len() == r.len()
    ensures forest(p.update(y, x as usize), s),
        root(p.update(y, x as usize), s, j) == if root(p, r, j) == y { x } else { root(p, r, j) }
    decreases usize::MAX - r[j]
{
    let q = p.update(y, x as usize);
    lemma_root(p, r, j);
    assert(forest(q, s)) by {
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] < q.len() && (q[i] != i ==> s[i] < s[q[i] as int]) by {
            assert(p[i] < p.len());
        }
    }
    if p[j] != j {
        lemma_link(p, r, s, x, y, p[j] as int);
        assert(q[j] == p[j]);
    } else if j == y {
        assert(q[x] == x);
        assert(root(q, s, x) == x);
        assert(q[j] == x);
    } else { assert(q[j] == j); }
}
pub proof fn lemma_push(p: Seq<usize>, r: Seq<usize>, j: int)
    requires forest(p, r), 0 <= j < p.len(), p.len() <= usize::MAX
    ensures forest(p.push(p.len() as usize), r.push(0)), root(p.push(p.len() as usize), r.push(0), j) == root(p, r, j)
    decreases usize::MAX - r[j]
{
    let q = p.push(p.len() as usize);
    assert(forest(q, r.push(0))) by {
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] < q.len() && (q[i] != i ==> r.push(0)[i] < r.push(0)[q[i] as int]) by {
            if i < p.len() { assert(p[i] < p.len()); }
        }
    }
    if p[j] != j { lemma_push(p, r, p[j] as int); assert(q[j] == p[j]); } else { assert(q[j] == j); }
}
/// the ranks of the roots are paid for by the number of elements
pub open spec fn weight(p: Seq<usize>, r: Seq<usize>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { weight(p, r, k - 1) + if p[k - 1] == k - 1 { r[k - 1] + 1 } else { 0 } }
}
pub proof fn lemma_weight(p: Seq<usize>, r: Seq<usize>, k: int, x: int)
    requires 0 <= x < k <= p.len(), p.len() == r.len(), p[x] == x
    ensures r[x] + 1 <= weight(p, r, k), weight(p, r, k - 1) >= 0
    decreases k
{
    lemma_weight_pos(p, r, k - 1);
    if x < k - 1 { lemma_weight(p, r, k - 1, x); }
}
pub proof fn lemma_weight_pos(p: Seq<usize>, r: Seq<usize>, k: int)
    requires 0 <= k <= p.len(), p.len() == r.len()
    ensures weight(p, r, k) >= 0
    decreases k
{ if k > 0 { lemma_weight_pos(p, r, k - 1); } }
/// what pointing y at x and giving x the rank v does to the weight
pub proof fn lemma_weight_link(p: Seq<usize>, r: Seq<usize>, q: Seq<usize>, s: Seq<usize>, x: int, y: int, k: int)
    requires 0 <= k <= p.len(), p.len() == r.len(), q.len() == p.len(), s.len() == r.len(), 0 <= x < p.len(), 0 <= y < p.len(), x != y,
        q == p.update(y, x as usize), s == r || s == r.update(x, s[x]), p[x] == x, p.len() <= usize::MAX
    ensures weight(q, s, k) == weight(p, r, k) - (if y < k && p[y] == y { r[y] + 1 } else { 0 }) + (if x < k { s[x] - r[x] } else { 0 })
    decreases k
{ if k > 0 { lemma_weight_link(p, r, q, s, x, y, k - 1); } }
pub proof fn lemma_weight_push(p: Seq<usize>, r: Seq<usize>, k: int)
    requires 0 <= k <= p.len(), p.len() == r.len(), p.len() <= usize::MAX
    ensures weight(p.push(p.len() as usize), r.push(0), k) == weight(p, r, k)
    decreases k
{ if k > 0 { lemma_weight_push(p, r, k - 1); } }
impl<T: Clone + Eq + std::hash::Hash> PartitionImpl<T> {
    pub open spec fn wf(self) -> bool {
        &&& obeys_key_model::<T>()
        &&& forest(self.parent@, self.rank@)
        &&& self.elements@.len() == self.parent@.len() <= usize::MAX
        &&& weight(self.parent@, self.rank@, self.parent@.len() as int) <= self.parent@.len()
        &&& forall|x: T| #[trigger] self.index@.contains_key(x) ==> self.index@[x] < self.elements@.len() && self.elements@[self.index@[x] as int] == x
        &&& forall|i: int| 0 <= i < self.elements@.len() ==> self.index@.contains_key(#[trigger] self.elements@[i]) && self.index@[self.elements@[i]] == i
    }
    pub open spec fn root_of(self, i: int) -> int { root(self.parent@, self.rank@, i) }
    /// the representative of x: elements never met stand for themselves
    pub open spec fn rep(self, x: T) -> T {
        if self.index@.contains_key(x) { self.elements@[self.root_of(self.index@[x] as int)] } else { x }
    }
    pub open spec fn extends(self, o: Self) -> bool {
        forall|x: T| #[trigger] o.index@.contains_key(x) ==> self.index@.contains_key(x) && self.index@[x] == o.index@[x]
    }
    pub open spec fn same_reps(self, o: Self) -> bool { forall|y: T| #[trigger] self.rep(y) == o.rep(y) }
}
/// the representative is the representative of itself: it lies in the class
pub proof fn lemma_rep_idem<T: Clone + Eq + std::hash::Hash>(s: PartitionImpl<T>, x: T)
    requires s.wf()
    ensures s.rep(s.rep(x)) == s.rep(x), s.index@.contains_key(x) ==> s.index@.contains_key(s.rep(x))
{
    if s.index@.contains_key(x) { lemma_root(s.parent@, s.rank@, s.index@[x] as int); }
}
/// equal representatives among known elements mean equal roots
pub proof fn lemma_rep_root<T: Clone + Eq + std::hash::Hash>(s: PartitionImpl<T>, x: T, y: T)
    requires s.wf(), s.index@.contains_key(x), s.index@.contains_key(y)
    ensures s.rep(x) == s.rep(y) <==> s.root_of(s.index@[x] as int) == s.root_of(s.index@[y] as int)
{
    lemma_root(s.parent@, s.rank@, s.index@[x] as int);
    lemma_root(s.parent@, s.rank@, s.index@[y] as int);
}
impl<T: Clone + Eq + std::hash::Hash> PartitionImpl<T> {
@fn partitions.rs :: PartitionImpl<T>::new
    native
@spec
    ensures obeys_key_model::<T>() ==> res.wf() && forall|x: T| #[trigger] res.rep(x) == x
@endfn
@fn partitions.rs :: PartitionImpl<T>::get_index
    native
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_reps(*old(self)), final(self).index@.contains_key(*a), res == final(self).index@[*a],
        final(self).extends(*old(self))
@at end
    proof {
        let (o, s) = (*old(self), *self);
        if !o.index@.contains_key(*a) {
            let n = o.parent@.len() as int;
            assert(s.parent@ == o.parent@.push(n as usize) && s.rank@ == o.rank@.push(0));
            if n > 0 { lemma_push(o.parent@, o.rank@, 0); }
            lemma_weight_push(o.parent@, o.rank@, n);
            assert(s.elements.len() == s.elements@.len());
            assert forall|y: T| #[trigger] s.rep(y) == o.rep(y) by {
                if o.index@.contains_key(y) {
                    lemma_root(o.parent@, o.rank@, o.index@[y] as int);
                    lemma_push(o.parent@, o.rank@, o.index@[y] as int);
                }
            }
        }
    }
@endfn
@fn partitions.rs :: PartitionImpl<T>::root_index
    native
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_reps(*old(self)), final(self).index@.contains_key(*a), res < final(self).elements@.len(),
        res == final(self).root_of(final(self).index@[*a] as int), final(self).parent@[res as int] == res,
        final(self).elements@[res as int] == old(self).rep(*a),
        final(self).extends(*old(self))
@loop 1
    self.wf(), self.same_reps(*old(self)), self.index@.contains_key(*a), x == self.index@[*a], root < self.elements@.len(),
    self.root_of(root as int) == self.root_of(x as int),
    self.extends(*old(self)),
    decreases usize::MAX - self.rank@[root as int]
@loop 2
    self.wf(), self.same_reps(*old(self)), self.index@.contains_key(*a), x < self.elements@.len(), root < self.elements@.len(),
    self.root_of(self.index@[*a] as int) == root, self.root_of(x as int) == root, self.parent@[root as int] == root,
    self.extends(*old(self)),
    decreases usize::MAX - self.rank@[x as int]
@at loop 2 start
    let ghost s0 = *self;
    let ghost x0 = x as int;
@at loop 2 end
    proof {
        lemma_compress(s0.parent@, s0.rank@, x0, x0);
        lemma_compress(s0.parent@, s0.rank@, x0, x as int);
        lemma_weight_link(s0.parent@, s0.rank@, self.parent@, s0.rank@, root as int, x0, s0.parent@.len() as int);
        lemma_compress(s0.parent@, s0.rank@, x0, s0.index@[*a] as int);
        assert forall|y: T| #[trigger] self.rep(y) == s0.rep(y) by {
            if s0.index@.contains_key(y) { lemma_compress(s0.parent@, s0.rank@, x0, s0.index@[y] as int); }
        }
        assert forall|y: T| #[trigger] self.rep(y) == old(self).rep(y) by { assert(s0.rep(y) == old(self).rep(y)); }
    }
@at end
    proof { assert(self.rep(*a) == old(self).rep(*a)); }
@endfn
@fn partitions.rs :: PartitionImpl<T>::find
    native
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_reps(*old(self)), res == old(self).rep(*a)
@endfn
@fn partitions.rs :: PartitionImpl<T>::unite
    native
@spec
    requires old(self).wf()
    ensures final(self).wf(),
        forall|x: T, y: T| (#[trigger] final(self).rep(x) == #[trigger] final(self).rep(y)) <==>
            (old(self).rep(x) == old(self).rep(y)
                || old(self).rep(x) == old(self).rep(*a) && old(self).rep(y) == old(self).rep(*b)
                || old(self).rep(x) == old(self).rep(*b) && old(self).rep(y) == old(self).rep(*a))
@at after root_index 1
    let ghost s1 = *self;
    proof { lemma_rep_idem(s1, *a); }
@at after root_index 2
    let ghost s2 = *self;
    proof {
        lemma_rep_idem(s2, *b);
        let e = s1.elements@[x as int];
        assert(s1.rep(*a) == e && old(self).rep(*a) == e && s1.index@.contains_key(e) && s1.index@[e] == x);
        assert(s2.rep(e) == s1.rep(e));
        assert(s2.index@.contains_key(e) && s2.index@[e] == x);
        lemma_root(s2.parent@, s2.rank@, x as int);
        assert(s2.root_of(x as int) == x);
        lemma_weight(s2.parent@, s2.rank@, s2.parent@.len() as int, x as int);
        lemma_weight(s2.parent@, s2.rank@, s2.parent@.len() as int, y as int);
        assert(s2.rep(*a) == e);
        assert(s2.rep(*b) == s1.rep(*b) && s1.rep(*b) == old(self).rep(*b));
        assert forall|z: T| #[trigger] s2.rep(z) == old(self).rep(z) by { assert(s2.rep(z) == s1.rep(z)); }
    }
@at end
    proof {
        if x != y {
            let s = *self;
            let (up, down) = if s.parent@[x as int] == y { (y as int, x as int) } else { (x as int, y as int) };
            assert(s.parent@ =~= s2.parent@.update(down, up as usize));
            assert(s.rank@ =~= s2.rank@ || s.rank@ =~= s2.rank@.update(up, s.rank@[up]));
            lemma_link(s2.parent@, s2.rank@, s.rank@, up, down, x as int);
            lemma_weight_link(s2.parent@, s2.rank@, s.parent@, s.rank@, up, down, s.parent@.len() as int);
            assert forall|z: T| #[trigger] s.rep(z) == if s2.rep(z) == s2.elements@[down] { s2.elements@[up] } else { s2.rep(z) } by {
                if s2.index@.contains_key(z) {
                    lemma_root(s2.parent@, s2.rank@, s2.index@[z] as int);
                    lemma_link(s2.parent@, s2.rank@, s.rank@, up, down, s2.index@[z] as int);
                }
            }
        }
    }
@endfn
}
impl<T: Clone + Eq + std::hash::Hash> Partition<T> {
    pub open spec fn wf(self) -> bool { self._impl.c.wf() }
    pub open spec fn rep(self, x: T) -> T { self._impl.c.rep(x) }
    pub open spec fn same_reps(self, o: Self) -> bool { forall|y: T| #[trigger] self.rep(y) == o.rep(y) }
}
/// p is the partition generated by the unions h
pub open spec fn generated_by<T: Clone + Eq + std::hash::Hash>(p: Partition<T>, h: Seq<(T, T)>) -> bool {
    p.wf() && forall|x: T, y: T| (#[trigger] p.rep(x) == #[trigger] p.rep(y)) <==> connected(h, x, y)
}
/// consecutive elements of w are pairs of h in one or the other order
pub open spec fn chain<T>(h: Seq<(T, T)>, w: Seq<T>, x: T, y: T) -> bool {
    &&& w.len() > 0 && w[0] == x && w.last() == y
    &&& forall|i: int| 0 < i < w.len() ==> step(h, w[i - 1], #[trigger] w[i])
}
pub open spec fn step<T>(h: Seq<(T, T)>, x: T, y: T) -> bool { h.contains((x, y)) || h.contains((y, x)) }
/// equal, or joined by a chain of united pairs
pub open spec fn connected<T>(h: Seq<(T, T)>, x: T, y: T) -> bool { exists|w: Seq<T>| chain(h, w, x, y) }
pub proof fn lemma_conn_refl<T>(h: Seq<(T, T)>, x: T)
    ensures connected(h, x, x)
{ assert(chain(h, seq![x], x, x)); }
pub proof fn lemma_conn_empty<T>(x: T, y: T)
    ensures connected(Seq::<(T, T)>::empty(), x, y) ==> x == y
{
    if connected(Seq::<(T, T)>::empty(), x, y) {
        let w = choose|w: Seq<T>| chain(Seq::<(T, T)>::empty(), w, x, y);
        if w.len() > 1 { assert(step(Seq::<(T, T)>::empty(), w[0], w[1])); }
    }
}
pub proof fn lemma_conn_trans<T>(h: Seq<(T, T)>, x: T, y: T, z: T)
    requires connected(h, x, y), connected(h, y, z)
    ensures connected(h, x, z)
{
    let v = choose|w: Seq<T>| chain(h, w, x, y);
    let w = choose|w: Seq<T>| chain(h, w, y, z);
    let u = v + w.subrange(1, w.len() as int);
    assert forall|i: int| 0 < i < u.len() implies step(h, u[i - 1], #[trigger] u[i]) by {
        if i < v.len() { assert(step(h, v[i - 1], v[i])); }
        else { let k = i - v.len() + 1; assert(step(h, w[k - 1], w[k])); assert(u[i] == w[k]); assert(u[i - 1] == w[k - 1]); }
    }
    if w.len() > 1 { assert(u.last() == w.last()); } else { assert(u =~= v); }
    assert(chain(h, u, x, z));
}
pub proof fn lemma_conn_sym<T>(h: Seq<(T, T)>, x: T, y: T)
    requires connected(h, x, y)
    ensures connected(h, y, x)
{
    let w = choose|w: Seq<T>| chain(h, w, x, y);
    let u = w.reverse();
    assert forall|i: int| 0 < i < u.len() implies step(h, u[i - 1], #[trigger] u[i]) by {
        let k = w.len() - i;
        assert(step(h, w[k - 1], w[k]));
    }
    assert(chain(h, u, y, x));
}
pub proof fn lemma_conn_more<T>(h: Seq<(T, T)>, a: T, b: T, x: T, y: T)
    requires connected(h, x, y)
    ensures connected(h.push((a, b)), x, y)
{
    let w = choose|w: Seq<T>| chain(h, w, x, y);
    let g = h.push((a, b));
    assert forall|i: int| 0 < i < w.len() implies step(g, w[i - 1], #[trigger] w[i]) by {
        assert(step(h, w[i - 1], w[i]));
        let (c, d) = (w[i - 1], w[i]);
        if h.contains((c, d)) { let k = choose|k: int| 0 <= k < h.len() && h[k] == (c, d); assert(g[k] == (c, d)); }
        else { let k = choose|k: int| 0 <= k < h.len() && h[k] == (d, c); assert(g[k] == (d, c)); }
    }
    assert(chain(g, w, x, y));
}
/// a chain through the new pair splits there
pub proof fn lemma_conn_split<T>(h: Seq<(T, T)>, a: T, b: T, w: Seq<T>, x: T, y: T)
    requires chain(h.push((a, b)), w, x, y)
    ensures connected(h, x, y) || connected(h, x, a) && connected(h, b, y) || connected(h, x, b) && connected(h, a, y)
    decreases w.len()
{
    let g = h.push((a, b));
    if w.len() == 1 { lemma_conn_refl(h, x); } else {
        let v = w.drop_last();
        let z = v.last();
        assert forall|i: int| 0 < i < v.len() implies step(g, v[i - 1], #[trigger] v[i]) by { assert(step(g, w[i - 1], w[i])); }
        assert(chain(g, v, x, z));
        lemma_conn_split(h, a, b, v, x, z);
        assert(step(g, w[w.len() - 2], w[w.len() - 1]));
        assert(g[g.len() - 1] == (a, b));
        if (z, y) != (a, b) && (y, z) != (a, b) {
            assert(step(h, z, y)) by {
                if g.contains((z, y)) { let k = choose|k: int| 0 <= k < g.len() && g[k] == (z, y); assert(h[k] == (z, y)); }
                else { let k = choose|k: int| 0 <= k < g.len() && g[k] == (y, z); assert(h[k] == (y, z)); }
            }
            assert(chain(h, seq![z, y], z, y));
            if connected(h, x, z) { lemma_conn_trans(h, x, z, y); }
            else if connected(h, x, a) && connected(h, b, z) { lemma_conn_trans(h, b, z, y); }
            else { lemma_conn_trans(h, a, z, y); }
        } else {
            lemma_conn_refl(h, y);
            if connected(h, x, z) { }
            else if connected(h, x, a) && connected(h, b, z) {
                if z == b && y == a { } else { lemma_conn_sym(h, b, z); lemma_conn_trans(h, x, a, z) ; }
            } else {
                if z == a && y == b { } else { lemma_conn_sym(h, a, z); lemma_conn_trans(h, x, b, z); }
            }
        }
    }
}
/// uniting a and b moves from the relation generated by h to the one generated by h and (a, b)
pub proof fn lemma_unite<T: Clone + Eq + std::hash::Hash>(o: Partition<T>, s: Partition<T>, h: Seq<(T, T)>, a: T, b: T)
    requires generated_by(o, h), s.wf(),
        forall|x: T, y: T| (#[trigger] s.rep(x) == #[trigger] s.rep(y)) <==>
            (o.rep(x) == o.rep(y) || o.rep(x) == o.rep(a) && o.rep(y) == o.rep(b) || o.rep(x) == o.rep(b) && o.rep(y) == o.rep(a))
    ensures generated_by(s, h.push((a, b)))
{
    let g = h.push((a, b));
    assert(g[g.len() - 1] == (a, b));
    assert(chain(g, seq![a, b], a, b));
    assert(chain(g, seq![b, a], b, a));
    assert forall|x: T, y: T| (#[trigger] s.rep(x) == #[trigger] s.rep(y)) <==> connected(g, x, y) by {
        if s.rep(x) == s.rep(y) {
            if o.rep(x) == o.rep(y) { lemma_conn_more(h, a, b, x, y); }
            else if o.rep(x) == o.rep(a) && o.rep(y) == o.rep(b) {
                lemma_conn_more(h, a, b, x, a); lemma_conn_more(h, a, b, b, y);
                lemma_conn_trans(g, x, a, b); lemma_conn_trans(g, x, b, y);
            } else {
                lemma_conn_more(h, a, b, x, b); lemma_conn_more(h, a, b, a, y);
                lemma_conn_trans(g, x, b, a); lemma_conn_trans(g, x, a, y);
            }
        }
        if connected(g, x, y) {
            let w = choose|w: Seq<T>| chain(g, w, x, y);
            lemma_conn_split(h, a, b, w, x, y);
        }
    }
}
/// the representatives of es, each once, in the order of their first appearance
pub open spec fn reps_of<T: Clone + Eq + std::hash::Hash>(p: Partition<T>, es: Seq<T>) -> Seq<T>
    decreases es.len()
{
    if es.len() == 0 { Seq::empty() } else {
        let s = reps_of(p, es.drop_last());
        if s.contains(p.rep(es.last())) { s } else { s.push(p.rep(es.last())) }
    }
}
/// the elements of es in the class of r, in their order
pub open spec fn members<T: Clone + Eq + std::hash::Hash>(p: Partition<T>, es: Seq<T>, r: T) -> Seq<T> { es.filter(|e: T| p.rep(e) == r) }
pub proof fn lemma_reps<T: Clone + Eq + std::hash::Hash>(p: Partition<T>, es: Seq<T>)
    ensures reps_of(p, es).no_duplicates(), reps_of(p, es).len() <= es.len(),
        forall|i: int| 0 <= i < es.len() ==> reps_of(p, es).contains(p.rep(#[trigger] es[i])),
        forall|k: int| 0 <= k < reps_of(p, es).len() ==> exists|i: int| 0 <= i < es.len() && p.rep(#[trigger] es[i]) == #[trigger] reps_of(p, es)[k],
    decreases es.len()
{
    if es.len() > 0 {
        let (d, l) = (es.drop_last(), p.rep(es.last()));
        let (s, t) = (reps_of(p, d), reps_of(p, es));
        lemma_reps(p, d);
        assert forall|i: int| 0 <= i < es.len() implies t.contains(p.rep(#[trigger] es[i])) by {
            if i < d.len() { assert(s.contains(p.rep(d[i]))); let k = choose|k: int| 0 <= k < s.len() && s[k] == p.rep(d[i]); assert(t[k] == s[k]); }
            else if !s.contains(l) { assert(t[t.len() - 1] == l); }
        }
        assert forall|k: int| 0 <= k < t.len() implies exists|i: int| 0 <= i < es.len() && p.rep(#[trigger] es[i]) == #[trigger] t[k] by {
            if k < s.len() { let i = choose|i: int| 0 <= i < d.len() && p.rep(#[trigger] d[i]) == s[k]; assert(es[i] == d[i]); }
            else { assert(es[es.len() - 1] == es.last()); }
        }
    }
}
pub proof fn lemma_members_step<T: Clone + Eq + std::hash::Hash>(p: Partition<T>, es: Seq<T>, e: T, r: T)
    ensures members(p, es.push(e), r) == if p.rep(e) == r { members(p, es, r).push(e) } else { members(p, es, r) },
        !reps_of(p, es).contains(r) ==> members(p, es, r) == Seq::<T>::empty()
{
    reveal(Seq::filter);
    assert(es.push(e).drop_last() =~= es);
    if !reps_of(p, es).contains(r) {
        lemma_reps(p, es);
        lemma_filter_none(es, |e: T| p.rep(e) == r);
    }
}
pub proof fn lemma_filter_none<T>(es: Seq<T>, f: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < es.len() ==> !f(#[trigger] es[i])
    ensures es.filter(f) == Seq::<T>::empty()
    decreases es.len()
{
    reveal(Seq::filter);
    if es.len() > 0 {
        assert forall|i: int| 0 <= i < es.drop_last().len() implies !f(#[trigger] es.drop_last()[i]) by { assert(!f(es[i])); }
        lemma_filter_none(es.drop_last(), f);
    }
    assert(es.filter(f) =~= Seq::<T>::empty());
}
impl<T: Clone + Eq + std::hash::Hash> Partition<T> {
@fn partitions.rs :: Partition<T>::new
    native
    sub UnsafeCell=VCell
@spec
    ensures obeys_key_model::<T>() ==> generated_by(res, Seq::empty())
@at end
    proof {
        if obeys_key_model::<T>() {
            assert forall|x: T, y: T| (#[trigger] res.rep(x) == #[trigger] res.rep(y)) <==> connected(Seq::<(T, T)>::empty(), x, y) by {
                lemma_conn_empty(x, y); lemma_conn_refl(Seq::<(T, T)>::empty(), x);
            }
        }
    }
@endfn
@fn partitions.rs :: Partition<T>::find
    native
    self &mut self
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_reps(*old(self)), res == old(self).rep(*x),
        final(self).rep(res) == res
@at end
    proof { lemma_rep_idem(old(self)._impl.c, *x); }
@endfn
@fn partitions.rs :: Partition<T>::unite
    native
@spec
    requires old(self).wf()
    ensures final(self).wf(),
        forall|h: Seq<(T, T)>| generated_by(*old(self), h) ==> #[trigger] generated_by(*final(self), h.push((*x, *y))),
@at end
    proof {
        assert forall|h: Seq<(T, T)>| generated_by(*old(self), h) implies #[trigger] generated_by(*self, h.push((*x, *y))) by {
            lemma_unite(*old(self), *self, h, *x, *y);
        }
    }
@endfn
@fn partitions.rs :: Partition<T>::classes
    native
    self &mut self
    letty class_for_rep HashMap<T, usize>
    letty classes Vec<Vec<T>>
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_reps(*old(self)),
        res@.len() == reps_of(*old(self), elms@).len(),
        forall|k: int| 0 <= k < res@.len() ==> #[trigger] res@[k]@ == members(*old(self), elms@, reps_of(*old(self), elms@)[k]),
@loop 1
    self.wf(), self.same_reps(*old(self)), obeys_key_model::<T>(), elms@ == seq1@,
    classes@.len() == reps_of(*old(self), elms@.take(it1 as int)).len(),
    forall|r: T| #[trigger] class_for_rep@.contains_key(r) <==> reps_of(*old(self), elms@.take(it1 as int)).contains(r),
    forall|r: T| #[trigger] class_for_rep@.contains_key(r) ==> class_for_rep@[r] < classes@.len() && reps_of(*old(self), elms@.take(it1 as int))[class_for_rep@[r] as int] == r,
    forall|k: int| 0 <= k < classes@.len() ==> #[trigger] classes@[k]@ == members(*old(self), elms@.take(it1 as int), reps_of(*old(self), elms@.take(it1 as int))[k]),
@at loop 1 end
    proof {
        let (p, d, f) = (*old(self), elms@.take(cur1 as int), elms@.take(it1 as int));
        let x = elms@[cur1 as int];
        let r = p.rep(x);
        assert(f =~= d.push(x));
        assert(f.drop_last() =~= d);
        let (g, n) = (reps_of(p, d), reps_of(p, f));
        lemma_reps(p, d);
        lemma_reps(p, f);
        if !g.contains(r) {
            assert(n == g.push(r));
            assert(n[n.len() - 1] == r);
            lemma_members_step(p, d, x, r);
            assert forall|q: T| n.contains(q) <==> #[trigger] class_for_rep@.contains_key(q) by {
                if g.contains(q) { let k = choose|k: int| 0 <= k < g.len() && g[k] == q; assert(n[k] == q); }
            }
        }
        assert forall|k: int| 0 <= k < classes@.len() implies (#[trigger] classes@[k])@ == members(p, f, n[k]) by {
            lemma_members_step(p, d, x, n[k]);
            if k < g.len() && g[k] == r { assert(g.contains(r)); }
        }
    }
@at end
    proof { assert(elms@.take(elms@.len() as int) =~= elms@); }
@endfn
}
