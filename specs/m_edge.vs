@# Edge and Graph of src/pgraphs.rs, on labels known by the contracts that u_label proves of LabelVector2d and LabelVector3d
use std::marker::PhantomData;
pub fn vphantom<T>() -> (r: PhantomData<T>) { PhantomData }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Lab { p: () }
pub uninterp spec fn ldim() -> int;
pub broadcast axiom fn axiom_lab(a: Lab) ensures (#[trigger] a.v()).len() == ldim();
pub broadcast axiom fn axiom_ldim() ensures #[trigger] ldim() >= 0;
impl Lab {
    pub uninterp spec fn v(self) -> Seq<int>;
    #[verifier::external_body] pub fn dim() -> (r: usize) ensures r == ldim() { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: Lab) ensures r.v() == zerol(ldim()) { unimplemented!() }
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<Int>) ensures ints(r@) == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn from_vec(v: &Vec<Int>) -> (r: Lab) requires v@.len() == ldim() ensures r.v() == ints(v@) { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == zerol(ldim())) { unimplemented!() }
    #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures r == lexneg(self.v()) { unimplemented!() }
    #[verifier::external_body] pub fn is_positive(&self) -> (r: bool) ensures r == lexpos(self.v()) { unimplemented!() }
}
pub open spec fn ints(v: Seq<Int>) -> Seq<int> { Seq::new(v.len(), |k: int| v[k].v()) }
impl VNeg for Lab { type Out = Lab; open spec fn neg_ens(self, o: Lab) -> bool { o.v() == negl(self.v()) } #[verifier::external_body] fn vneg(self) -> (r: Lab) { unimplemented!() } }
impl VAdd<Lab> for Lab { type Out = Lab; open spec fn add_ens(self, r: Lab, o: Lab) -> bool { o.v() == addl(self.v(), r.v()) } #[verifier::external_body] fn vadd(self, r: Lab) -> (o: Lab) { unimplemented!() } }
impl VSub<Lab> for Lab { type Out = Lab; open spec fn sub_ens(self, r: Lab, o: Lab) -> bool { o.v() == subl(self.v(), r.v()) } #[verifier::external_body] fn vsub(self, r: Lab) -> (o: Lab) { unimplemented!() } }
impl VKey for Lab { type K = Seq<int>; open spec fn key(&self) -> Seq<int> { self.v() } open spec fn klt(a: Seq<int>, b: Seq<int>) -> bool { lexlt(a, b) } }

pub type Vertex = u32;
@struct pgraphs.rs Edge
impl<CS> Clone for Edge<Lab, CS> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// head, tail and shift of an edge
pub type EV = (u32, u32, Seq<int>);
impl<CS> VKey for Edge<Lab, CS> { type K = EV; open spec fn key(&self) -> EV { (self.head, self.tail, self.shift.v()) } open spec fn klt(a: EV, b: EV) -> bool { evlt(a, b) } }
pub open spec fn evlt(a: EV, b: EV) -> bool { a.0 < b.0 || a.0 == b.0 && (a.1 < b.1 || a.1 == b.1 && lexlt(a.2, b.2)) }
pub open spec fn rev(e: EV) -> EV { (e.1, e.0, negl(e.2)) }
pub open spec fn canon(e: EV) -> EV { if e.1 < e.0 || e.1 == e.0 && lexneg(e.2) { rev(e) } else { e } }
/// reversing twice gives the edge back, an edge and its reverse have one canonical form, which is one of the two
pub proof fn lemma_canon(e: EV)
    ensures rev(rev(e)) == e, canon(rev(e)) == canon(e), canon(e) == e || canon(e) == rev(e), canon(canon(e)) == canon(e)
{
    lemma_label_sign(e.2);
    if e.0 == e.1 && e.2 == zerol(e.2.len() as int) { assert(negl(e.2) =~= e.2); }
}
impl<CS> Edge<Lab, CS> {
@fn pgraphs.rs :: Edge<T,CS>::new
    sub T=Lab
    call PhantomData::default=vphantom
@spec
    ensures res.key() == (head, tail, shift.v())
@endfn
@fn pgraphs.rs :: Edge<T,CS>::canonical
    sub T=Lab
@spec
    ensures res.key() == canon(self.key())
@at start
    proof { lemma_canon(self.key()); }
@endfn
}
impl<CS> VNeg for &Edge<Lab, CS> { type Out = Edge<Lab, CS>;
    open spec fn neg_ens(self, o: Edge<Lab, CS>) -> bool { o.key() == rev(self.key()) }
@fn pgraphs.rs :: Neg for &Edge<T,CS>::neg
    as vneg
    sub T=Lab
    rettype Edge<Lab,CS>
    sub Self::Output=Edge
    ret r
    nopub
    call PhantomData::default=vphantom
@spec
@endfn
}
/// the undirected edges are stored in canonical form, each once, in ascending order
pub open spec fn esok(es: Seq<EV>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> evlt(#[trigger] es[i], #[trigger] es[j])
    &&& forall|i: int| 0 <= i < es.len() ==> canon(#[trigger] es[i]) == es[i] && es[i].2.len() == ldim()
}
pub open spec fn canons(r: Seq<EV>) -> Seq<EV> { Seq::new(r.len(), |i: int| canon(r[i])) }
/// the directed edges that leave v, in the order of the first k undirected edges
pub open spec fn app(s: Seq<EV>, e: EV, v: u32) -> Seq<EV> { if e.0 == v { s.push(e) } else { s } }
pub open spec fn inc(es: Seq<EV>, k: int, v: u32) -> Seq<EV> decreases k {
    if k <= 0 { seq![] } else { app(app(inc(es, k - 1, v), es[k - 1], v), rev(es[k - 1]), v) }
}
pub open spec fn incs(es: Seq<EV>, v: u32) -> Seq<EV> { inc(es, es.len() as int, v) }
/// v is an end of one of the first k edges
pub open spec fn end_of(es: Seq<EV>, k: int, v: u32) -> bool { exists|i: int| 0 <= i < k && ((#[trigger] es[i]).0 == v || es[i].1 == v) }
pub open spec fn isverts(vs: Seq<u32>, es: Seq<EV>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < vs.len() ==> #[trigger] vs[i] < #[trigger] vs[j]
    &&& forall|v: u32| #[trigger] has(vs, v) <==> end_of(es, es.len() as int, v)
}
pub proof fn lemma_evlt(a: EV, b: EV, c: EV)
    requires a.2.len() == b.2.len(), b.2.len() == c.2.len()
    ensures !evlt(a, a), evlt(a, b) && evlt(b, c) ==> evlt(a, c)
{ lemma_lexlt(a.2, b.2, c.2); }
pub proof fn lemma_lexlt(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires a.len() == b.len(), b.len() == c.len()
    ensures !lexlt(a, a), lexlt(a, b) && lexlt(b, c) ==> lexlt(a, c)
    decreases a.len()
{ if a.len() > 0 { lemma_lexlt(a.skip(1), b.skip(1), c.skip(1)); } }
/// what the list of incidences contains: exactly the directed edges that leave v
pub proof fn lemma_inc(es: Seq<EV>, k: int, v: u32)
    requires esok(es), 0 <= k <= es.len()
    ensures forall|d: EV| #[trigger] has(inc(es, k, v), d) <==> d.0 == v && has(es.take(k), canon(d)) && canon(d).2.len() == ldim(),
        inc(es, k, v).len() > 0 <==> end_of(es, k, v)
    decreases k
{
    if k > 0 {
        lemma_inc(es, k - 1, v);
        let e = es[k - 1];
        let p = inc(es, k - 1, v); let q = app(p, e, v); let r = app(q, rev(e), v);
        assert forall|d: EV| #[trigger] has(r, d) <==> d.0 == v && has(es.take(k), canon(d)) && canon(d).2.len() == ldim() by {
            lemma_canon(e); lemma_canon(d);
            if has(r, d) {
                let i = choose|i: int| 0 <= i < r.len() && r[i] == d;
                if i < p.len() { assert(p[i] == d); assert(has(p, d)); let t = es.take(k - 1); let j = choose|j: int| 0 <= j < k - 1 && #[trigger] t[j] == canon(d); assert(es.take(k)[j] == canon(d)); }
                else { assert(d == e || d == rev(e)); assert(es.take(k)[k - 1] == canon(d)); }
            }
            if d.0 == v && has(es.take(k), canon(d)) && canon(d).2.len() == ldim() {
                let j = choose|j: int| 0 <= j < k && es.take(k)[j] == canon(d);
                if j < k - 1 {
                    assert(es.take(k - 1)[j] == canon(d)); assert(has(p, d));
                    let i = choose|i: int| 0 <= i < p.len() && p[i] == d; assert(r[i] == d);
                } else {
                    assert(canon(d) == e);
                    assert(d == e || d == rev(e));
                    if d == e { assert(q[p.len() as int] == d); assert(r[p.len() as int] == d); } else { assert(r[q.len() as int] == d); }
                }
            }
        }
        if end_of(es, k, v) && !end_of(es, k - 1, v) {
            let i = choose|i: int| 0 <= i < k && ((#[trigger] es[i]).0 == v || es[i].1 == v);
            assert(i == k - 1);
        }
        if end_of(es, k - 1, v) { let i = choose|i: int| 0 <= i < k - 1 && ((#[trigger] es[i]).0 == v || es[i].1 == v); assert(0 <= i < k && (es[i].0 == v || es[i].1 == v)); }
        if inc(es, k - 1, v).len() == 0 && r.len() > 0 { assert(0 <= k - 1 < k && (es[k - 1].0 == v || es[k - 1].1 == v)); }
    }
}
