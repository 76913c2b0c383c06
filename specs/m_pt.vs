@# points and vectors with rational coordinates, by the contracts that u_geom0 proves of src/arithmetic/geometry.rs
pub open spec fn rats(v: Seq<Rat>) -> Seq<real> { Seq::new(v.len(), |k: int| v[k].v()) }
@template PT P
#[verifier::external_body]
pub struct $P { p: () }
impl Clone for $P { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl $P {
    pub uninterp spec fn v(self) -> Seq<real>;
    #[verifier::external_body] pub fn new(c: &Vec<Rat>) -> (r: $P) ensures r.v() == rats(c@) { unimplemented!() }
    #[verifier::external_body] pub fn from_iter_vec(c: Vec<Rat>) -> (r: $P) ensures r.v() == rats(c@) { unimplemented!() }
    #[verifier::external_body] pub fn index(&self, i: usize) -> (r: &Rat) requires i < self.v().len() ensures r.v() == self.v()[i as int] { unimplemented!() }
}
impl VSeq for $P { type Item = Rat; uninterp spec fn vseq_spec(&self) -> Seq<Rat>; #[verifier::external_body] fn vseq(&self) -> (r: &Vec<Rat>) { unimplemented!() } }
impl VKey for $P { type K = Seq<real>; open spec fn key(&self) -> Seq<real> { self.v() } uninterp spec fn klt(a: Seq<real>, b: Seq<real>) -> bool; }
@endtemplate
@expand PT P=Point
@expand PT P=Vector
pub broadcast axiom fn axiom_point(x: &Point) ensures rats(#[trigger] x.vseq_spec()) == x.v();
pub broadcast axiom fn axiom_vector(x: &Vector) ensures rats(#[trigger] x.vseq_spec()) == x.v();
// ---- what a barycentric placement is
pub type PM = Map<u32, Point>;
pub open spec fn pc(m: PM, u: u32, k: int) -> real { m[u].v()[k] }
/// coordinate k of the vector of an edge
pub open spec fn dl(m: PM, e: EV, k: int) -> real { pc(m, e.1, k) + e.2[k] as real - pc(m, e.0, k) }
pub open spec fn dsum(m: PM, q: Seq<EV>, n: int, k: int) -> real decreases n { if n <= 0 { 0real } else { dsum(m, q, n - 1, k) + dl(m, q[n - 1], k) } }
/// the vectors of the edges that leave v cancel: v is at the average of its neighbours
pub open spec fn bal(es: Seq<EV>, m: PM, v: u32, k: int) -> bool { dsum(m, incs(es, v), incs(es, v).len() as int, k) == 0real }
pub open spec fn verts_at(es: Seq<EV>, m: PM) -> bool { forall|u: u32| #[trigger] m.dom().contains(u) <==> end_of(es, es.len() as int, u) }
pub open spec fn first_at0(es: Seq<EV>, m: PM) -> bool { forall|vs: Seq<u32>, k: int| #[trigger] isverts(vs, es) && vs.len() > 0 && 0 <= k < ldim() ==> #[trigger] pc(m, vs[0], k) == 0real }
/// the placement: every vertex at the average of its neighbours, the first at the origin
pub open spec fn is_place(es: Seq<EV>, m: PM) -> bool {
    &&& verts_at(es, m) && first_at0(es, m)
    &&& forall|u: u32| #[trigger] m.dom().contains(u) ==> m[u].v().len() == ldim()
    &&& forall|u: u32, k: int| m.dom().contains(u) && 0 <= k < ldim() ==> #[trigger] bal(es, m, u, k)
}
/// the vector of an edge
pub open spec fn dv(m: PM, e: EV) -> Seq<real> { Seq::new(ldim() as nat, |k: int| dl(m, e, k)) }
/// t is the only edge of the list with its vector
pub open spec fn only(m: PM, q: Seq<EV>, n: int, t: int) -> bool { 0 <= t < n && forall|i: int| 0 <= i < n && i != t ==> dv(m, #[trigger] q[i]) != dv(m, q[t]) }
/// the table of the edges of the list whose vector no other one has
pub open spec fn uniq<CS>(m: PM, q: Seq<EV>, n: int, h: Map<Seq<real>, Edge<Lab, CS>>) -> bool {
    &&& forall|x: Seq<real>| #[trigger] h.dom().contains(x) ==> uniq_at(m, q, n, h[x].key(), x)
    &&& forall|t: int| #[trigger] only(m, q, n, t) ==> h.dom().contains(dv(m, q[t]))
}
pub open spec fn uniq_at(m: PM, q: Seq<EV>, n: int, e: EV, x: Seq<real>) -> bool { exists|t: int| #[trigger] only(m, q, n, t) && q[t] == e && dv(m, e) == x }
pub open spec fn is_lookup<CS>(es: Seq<EV>, m: PM, lk: Map<u32, VMap<Vector, Edge<Lab, CS>>>) -> bool {
    &&& forall|v: u32| #[trigger] lk.dom().contains(v) <==> end_of(es, es.len() as int, v)
    &&& forall|v: u32| #[trigger] lk.dom().contains(v) ==> uniq(m, incs(es, v), incs(es, v).len() as int, lk[v].m())
}
