@# barycentric_placement, position, edge_vector and the stability tests of src/pgraphs.rs
pub trait VAs { spec fn int_of(&self) -> int; fn vas(self) -> (r: i64) ensures r == self.int_of(); }
impl VAs for i64 { open spec fn int_of(&self) -> int { *self as int } fn vas(self) -> i64 { self } }
/// labels are i32
impl VAs for Int { open spec fn int_of(&self) -> int { self.v() } #[verifier::external_body] fn vas(self) -> i64 { unimplemented!() } }
pub fn vas<T: VAs>(x: T) -> (r: i64) ensures r == x.int_of() { x.vas() }
pub fn vunit() { }
pub type Rows = Seq<Vec<i64>>;
/// row i of the matrix, applied to y, after n of the edges q that leave vertex i
pub open spec fn ysum(y: Seq<real>, ix: Map<u32, usize>, q: Seq<EV>, i: int, n: int) -> real decreases n {
    if n <= 0 { 0real } else { ysum(y, ix, q, i, n - 1) + y[i] - y[ix[q[n - 1].1] as int] }
}
pub open spec fn rsum(q: Seq<EV>, n: int, k: int) -> int decreases n { if n <= 0 { 0 } else { rsum(q, n - 1, k) + q[n - 1].2[k] } }
pub open spec fn arow(r: Seq<i64>, ix: Map<u32, usize>, q: Seq<EV>, i: int, n: int) -> bool {
    forall|y: Seq<real>| y.len() == r.len() ==> #[trigger] rdot(ints64(r), y, r.len()) == ysum(y, ix, q, i, n)
}
pub open spec fn trow(r: Seq<i64>, q: Seq<EV>, n: int, d: int) -> bool { r.len() == d && forall|k: int| 0 <= k < d ==> #[trigger] r[k] == rsum(q, n, k) }
pub open spec fn ints64(r: Seq<i64>) -> Seq<int> { Seq::new(r.len(), |k: int| r[k] as int) }
pub open spec fn index_of(vs: Seq<u32>, ix: Map<u32, usize>) -> bool { forall|u: u32| #[trigger] has(vs, u) ==> ix.dom().contains(u) && 0 <= ix[u] < vs.len() && vs[ix[u] as int] == u }
pub proof fn lemma_rdot_add(c: Seq<int>, y: Seq<real>, n: nat, j: int, z: int)
    requires n <= c.len(), 0 <= j < c.len()
    ensures rdot(c.update(j, c[j] + z), y, n) == rdot(c, y, n) + (if j < n { z as real * y[j] } else { 0real })
    decreases n
{
    if n > 0 {
        lemma_rdot_add(c, y, (n - 1) as nat, j, z);
        if j == n - 1 { let (a, b, w) = (c[j] as real, z as real, y[j]); assert((c[j] + z) as real == a + b); assert((a + b) * w == a * w + b * w) by (nonlinear_arith); }
    }
}
pub proof fn lemma_rdot_zero(c: Seq<int>, y: Seq<real>, n: nat)
    requires n <= c.len(), forall|i: int| 0 <= i < n ==> #[trigger] c[i] == 0
    ensures rdot(c, y, n) == 0real
    decreases n
{ if n > 0 { lemma_rdot_zero(c, y, (n - 1) as nat); let w = y[n - 1]; assert(c[n - 1] == 0); assert(0real * w == 0real) by (nonlinear_arith); } }
pub proof fn lemma_rdot_unit(c: Seq<int>, y: Seq<real>, n: nat)
    requires 0 < n <= c.len(), c[0] == 1, forall|i: int| 0 < i < n ==> #[trigger] c[i] == 0
    ensures rdot(c, y, n) == y[0]
    decreases n
{
    let w = y[n - 1];
    if n == 1 { assert(rdot(c, y, 0) == 0real); assert(1real * w == w) by (nonlinear_arith); }
    else { lemma_rdot_unit(c, y, (n - 1) as nat); assert(c[n - 1] == 0); assert(0real * w == 0real) by (nonlinear_arith); }
}
/// one more edge
pub open spec fn edge_in(r0: Seq<i64>, r: Seq<i64>, i: int, j: int) -> bool {
    r.len() == r0.len() && forall|l: int| 0 <= l < r.len() ==> #[trigger] r[l] == r0[l] + (if l == i { 1int } else { 0 }) - (if l == j { 1int } else { 0 })
}
pub proof fn lemma_arow_step(r0: Seq<i64>, r2: Seq<i64>, ix: Map<u32, usize>, q: Seq<EV>, i: int, n: int)
    requires arow(r0, ix, q, i, n - 1), 0 < n <= q.len(), 0 <= i < r0.len(), 0 <= ix[q[n - 1].1] < r0.len(), edge_in(r0, r2, i, ix[q[n - 1].1] as int)
    ensures arow(r2, ix, q, i, n)
{
    let j = ix[q[n - 1].1] as int;
    let (c0, c2) = (ints64(r0), ints64(r2));
    let c1 = c0.update(j, c0[j] + -1);
    assert(c2 =~= c1.update(i, c1[i] + 1)) by { assert forall|l: int| 0 <= l < c2.len() implies c2[l] == c1.update(i, c1[i] + 1)[l] by { assert(r2[l] == r0[l] + (if l == i { 1int } else { 0 }) - (if l == j { 1int } else { 0 })); } }
    assert forall|y: Seq<real>| y.len() == r2.len() implies #[trigger] rdot(c2, y, r2.len()) == ysum(y, ix, q, i, n) by {
        lemma_rdot_add(c0, y, r0.len(), j, -1);
        lemma_rdot_add(c1, y, r0.len(), i, 1);
        assert(rdot(c0, y, r0.len()) == ysum(y, ix, q, i, n - 1));
    }
}
pub proof fn lemma_arow_zero(r: Seq<i64>, ix: Map<u32, usize>, q: Seq<EV>, i: int)
    requires forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == 0
    ensures arow(r, ix, q, i, 0)
{ assert forall|y: Seq<real>| y.len() == r.len() implies #[trigger] rdot(ints64(r), y, r.len()) == ysum(y, ix, q, i, 0) by { lemma_rdot_zero(ints64(r), y, r.len()); } }
/// the equations of the rows
pub open spec fn row_done(a: Rows, t: Rows, es: Seq<EV>, vs: Seq<u32>, ix: Map<u32, usize>, i: int) -> bool {
    arow(a[i]@, ix, incs(es, vs[i]), i, incs(es, vs[i]).len() as int) && trow(t[i]@, incs(es, vs[i]), incs(es, vs[i]).len() as int, ldim())
}
pub open spec fn row_blank(a: Rows, t: Rows, n: int, i: int) -> bool {
    a[i]@.len() == n && t[i]@.len() == ldim() && (forall|j: int| 0 <= j < n ==> #[trigger] a[i]@[j] == 0) && (forall|k: int| 0 <= k < ldim() ==> #[trigger] t[i]@[k] == 0)
}
pub open spec fn row_first(a: Rows, t: Rows, n: int) -> bool {
    a[0]@.len() == n && t[0]@.len() == ldim() && a[0]@[0] == 1 && (forall|j: int| 0 < j < n ==> #[trigger] a[0]@[j] == 0) && (forall|k: int| 0 <= k < ldim() ==> #[trigger] t[0]@[k] == 0)
}
pub open spec fn sys(a: Rows, t: Rows, es: Seq<EV>, vs: Seq<u32>, ix: Map<u32, usize>, i: int) -> bool {
    &&& a.len() == vs.len() && t.len() == vs.len() && row_first(a, t, vs.len() as int)
    &&& forall|l: int| 0 < l < vs.len() ==> (#[trigger] a[l])@.len() == vs.len()
    &&& forall|l: int| 0 < l < i ==> #[trigger] row_done(a, t, es, vs, ix, l)
    &&& forall|l: int| i <= l < vs.len() ==> #[trigger] row_blank(a, t, vs.len() as int, l)
}
/// while row i takes its n-th edge, and k of the coordinates of its label
pub open spec fn sys_row(a: Rows, t: Rows, es: Seq<EV>, vs: Seq<u32>, ix: Map<u32, usize>, i: int, n: int, k: int) -> bool {
    &&& a.len() == vs.len() && t.len() == vs.len() && row_first(a, t, vs.len() as int)
    &&& forall|l: int| 0 < l < vs.len() ==> (#[trigger] a[l])@.len() == vs.len()
    &&& forall|l: int| 0 < l < i ==> #[trigger] row_done(a, t, es, vs, ix, l)
    &&& forall|l: int| i < l < vs.len() ==> #[trigger] row_blank(a, t, vs.len() as int, l)
    &&& t[i]@.len() == ldim() && forall|c: int| 0 <= c < ldim() ==> #[trigger] t[i]@[c] == rsum(incs(es, vs[i]), if c < k { n } else { n - 1 }, c)
}
pub open spec fn sol(a: Rows, t: Rows, p: Seq<Vec<Rat>>) -> bool {
    rrect(p, a.len(), ldim() as nat) && forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < ldim() ==> #[trigger] rdot(rowq(a, i), rcol(p, j), a.len()) == t[i]@[j] as real
}
pub open spec fn placed(m: PM, vs: Seq<u32>, p: Seq<Vec<Rat>>, n: int) -> bool {
    &&& forall|u: u32| #[trigger] m.dom().contains(u) <==> has(vs.take(n), u)
    &&& forall|i: int| 0 <= i < n ==> m[#[trigger] vs[i]].v() == rats(p[i]@)
}
pub proof fn lemma_ysum(m: PM, ix: Map<u32, usize>, vs: Seq<u32>, p: Seq<Vec<Rat>>, q: Seq<EV>, i: int, n: int, k: int)
    requires placed(m, vs, p, vs.len() as int), index_of(vs, ix), rrect(p, vs.len(), ldim() as nat), 0 <= n <= q.len(), 0 <= i < vs.len(), 0 <= k < ldim(),
        forall|t: int| 0 <= t < q.len() ==> (#[trigger] q[t]).0 == vs[i] && has(vs, q[t].1)
    ensures dsum(m, q, n, k) == rsum(q, n, k) as real - ysum(rcol(p, k), ix, q, i, n)
    decreases n
{
    if n > 0 {
        lemma_ysum(m, ix, vs, p, q, i, n - 1, k);
        let e = q[n - 1];
        let j = ix[e.1] as int;
        assert(e.0 == vs[i] && has(vs, e.1) && vs[j] == e.1);
        assert(m[vs[i]].v() == rats(p[i]@) && m[vs[j]].v() == rats(p[j]@));
        assert(p[i]@.len() == ldim() && p[j]@.len() == ldim());
        assert((rsum(q, n - 1, k) + e.2[k]) as real == rsum(q, n - 1, k) as real + e.2[k] as real);
    }
}
pub proof fn lemma_placed(es: Seq<EV>, vs: Seq<u32>, ix: Map<u32, usize>, a: Rows, t: Rows, p: Seq<Vec<Rat>>, m: PM)
    requires esok(es), isverts(vs, es), vs.len() > 0, index_of(vs, ix), sys(a, t, es, vs, ix, vs.len() as int), sol(a, t, p), placed(m, vs, p, vs.len() as int)
    ensures is_place(es, m)
{
    let n = vs.len() as int;
    assert(vs.take(n) =~= vs);
    assert(has(vs, vs[0]));
    assert forall|k: int| 0 <= k < ldim() implies pc(m, vs[0], k) == 0real by {
        assert(rdot(rowq(a, 0), rcol(p, k), a.len()) == t[0]@[k] as real);
        lemma_rdot_unit(rowq(a, 0), rcol(p, k), a.len());
        assert(t[0]@[k] == 0);
        assert(p[0]@.len() == ldim());
    }
    assert forall|ws: Seq<u32>, k: int| #[trigger] isverts(ws, es) && ws.len() > 0 && 0 <= k < ldim() implies #[trigger] pc(m, ws[0], k) == 0real by {
        assert forall|x: u32| has(ws, x) <==> has(vs, x) by { assert(has(ws, x) <==> end_of(es, es.len() as int, x)); }
        lemma_unique_u32(ws, vs);
    }
    assert forall|u: u32| #[trigger] m.dom().contains(u) <==> end_of(es, es.len() as int, u) by { assert(has(vs, u) <==> end_of(es, es.len() as int, u)); }
    assert forall|u: u32| #[trigger] m.dom().contains(u) implies m[u].v().len() == ldim() by {
        let i = choose|i: int| 0 <= i < vs.len() && vs[i] == u;
        assert(m[vs[i]].v() == rats(p[i]@)); assert(p[i]@.len() == ldim());
    }
    assert forall|i: int, k: int| 0 < i < n && 0 <= k < ldim() implies #[trigger] bal(es, m, vs[i], k) by { lemma_row_bal(es, vs, ix, a, t, p, m, i, k); }
    assert forall|u: u32, k: int| m.dom().contains(u) && 0 <= k < ldim() implies #[trigger] bal(es, m, u, k) by {
        let i = choose|i: int| 0 <= i < vs.len() && vs[i] == u;
        if i == 0 { lemma_first_bal(es, m, vs, k); } else { assert(bal(es, m, vs[i], k)); }
    }
}
pub proof fn lemma_row_bal(es: Seq<EV>, vs: Seq<u32>, ix: Map<u32, usize>, a: Rows, t: Rows, p: Seq<Vec<Rat>>, m: PM, i: int, k: int)
    requires esok(es), isverts(vs, es), index_of(vs, ix), sys(a, t, es, vs, ix, vs.len() as int), sol(a, t, p), placed(m, vs, p, vs.len() as int), 0 < i < vs.len(), 0 <= k < ldim()
    ensures bal(es, m, vs[i], k)
{
    let q = incs(es, vs[i]);
    let l = q.len() as int;
    assert forall|t: int| 0 <= t < q.len() implies (#[trigger] q[t]).0 == vs[i] && has(vs, q[t].1) by { assert(has(q, q[t])); lemma_inc_end(es, vs[i], q[t]); lemma_inc(es, es.len() as int, vs[i]); }
    lemma_ysum(m, ix, vs, p, q, i, l, k);
    assert(row_done(a, t, es, vs, ix, i));
    assert(rowq(a, i) =~= ints64(a[i]@));
    let y = rcol(p, k);
    assert(rdot(ints64(a[i]@), y, a[i]@.len()) == ysum(y, ix, q, i, l));
    assert(rdot(rowq(a, i), rcol(p, k), a.len()) == t[i]@[k] as real);
    assert(t[i]@[k] == rsum(q, l, k));
}
pub proof fn lemma_index_map(vs: Seq<u32>, s: Seq<(u32, usize)>, n: int)
    requires 0 <= n <= vs.len(), s.len() == vs.len(), forall|i: int| 0 <= i < vs.len() ==> (#[trigger] s[i]).0 == vs[i] && s[i].1 == i
    ensures index_in(vs, map_from(s, n), n)
    decreases n
{
    if n > 0 {
        lemma_index_map(vs, s, n - 1);
        let (f, g) = (map_from(s, n), map_from(s, n - 1));
        assert(s[n - 1].0 == vs[n - 1]);
        assert forall|u: u32| #[trigger] has(vs.take(n), u) implies f.dom().contains(u) && 0 <= f[u] < vs.len() && vs[f[u] as int] == u by {
            let i = choose|i: int| 0 <= i < n && vs.take(n)[i] == u;
            if i < n - 1 { assert(vs.take(n - 1)[i] == u); assert(has(vs.take(n - 1), u)); }
        }
    }
}
pub open spec fn index_in(vs: Seq<u32>, ix: Map<u32, usize>, n: int) -> bool { forall|u: u32| #[trigger] has(vs.take(n), u) ==> ix.dom().contains(u) && 0 <= ix[u] < vs.len() && vs[ix[u] as int] == u }
/// the other rows stay as they are
pub proof fn lemma_rows_kept(a0: Rows, a: Rows, t0: Rows, t: Rows, es: Seq<EV>, vs: Seq<u32>, ix: Map<u32, usize>, i: int)
    requires 0 < i < vs.len(), a0.len() == vs.len(), a.len() == vs.len(), t0.len() == vs.len(), t.len() == vs.len(), forall|l: int| 0 <= l < vs.len() && l != i ==> a[l] == a0[l] && t[l] == t0[l]
    ensures row_first(a0, t0, vs.len() as int) ==> row_first(a, t, vs.len() as int), forall|l: int| 0 <= l < vs.len() && l != i && row_done(a0, t0, es, vs, ix, l) ==> #[trigger] row_done(a, t, es, vs, ix, l),
        forall|l: int| 0 <= l < vs.len() && l != i && row_blank(a0, t0, vs.len() as int, l) ==> #[trigger] row_blank(a, t, vs.len() as int, l)
{ }
pub proof fn lemma_placed_step(m0: PM, vs: Seq<u32>, p: Seq<Vec<Rat>>, n: int, m: PM)
    requires 0 < n <= vs.len(), placed(m0, vs, p, n - 1), m.dom() == m0.dom().insert(vs[n - 1]), forall|u: u32| #[trigger] m.dom().contains(u) && u != vs[n - 1] ==> m[u] == m0[u], m[vs[n - 1]].v() == rats(p[n - 1]@),
        forall|i: int, j: int| 0 <= i < j < vs.len() ==> #[trigger] vs[i] < #[trigger] vs[j]
    ensures placed(m, vs, p, n)
{
    let (x, y) = (vs.take(n), vs.take(n - 1));
    assert forall|u: u32| #[trigger] m.dom().contains(u) <==> has(x, u) by {
        if has(x, u) { let i = choose|i: int| 0 <= i < n && x[i] == u; if i < n - 1 { assert(y[i] == u); assert(has(y, u)); } }
        if has(y, u) { let i = choose|i: int| 0 <= i < n - 1 && y[i] == u; assert(x[i] == u); }
        assert(x[n - 1] == vs[n - 1]);
    }
    assert forall|i: int| 0 <= i < n implies m[#[trigger] vs[i]].v() == rats(p[i]@) by {
        if i < n - 1 { assert(vs[i] < vs[n - 1]); assert(x[i] == vs[i]); assert(has(x, vs[i])); assert(m.dom().contains(vs[i])); }
    }
}
pub proof fn lemma_sys0(a: Rows, t: Rows, es: Seq<EV>, vs: Seq<u32>, ix: Map<u32, usize>)
    requires vs.len() > 0, a.len() == vs.len(), t.len() == vs.len(), row_first(a, t, vs.len() as int), forall|l: int| 1 <= l < vs.len() ==> #[trigger] row_blank(a, t, vs.len() as int, l)
    ensures sys(a, t, es, vs, ix, 1)
{ assert forall|l: int| 0 < l < vs.len() implies (#[trigger] a[l])@.len() == vs.len() by { assert(row_blank(a, t, vs.len() as int, l)); } }
pub proof fn lemma_sys_open(a: Rows, t: Rows, es: Seq<EV>, vs: Seq<u32>, ix: Map<u32, usize>, i: int)
    requires 0 < i < vs.len(), sys(a, t, es, vs, ix, i)
    ensures sys_row(a, t, es, vs, ix, i, 0, ldim()), arow(a[i]@, ix, incs(es, vs[i]), i, 0)
{
    assert(row_blank(a, t, vs.len() as int, i));
    lemma_arow_zero(a[i]@, ix, incs(es, vs[i]), i);
    assert forall|l: int| i < l < vs.len() implies #[trigger] row_blank(a, t, vs.len() as int, l) by { }
}
pub proof fn lemma_sys_close(a: Rows, t: Rows, es: Seq<EV>, vs: Seq<u32>, ix: Map<u32, usize>, i: int)
    requires 0 < i < vs.len(), sys_row(a, t, es, vs, ix, i, incs(es, vs[i]).len() as int, ldim()), arow(a[i]@, ix, incs(es, vs[i]), i, incs(es, vs[i]).len() as int)
    ensures sys(a, t, es, vs, ix, i + 1)
{ assert(row_done(a, t, es, vs, ix, i)); }
pub proof fn lemma_sys_len(a: Rows, t: Rows, es: Seq<EV>, vs: Seq<u32>, ix: Map<u32, usize>, i: int, n: int, k: int)
    requires 0 < i < vs.len(), sys_row(a, t, es, vs, ix, i, n, k)
    ensures a.len() == vs.len(), t.len() == vs.len(), a[i]@.len() == vs.len(), t[i]@.len() == ldim()
{ }
pub proof fn lemma_row_edge(a0: Rows, t: Rows, es: Seq<EV>, vs: Seq<u32>, ix: Map<u32, usize>, i: int, n: int, j: int, a: Rows)
    requires 0 < i < vs.len(), 0 < n <= incs(es, vs[i]).len(), sys_row(a0, t, es, vs, ix, i, n - 1, ldim()), arow(a0[i]@, ix, incs(es, vs[i]), i, n - 1), j == ix[incs(es, vs[i])[n - 1].1], 0 <= j < vs.len(),
        a.len() == a0.len(), forall|l: int| 0 <= l < a.len() && l != i ==> #[trigger] a[l] == a0[l], edge_in(a0[i]@, a[i]@, i, j)
    ensures sys_row(a, t, es, vs, ix, i, n, 0), arow(a[i]@, ix, incs(es, vs[i]), i, n)
{
    lemma_arow_step(a0[i]@, a[i]@, ix, incs(es, vs[i]), i, n);
    lemma_rows_kept(a0, a, t, t, es, vs, ix, i);
}
pub proof fn lemma_row_coord(a: Rows, t0: Rows, es: Seq<EV>, vs: Seq<u32>, ix: Map<u32, usize>, i: int, n: int, k: int, t: Rows)
    requires 0 < i < vs.len(), 0 < n <= incs(es, vs[i]).len(), 0 < k <= ldim(), sys_row(a, t0, es, vs, ix, i, n, k - 1), t.len() == t0.len(), forall|l: int| 0 <= l < t.len() && l != i ==> #[trigger] t[l] == t0[l],
        t[i]@.len() == t0[i]@.len(), forall|c: int| 0 <= c < ldim() && c != k - 1 ==> t[i]@[c] == t0[i]@[c], t[i]@[k - 1] == t0[i]@[k - 1] + incs(es, vs[i])[n - 1].2[k - 1]
    ensures sys_row(a, t, es, vs, ix, i, n, k)
{ lemma_rows_kept(a, a, t0, t, es, vs, ix, i); }
/// the vertex at the other end of the n-th edge
pub proof fn lemma_other(es: Seq<EV>, vs: Seq<u32>, ix: Map<u32, usize>, i: int, n: int)
    requires esok(es), isverts(vs, es), index_of(vs, ix), 0 <= i < vs.len(), 0 <= n < incs(es, vs[i]).len()
    ensures ix.dom().contains(incs(es, vs[i])[n].1), 0 <= ix[incs(es, vs[i])[n].1] < vs.len(), incs(es, vs[i])[n].2.len() == ldim()
{
    let q = incs(es, vs[i]);
    let e = q[n];
    assert(has(q, e));
    lemma_inc_end(es, vs[i], e);
    assert(has(vs, e.1));
    lemma_inc(es, es.len() as int, vs[i]);
}
pub proof fn lemma_p_len(p: Seq<Vec<Rat>>, n: nat, i: int) requires rrect(p, n, ldim() as nat), 0 <= i < n ensures p.len() == n, p[i]@.len() == ldim() { broadcast use axiom_ldim; assert(p[i]@.len() == ldim() as nat); }
pub proof fn lemma_solve_pre(a: Rows, t: Rows, es: Seq<EV>, vs: Seq<u32>, ix: Map<u32, usize>)
    requires sys(a, t, es, vs, ix, vs.len() as int), vs.len() > 0
    ensures a.len() == vs.len(), rect(a, a.len(), a.len()), t.len() == a.len(), rect(t, a.len(), t[0]@.len()), t[0]@.len() == ldim()
{
    assert forall|l: int| 0 <= l < a.len() implies (#[trigger] a[l])@.len() == a.len() && t[l]@.len() == ldim() by { if l > 0 { assert(row_done(a, t, es, vs, ix, l)); } }
    assert(row_first(a, t, vs.len() as int));
    assert forall|l: int| 0 <= l < t.len() implies (#[trigger] t[l])@.len() == t[0]@.len() by { assert(a[l]@.len() == a.len()); }
}
pub proof fn lemma_wf_es<C>(g: &Graph<Lab, C>) requires g.wf() ensures esok(g.es()) { }
pub open spec fn upseq(vs: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < vs.len() ==> #[trigger] vs[i] < #[trigger] vs[j] }
pub proof fn lemma_verts_sorted(vs: Seq<u32>, es: Seq<EV>) requires isverts(vs, es) ensures upseq(vs) { }
pub proof fn lemma_verts_some(es: Seq<EV>, vs: Seq<u32>) requires isverts(vs, es), end_of(es, es.len() as int, es[0].0) ensures vs.len() > 0 { assert(has(vs, es[0].0)); }
pub proof fn lemma_vert(es: Seq<EV>, vs: Seq<u32>, i: int) requires isverts(vs, es), 0 <= i < vs.len() ensures end_of(es, es.len() as int, vs[i]) { assert(has(vs, vs[i])); }
pub proof fn lemma_index_all(vs: Seq<u32>, s: Seq<(u32, usize)>)
    requires s.len() == vs.len(), forall|i: int| 0 <= i < vs.len() ==> (#[trigger] s[i]).0 == vs[i] && s[i].1 == i
    ensures index_of(vs, map_from(s, s.len() as int))
{
    lemma_index_map(vs, s, vs.len() as int);
    assert(vs.take(vs.len() as int) =~= vs);
}
pub proof fn lemma_placed0(m: PM, vs: Seq<u32>, p: Seq<Vec<Rat>>) requires m == Map::<u32, Point>::empty() ensures placed(m, vs, p, 0) { }
@fn pgraphs.rs :: barycentric_placement
    sub T=Lab BTreeMap=VMap
    generics <CS>
    param g &mut Graph<Lab, CS>
    unwrap
    vidx vidcs
    litops i64
    call as=vas to_vec=to_vec arithmetic::modular_solver::solve=solve
    collect 1 VMap
    accty 1 Vec<(u32, usize)>
@spec
    requires old(g).wf(), old(g).es().len() > 0
    ensures final(g).wf(), final(g).keeps(*old(g)), is_place(old(g).es(), res.m())
@at start
    hide(sys); hide(sys_row); hide(arow); hide(placed); hide(is_place); hide(row_blank); hide(rdot); hide(isverts); hide(esok); hide(incs); hide(index_of); hide(rect); hide(rrect); hide(mod_linv); hide(singular_mod_all);
    let ghost es = g.es();
    let ghost g0 = *g;
    proof { assert(end_of(es, es.len() as int, es[0].0)); broadcast use axiom_ldim; lemma_wf_es(g); }
@loop 1
    invariant g.wf(), g.keeps(g0), isverts(verts@, es), acc1@.len() == it1, end1 == verts@.len(), forall|i: int| 0 <= i < it1 ==> (#[trigger] acc1@[i]).0 == verts@[i] && acc1@[i].1 == i
@at after loop 1
    proof { lemma_index_all(verts@, acc1@); lemma_verts_some(es, verts@); }
@at before loop 2
    let ghost ix = vidcs.m();
    proof {
        let z = verts@.len() as int;
        assert(row_first(a@, t@, z));
        assert forall|l: int| 1 <= l < z implies #[trigger] row_blank(a@, t@, z, l) by { reveal(row_blank); }
        lemma_sys0(a@, t@, es, verts@, ix);
    }
@loop 2
    invariant g.wf(), g.keeps(g0), es == g.es(), esok(es), isverts(verts@, es), ix == vidcs.m(), index_of(verts@, ix), n == verts@.len(), n > 0, d == ldim(), 1 <= it2 <= n, sys(a@, t@, es, verts@, ix, it2 as int)
@at loop 2 start
    proof { lemma_sys_open(a@, t@, es, verts@, ix, it2 - 1); lemma_vert(es, verts@, it2 - 1); }
@loop 3
    invariant g.wf(), g.keeps(g0), es == g.es(), esok(es), isverts(verts@, es), ix == vidcs.m(), index_of(verts@, ix), n == verts@.len(), d == ldim(), 1 <= i < n, keys(seq3@) == incs(es, verts@[i as int]), end3 == seq3@.len(),
        sys_row(a@, t@, es, verts@, ix, i as int, it3 as int, ldim()), arow(a@[i as int]@, ix, incs(es, verts@[i as int]), i as int, it3 as int)
@at loop 3 start
    let ghost (a0, t0) = (a@, t@);
    let ghost q = incs(es, verts@[i as int]);
    proof {
        lemma_sys_len(a@, t@, es, verts@, ix, i as int, it3 - 1, ldim());
        lemma_other(es, verts@, ix, i as int, it3 - 1);
        assert(q[it3 - 1] == seq3@[it3 - 1].key());
    }
@at before loop 4
    proof { lemma_row_edge(a0, t0, es, verts@, ix, i as int, it3 as int, j as int, a@); }
@loop 4
    invariant d == ldim(), 1 <= i < verts@.len(), ints(s@) == q[it3 - 1].2, q[it3 - 1].2.len() == ldim(), q == incs(es, verts@[i as int]), 0 < it3 <= q.len(), sys_row(a@, t@, es, verts@, ix, i as int, it3 as int, it4 as int)
@at loop 4 start
    let ghost t1 = t@;
    proof { lemma_sys_len(a@, t@, es, verts@, ix, i as int, it3 as int, it4 - 1); }
@at loop 4 end
    proof { assert(ints(s@)[it4 - 1] == s@[it4 - 1].v()); lemma_row_coord(a@, t1, es, verts@, ix, i as int, it3 as int, it4 as int, t@); }
@at after loop 3
    proof { lemma_sys_close(a@, t@, es, verts@, ix, i as int); }
@at after loop 2
    proof { lemma_solve_pre(a@, t@, es, verts@, ix); }
@loop 5
    invariant g.wf(), g.keeps(g0), n == verts@.len(), d == ldim(), rrect(p@, n as nat, ldim() as nat), upseq(verts@), placed(result.m(), verts@, p@, it5 as int)
@at loop 5 start
    let ghost m0 = result.m();
    proof { lemma_p_len(p@, n as nat, it5 - 1); }
@at loop 5 end
    proof { lemma_placed_step(m0, verts@, p@, it5 as int, result.m()); }
@at before loop 5
    proof { assert(sol(a@, t@, p@)) by { reveal(sol); } lemma_verts_sorted(verts@, es); lemma_placed0(result.m(), verts@, p@); }
@at end
    proof { lemma_placed(es, verts@, ix, a@, t@, p@, res.m()); }
@endfn
