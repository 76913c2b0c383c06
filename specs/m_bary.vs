@# what a barycentric placement is, and that a connected net has only one
/// the average, spelled out
pub open spec fn nsum(m: PM, q: Seq<EV>, n: int, k: int) -> real decreases n { if n <= 0 { 0real } else { nsum(m, q, n - 1, k) + (pc(m, q[n - 1].1, k) + q[n - 1].2[k] as real) } }
pub proof fn lemma_average(m: PM, q: Seq<EV>, v: u32, n: int, k: int)
    requires 0 <= n <= q.len(), forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).0 == v
    ensures dsum(m, q, n, k) == nsum(m, q, n, k) - n as real * pc(m, v, k)
    decreases n
{
    if n > 0 {
        lemma_average(m, q, v, n - 1, k);
        let x = pc(m, v, k);
        assert(q[n - 1].0 == v);
        assert(n as real * x == (n - 1) as real * x + x) by (nonlinear_arith);
    } else { assert(0real * pc(m, v, k) == 0real) by (nonlinear_arith); }
}
pub open spec fn tot(es: Seq<EV>, m: PM, vs: Seq<u32>, n: int, j: int, k: int) -> real decreases n {
    if n <= 0 { 0real } else { tot(es, m, vs, n - 1, j, k) + dsum(m, inc(es, j, vs[n - 1]), inc(es, j, vs[n - 1]).len() as int, k) }
}
pub open spec fn pick(vs: Seq<u32>, n: int, u: u32, x: real) -> real { if has(vs.take(n), u) { x } else { 0real } }
pub proof fn lemma_pick(vs: Seq<u32>, n: int, u: u32, x: real)
    requires 0 < n <= vs.len(), forall|i: int, j: int| 0 <= i < j < vs.len() ==> #[trigger] vs[i] < #[trigger] vs[j]
    ensures pick(vs, n, u, x) == pick(vs, n - 1, u, x) + (if vs[n - 1] == u { x } else { 0real })
{
    let (a, b) = (vs.take(n), vs.take(n - 1));
    if has(a, u) { let i = choose|i: int| 0 <= i < n && a[i] == u; if i < n - 1 { assert(b[i] == u); } else { assert(vs[n - 1] == u); } }
    if has(b, u) { let i = choose|i: int| 0 <= i < n - 1 && b[i] == u; assert(a[i] == u); assert(vs[i] < vs[n - 1]); }
    if vs[n - 1] == u { assert(a[n - 1] == u); }
}
pub proof fn lemma_dsum_push(m: PM, q: Seq<EV>, e: EV, n: int, k: int)
    requires 0 <= n <= q.len()
    ensures dsum(m, q.push(e), n, k) == dsum(m, q, n, k)
    decreases n
{ if n > 0 { lemma_dsum_push(m, q, e, n - 1, k); } }
pub proof fn lemma_dsum_app(m: PM, q: Seq<EV>, e: EV, v: u32, k: int)
    ensures dsum(m, app(q, e, v), app(q, e, v).len() as int, k) == dsum(m, q, q.len() as int, k) + (if v == e.0 { dl(m, e, k) } else { 0real })
{ lemma_dsum_push(m, q, e, q.len() as int, k); }
pub proof fn lemma_tot_step(es: Seq<EV>, m: PM, vs: Seq<u32>, n: int, j: int, k: int)
    requires 0 <= n <= vs.len(), 0 < j <= es.len(), forall|i: int, j: int| 0 <= i < j < vs.len() ==> #[trigger] vs[i] < #[trigger] vs[j]
    ensures tot(es, m, vs, n, j, k) == tot(es, m, vs, n, j - 1, k) + pick(vs, n, es[j - 1].0, dl(m, es[j - 1], k)) + pick(vs, n, rev(es[j - 1]).0, dl(m, rev(es[j - 1]), k))
    decreases n
{
    let (e, f) = (es[j - 1], rev(es[j - 1]));
    if n == 0 { assert(vs.take(0) =~= seq![]); }
    else {
        lemma_tot_step(es, m, vs, n - 1, j, k);
        let v = vs[n - 1];
        let p = inc(es, j - 1, v);
        lemma_dsum_app(m, p, e, v, k);
        lemma_dsum_app(m, app(p, e, v), f, v, k);
        lemma_pick(vs, n, e.0, dl(m, e, k));
        lemma_pick(vs, n, f.0, dl(m, f, k));
    }
}
/// over all vertices everything cancels
pub proof fn lemma_tot(es: Seq<EV>, m: PM, vs: Seq<u32>, j: int, k: int)
    requires esok(es), isverts(vs, es), 0 <= j <= es.len(), 0 <= k < ldim()
    ensures tot(es, m, vs, vs.len() as int, j, k) == 0real
    decreases j
{
    let n = vs.len() as int;
    if j == 0 { lemma_tot0(es, m, vs, n, k); }
    else {
        lemma_tot(es, m, vs, j - 1, k);
        lemma_tot_step(es, m, vs, n, j, k);
        let e = es[j - 1];
        assert(vs.take(n) =~= vs);
        assert(has(vs, e.0) && has(vs, e.1)) by { assert(es[j - 1].0 == e.0); }
        assert(e.2.len() == ldim());
        assert(dl(m, rev(e), k) == -dl(m, e, k));
    }
}
pub proof fn lemma_tot0(es: Seq<EV>, m: PM, vs: Seq<u32>, n: int, k: int)
    ensures tot(es, m, vs, n, 0, k) == 0real
    decreases n
{ if n > 0 { lemma_tot0(es, m, vs, n - 1, k); } }
pub proof fn lemma_tot_first(es: Seq<EV>, m: PM, vs: Seq<u32>, n: int, k: int)
    requires 0 < n <= vs.len(), forall|i: int| 0 < i < n ==> #[trigger] bal(es, m, vs[i], k)
    ensures tot(es, m, vs, n, es.len() as int, k) == dsum(m, incs(es, vs[0]), incs(es, vs[0]).len() as int, k)
    decreases n
{
    if n > 1 { lemma_tot_first(es, m, vs, n - 1, k); assert(bal(es, m, vs[n - 1], k)); }
    else { assert(tot(es, m, vs, 0, es.len() as int, k) == 0real); }
}
/// if all vertices but the first are at the average of their neighbours, so is the first
pub proof fn lemma_first_bal(es: Seq<EV>, m: PM, vs: Seq<u32>, k: int)
    requires esok(es), isverts(vs, es), vs.len() > 0, 0 <= k < ldim(), forall|i: int| 0 < i < vs.len() ==> #[trigger] bal(es, m, vs[i], k)
    ensures bal(es, m, vs[0], k)
{
    lemma_tot(es, m, vs, es.len() as int, k);
    lemma_tot_first(es, m, vs, vs.len() as int, k);
}
/// any vertex can be reached from any other
pub open spec fn linked(es: Seq<EV>) -> bool { forall|u: u32, w: u32| end_of(es, es.len() as int, u) && end_of(es, es.len() as int, w) ==> #[trigger] meets(es, u, w) }
pub open spec fn diff(a: PM, b: PM, k: int, u: u32) -> real { pc(a, u, k) - pc(b, u, k) }
pub proof fn lemma_argmax(a: PM, b: PM, k: int, vs: Seq<u32>, n: int) -> (i: int)
    requires 0 < n <= vs.len()
    ensures 0 <= i < n, forall|j: int| 0 <= j < n ==> diff(a, b, k, #[trigger] vs[j]) <= diff(a, b, k, vs[i])
    decreases n
{
    if n == 1 { 0 } else {
        let i = lemma_argmax(a, b, k, vs, n - 1);
        if diff(a, b, k, vs[n - 1]) > diff(a, b, k, vs[i]) { n - 1 } else { i }
    }
}
/// at the largest difference all neighbours have it, too
pub proof fn lemma_max_step(a: PM, b: PM, q: Seq<EV>, v: u32, n: int, k: int, t: int)
    requires 0 <= n <= q.len(), forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).0 == v && diff(a, b, k, q[i].1) <= diff(a, b, k, v)
    ensures dsum(a, q, n, k) - dsum(b, q, n, k) <= 0real, 0 <= t < n && dsum(a, q, n, k) - dsum(b, q, n, k) == 0real ==> diff(a, b, k, q[t].1) == diff(a, b, k, v)
    decreases n
{
    if n > 0 {
        lemma_max_step(a, b, q, v, n - 1, k, t);
        let e = q[n - 1];
        assert(e.0 == v);
        assert(dl(a, e, k) - dl(b, e, k) == diff(a, b, k, e.1) - diff(a, b, k, v));
    }
}
pub proof fn lemma_max_path(es: Seq<EV>, a: PM, b: PM, v: u32, n: nat, y: NV, k: int)
    requires esok(es), is_place(es, a), is_place(es, b), 0 <= k < ldim(), a.dom().contains(v), path(es, at0(v), n, y), forall|u: u32| #[trigger] a.dom().contains(u) ==> diff(a, b, k, u) <= diff(a, b, k, v)
    ensures a.dom().contains(y.0), diff(a, b, k, y.0) == diff(a, b, k, v)
    decreases n
{
    if n > 0 {
        let x = lemma_path_pred(es, at0(v), (n - 1) as nat, y);
        lemma_max_path(es, a, b, v, (n - 1) as nat, x, k);
        let d = choose|d: EV| #[trigger] has(es, canon(d)) && d.0 == x.0 && d.1 == y.0 && d.2.len() == ldim() && y.1 == addl(d.2, x.1);
        let q = incs(es, x.0);
        lemma_inc(es, es.len() as int, x.0);
        assert(es.take(es.len() as int) =~= es);
        lemma_canon(d);
        let j = choose|j: int| 0 <= j < es.len() && es[j] == canon(d);
        assert(canon(d).2.len() == ldim()) by { assert(es[j].2.len() == ldim()); }
        assert(has(q, d));
        let t = choose|t: int| 0 <= t < q.len() && q[t] == d;
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0 == x.0 && diff(a, b, k, q[i].1) <= diff(a, b, k, x.0) by {
            assert(has(q, q[i]));
            lemma_inc_end(es, x.0, q[i]);
            assert(a.dom().contains(q[i].1));
        }
        assert(bal(es, a, x.0, k) && bal(es, b, x.0, k)) by { assert(b.dom().contains(x.0)); }
        lemma_max_step(a, b, q, x.0, q.len() as int, k, t);
        lemma_inc_end(es, x.0, d);
    }
}
pub proof fn lemma_inc_end(es: Seq<EV>, v: u32, d: EV)
    requires esok(es), has(incs(es, v), d)
    ensures end_of(es, es.len() as int, d.1), end_of(es, es.len() as int, d.0), d.2.len() == ldim()
{
    lemma_inc(es, es.len() as int, v);
    assert(es.take(es.len() as int) =~= es);
    lemma_canon(d);
    let j = choose|j: int| 0 <= j < es.len() && es[j] == canon(d);
    assert(es[j].2.len() == ldim());
    assert((es[j].0 == d.1 || es[j].1 == d.1) && (es[j].0 == d.0 || es[j].1 == d.0));
}
/// a linked net has only one placement
pub proof fn lemma_place_unique(es: Seq<EV>, vs: Seq<u32>, a: PM, b: PM, u: u32)
    requires esok(es), isverts(vs, es), linked(es), is_place(es, a), is_place(es, b), a.dom().contains(u)
    ensures b.dom().contains(u), a[u].v() == b[u].v()
{
    assert(has(vs, u));
    assert forall|k: int| 0 <= k < ldim() implies a[u].v()[k] == b[u].v()[k] by {
        lemma_place_le(es, vs, a, b, u, k);
        lemma_place_le(es, vs, b, a, u, k);
    }
    assert(b.dom().contains(u));
    assert(a[u].v().len() == ldim() && b[u].v().len() == ldim());
    assert(a[u].v() =~= b[u].v());
}
pub proof fn lemma_place_le(es: Seq<EV>, vs: Seq<u32>, a: PM, b: PM, u: u32, k: int)
    requires esok(es), isverts(vs, es), linked(es), is_place(es, a), is_place(es, b), end_of(es, es.len() as int, u), 0 <= k < ldim()
    ensures diff(a, b, k, u) <= 0real
{
    assert(has(vs, u));
    let i = lemma_argmax(a, b, k, vs, vs.len() as int);
    let v = vs[i];
    assert(has(vs, v) && has(vs, vs[0]));
    assert forall|w: u32| #[trigger] a.dom().contains(w) implies diff(a, b, k, w) <= diff(a, b, k, v) by {
        assert(has(vs, w));
        let j = choose|j: int| 0 <= j < vs.len() && vs[j] == w;
        assert(diff(a, b, k, vs[j]) <= diff(a, b, k, vs[i]));
    }
    assert(meets(es, v, vs[0]));
    let t = choose|t: Seq<int>| t.len() == ldim() && #[trigger] joined(es, at0(v), (vs[0], t));
    let n = choose|n: nat| #[trigger] path(es, at0(v), n, (vs[0], t));
    lemma_max_path(es, a, b, v, n, (vs[0], t), k);
    assert(pc(a, vs[0], k) == 0real && pc(b, vs[0], k) == 0real);
    assert(a.dom().contains(u));
}
