@# The lattice of the cycle shifts of a component, its rank and its index
pub type ZV = Seq<int>;
/// t leads from v to one of its copies
pub open spec fn cyc(es: Seq<EV>, v: u32, t: ZV) -> bool { t.len() == ldim() && joined(es, at0(v), (v, t)) }
pub open spec fn cycp(es: Seq<EV>, v: u32) -> spec_fn(ZV) -> bool { |t: ZV| cyc(es, v, t) }
pub open spec fn shifts_of(r: Seq<EV>) -> Seq<ZV> { Seq::new(r.len(), |i: int| r[i].2) }
pub proof fn lemma_cyc_group(es: Seq<EV>, v: u32, a: ZV, b: ZV)
    requires cyc(es, v, a), cyc(es, v, b)
    ensures cyc(es, v, addl(a, b)), cyc(es, v, negl(a)), cyc(es, v, zerol(ldim()))
{
    lemma_joined_refl(es, at0(v));
    let (x, y) = ((v, a), (v, b));
    lemma_joined_moved(es, at0(v), y, a);
    assert(moved(at0(v), a).1 =~= a);
    assert(moved(y, a).1 =~= addl(a, b));
    lemma_joined_trans(es, at0(v), x, (v, addl(a, b)));
    lemma_joined_sym(es, at0(v), x);
    lemma_joined_moved(es, x, at0(v), negl(a));
    assert(moved(x, negl(a)).1 =~= zerol(ldim()));
    assert(moved(at0(v), negl(a)).1 =~= negl(a));
}
pub proof fn lemma_cyc_mul(es: Seq<EV>, v: u32, a: ZV, k: int)
    requires cyc(es, v, a)
    ensures cyc(es, v, LinZ::comb(a, k, zerol(ldim()), 0))
    decreases (if k < 0 { 1 - k } else { k })
{
    let z = zerol(ldim());
    if k == 0 { lemma_cyc_group(es, v, a, a); assert(LinZ::comb(a, 0, z, 0) =~= z); }
    else if k > 0 {
        lemma_cyc_mul(es, v, a, k - 1);
        lemma_cyc_group(es, v, LinZ::comb(a, k - 1, z, 0), a);
        assert forall|i: int| 0 <= i < a.len() implies k * a[i] == (k - 1) * a[i] + a[i] by { assert(k * a[i] == (k - 1) * a[i] + a[i]) by (nonlinear_arith); }
        assert(addl(LinZ::comb(a, k - 1, z, 0), a) =~= LinZ::comb(a, k, z, 0));
    } else {
        lemma_cyc_mul(es, v, a, -k);
        lemma_cyc_group(es, v, LinZ::comb(a, -k, z, 0), a);
        assert forall|i: int| 0 <= i < a.len() implies k * a[i] == -((-k) * a[i]) by { assert(k * a[i] == -((-k) * a[i])) by (nonlinear_arith); }
        assert(negl(LinZ::comb(a, -k, z, 0)) =~= LinZ::comb(a, k, z, 0));
    }
}
pub proof fn lemma_cyc_sub(es: Seq<EV>, v: u32)
    ensures LinZ::sub(cycp(es, v), ldim())
{
    broadcast use axiom_ldim;
    let p = cycp(es, v);
    let z = zerol(ldim());
    assert(p(LinZ::zero(ldim()))) by { lemma_joined_refl(es, at0(v)); assert(LinZ::zero(ldim()) =~= z); }
    assert forall|a: ZV, x: int, b: ZV, y: int| a.len() == ldim() && b.len() == ldim() && p(a) && p(b) implies p(#[trigger] LinZ::comb(a, x, b, y)) by {
        lemma_cyc_mul(es, v, a, x); lemma_cyc_mul(es, v, b, y);
        lemma_cyc_group(es, v, LinZ::comb(a, x, z, 0), LinZ::comb(b, y, z, 0));
        assert(addl(LinZ::comb(a, x, z, 0), LinZ::comb(b, y, z, 0)) =~= LinZ::comb(a, x, b, y));
    }
}
/// what trav says of one rewritten edge
pub proof fn lemma_trav_edge(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, r: Seq<EV>, i: int)
    requires trav(es, v, s, c, r), 0 <= i < r.len()
    ensures r.len() == c.len(), has(es, c[i]), s.dom().contains(c[i].0), s.dom().contains(c[i].1), r[i].2 == subl(addl(s[c[i].0].v(), c[i].2), s[c[i].1].v()),
        joined(es, at0(v), (c[i].0, s[c[i].0].v())), joined(es, at0(v), (c[i].1, s[c[i].1].v()))
{
    let e = c[i];
    assert(has(c, e));
    let j = choose|j: int| 0 <= j < es.len() && es[j] == e;
    assert(s.dom().contains(es[j].0) == s.dom().contains(es[j].1));
}
/// the shift of an edge of the net between two vertices of one component is a cycle shift, up to the shifts of its ends
pub proof fn lemma_edge_cyc(es: Seq<EV>, v: u32, e: EV, a: ZV, b: ZV)
    requires has(es, e), esok(es), a.len() == ldim(), b.len() == ldim(), joined(es, at0(v), (e.0, a)), joined(es, at0(v), (e.1, b))
    ensures cyc(es, v, subl(addl(a, e.2), b))
{
    hide(joined);
    broadcast use axiom_ldim;
    let j = choose|j: int| 0 <= j < es.len() && es[j] == e;
    lemma_canon(es[j]);
    let (x, y, w) = ((e.0, a), (e.1, addl(e.2, a)), (e.1, b));
    assert(has(es, canon(e)) && e.2.len() == ldim());
    assert(adj(es, x, y));
    lemma_joined_step(es, at0(v), x, y);
    lemma_joined_sym(es, at0(v), w);
    let t = subl(addl(a, e.2), b);
    lemma_joined_moved(es, w, at0(v), t);
    assert(moved(w, t).1 =~= y.1);
    assert(moved(at0(v), t).1 =~= t);
    lemma_joined_trans(es, at0(v), y, (v, t));
}
/// the shifts of the rewritten edges are cycle shifts
pub proof fn lemma_gens_cyc(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, r: Seq<EV>, i: int)
    requires trav(es, v, s, c, r), esok(es), 0 <= i < r.len()
    ensures cyc(es, v, r[i].2), r[i].2.len() == ldim()
{
    lemma_trav_edge(es, v, s, c, r, i);
    axiom_lab(s[c[i].0]); axiom_lab(s[c[i].1]);
    lemma_edge_cyc(es, v, c[i], s[c[i].0].v(), s[c[i].1].v());
}
/// where the traversal lists an edge of the component
pub proof fn lemma_trav_has(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, r: Seq<EV>, e: EV) -> (i: int)
    requires trav(es, v, s, c, r), has(es, e), s.dom().contains(e.0) || s.dom().contains(e.1)
    ensures 0 <= i < r.len(), r.len() == c.len(), c[i] == e, s.dom().contains(e.0), s.dom().contains(e.1), r[i].2 == subl(addl(s[e.0].v(), e.2), s[e.1].v())
{
    let j = choose|j: int| 0 <= j < es.len() && es[j] == e;
    assert(s.dom().contains(es[j].0) == s.dom().contains(es[j].1));
    assert(has(c, e));
    choose|i: int| 0 <= i < c.len() && c[i] == e
}
/// the edge of the net under a step, as found by the traversal
pub proof fn lemma_adj_trav(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, r: Seq<EV>, x: NV, y: NV) -> (o: (int, bool))
    requires trav(es, v, s, c, r), adj(es, x, y), s.dom().contains(x.0), x.1.len() == ldim()
    ensures 0 <= o.0 < r.len(), s.dom().contains(y.0), y.1.len() == ldim(), r[o.0].2.len() == ldim(),
        subl(y.1, s[y.0].v()) == LinZ::comb(subl(x.1, s[x.0].v()), 1, r[o.0].2, if o.1 { 1 } else { -1 })
{
    hide(trav);
    let d = choose|d: EV| #[trigger] has(es, canon(d)) && d.0 == x.0 && d.1 == y.0 && d.2.len() == ldim() && y.1 == addl(d.2, x.1);
    let i = lemma_trav_has(es, v, s, c, r, canon(d));
    axiom_lab(s[x.0]); axiom_lab(s[y.0]);
    let a = subl(x.1, s[x.0].v());
    let g = r[i].2;
    if canon(d) == d { assert(LinZ::comb(a, 1, g, 1) =~= subl(y.1, s[y.0].v())); (i, true) }
    else { assert(LinZ::comb(a, 1, g, -1) =~= subl(y.1, s[y.0].v())); (i, false) }
}
/// a lattice with the shifts of the rewritten edges holds the shift of every path, up to the shifts of its ends
pub proof fn lemma_path_in(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, r: Seq<EV>, p: spec_fn(ZV) -> bool, n: nat, y: NV)
    requires trav(es, v, s, c, r), esok(es), LinZ::sub(p, ldim()), LinZ::all(p, shifts_of(r)), path(es, at0(v), n, y)
    ensures s.dom().contains(y.0), y.1.len() == ldim(), p(subl(y.1, s[y.0].v()))
    decreases n
{
    hide(trav); hide(adj);
    broadcast use axiom_ldim;
    let z = LinZ::zero(ldim());
    if n == 0 { reveal(trav); axiom_lab(s[v]); assert(subl(y.1, s[y.0].v()) =~= z); }
    else {
        let x = lemma_path_pred(es, at0(v), (n - 1) as nat, y);
        lemma_path_in(es, v, s, c, r, p, (n - 1) as nat, x);
        let o = lemma_adj_trav(es, v, s, c, r, x, y);
        let g = r[o.0].2;
        assert(p(shifts_of(r)[o.0]));
        axiom_lab(s[x.0]);
        let a = subl(x.1, s[x.0].v());
        assert(p(LinZ::comb(a, 1, g, if o.1 { 1 } else { -1 })));
    }
}
/// the shifts of the rewritten edges generate the lattice of the cycle shifts
pub proof fn lemma_cyc_lattice(es: Seq<EV>, v: u32, s: SM, c: Seq<EV>, r: Seq<EV>)
    requires trav(es, v, s, c, r), esok(es)
    ensures LinZ::width(shifts_of(r), ldim()), forall|t: ZV| #[trigger] LinZ::spans(shifts_of(r), ldim(), t) <==> cyc(es, v, t),
        forall|u: u32| #[trigger] s.dom().contains(u) <==> meets(es, v, u)
{
    broadcast use axiom_ldim;
    let m = shifts_of(r);
    let d = ldim();
    let p = cycp(es, v);
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).len() == d && p(m[i]) by { lemma_gens_cyc(es, v, s, c, r, i); }
    lemma_cyc_sub(es, v);
    let q = |t: ZV| LinZ::spans(m, d, t);
    LinZ::lemma_spans_sub(m, d);
    assert forall|t: ZV| #[trigger] LinZ::spans(m, d, t) <==> cyc(es, v, t) by {
        if LinZ::spans(m, d, t) {
            let k = choose|k: ZV| k.len() == m.len() && t == #[trigger] LinZ::lc(k, m, d, m.len() as int);
            LinZ::lemma_lc_in(p, k, m, d, m.len() as int);
            assert(p(t));
        }
        if cyc(es, v, t) {
            let n = choose|n: nat| #[trigger] path(es, at0(v), n, (v, t));
            lemma_path_in(es, v, s, c, r, q, n, (v, t));
            assert(subl(t, zerol(d)) =~= t);
            assert(q(t));
        }
    }
    assert forall|u: u32| #[trigger] s.dom().contains(u) <==> meets(es, v, u) by {
        if s.dom().contains(u) { broadcast use axiom_lab; assert(joined(es, at0(v), (u, s[u].v()))); }
        if meets(es, v, u) {
            let t = choose|t: ZV| t.len() == d && #[trigger] joined(es, at0(v), (u, t));
            let n = choose|n: nat| #[trigger] path(es, at0(v), n, (u, t));
            lemma_path_in(es, v, s, c, r, q, n, (u, t));
        }
    }
}
/// the product of the first k diagonal entries
pub open spec fn diag(b: Seq<ZV>, k: int) -> int decreases k { if k <= 0 { 1 } else { diag(b, k - 1) * b[k - 1][k - 1] } }
pub open spec fn prod(m: ZV, k: int) -> int decreases k { if k <= 0 { 1 } else { prod(m, k - 1) * m[k - 1] } }
/// y lies in the box with the sides m
pub open spec fn in_box(m: ZV, y: ZV) -> bool { y.len() == m.len() && forall|i: int| 0 <= i < y.len() ==> 0 <= #[trigger] y[i] < m[i] }
/// every integer vector differs from exactly one of the vectors of a box with k cells by a vector of p: the lattice p has index k
pub open spec fn index_is(p: spec_fn(ZV) -> bool, n: int, k: int) -> bool { exists|m: ZV| m.len() == n && prod(m, n) == k && #[trigger] cosets(p, n, m) }
pub open spec fn cosets(p: spec_fn(ZV) -> bool, n: int, m: ZV) -> bool {
    &&& forall|i: int| 0 <= i < n ==> #[trigger] m[i] > 0
    &&& forall|x: ZV| x.len() == n ==> #[trigger] has_rep(p, m, x)
    &&& forall|y: ZV, z: ZV| in_box(m, y) && in_box(m, z) && #[trigger] p(subl(y, z)) ==> y == z
}
pub open spec fn has_rep(p: spec_fn(ZV) -> bool, m: ZV, x: ZV) -> bool { exists|y: ZV| in_box(m, y) && #[trigger] p(subl(x, y)) }
pub open spec fn sides(b: Seq<ZV>) -> ZV { Seq::new(b.len(), |i: int| iabs(b[i][i])) }
pub proof fn lemma_diag_piv(b: Seq<ZV>, n: int, i: int)
    requires LinZ::echelon(b, n), b.len() == n, 0 <= i < n
    ensures LinZ::piv(b[i]) == i, b[i][i] != 0, forall|j: int| 0 <= j < i ==> #[trigger] b[i][j] == 0
    decreases n - i
{
    LinZ::lemma_ech_len(b, n, i);
    if i < n - 1 { lemma_diag_piv(b, n, i + 1); assert(LinZ::piv(b[i]) < LinZ::piv(b[i + 1])); }
    assert(b[i].len() == n);
    LinZ::lemma_piv(b[i]);
}
pub proof fn lemma_prod(b: Seq<ZV>, k: int)
    requires 0 <= k <= b.len()
    ensures prod(sides(b), k) == iabs(diag(b, k))
    decreases k
{
    if k > 0 {
        lemma_prod(b, k - 1);
        let (x, y) = (diag(b, k - 1), b[k - 1][k - 1]);
        assert(iabs(x * y) == iabs(x) * iabs(y)) by (nonlinear_arith) requires iabs(x) == (if x < 0 { -x } else { x }), iabs(y) == (if y < 0 { -y } else { y }), iabs(x * y) == (if x * y < 0 { -(x * y) } else { x * y });
    }
}
/// with the first i entries in the box already
pub proof fn lemma_rep(b: Seq<ZV>, n: int, x: ZV, i: int) -> (y: ZV)
    requires LinZ::echelon(b, n), b.len() == n, x.len() == n, 0 <= i <= n, forall|j: int| 0 <= j < i ==> 0 <= #[trigger] x[j] < iabs(b[j][j])
    ensures in_box(sides(b), y), LinZ::spans(b, n, subl(x, y))
    decreases n - i
{
    let p = |t: ZV| LinZ::spans(b, n, t);
    LinZ::lemma_spans_sub(b, n);
    let z = LinZ::zero(n);
    if i == n { assert(subl(x, x) =~= z); assert(p(z)); x }
    else {
        lemma_diag_piv(b, n, i);
        let g = b[i][i];
        let q = if g > 0 { x[i] / g } else { -(x[i] / (-g)) };
        let w = LinZ::comb(x, 1, b[i], -q);
        assert(0 <= x[i] - q * g < iabs(g)) by (nonlinear_arith) requires g != 0, q == (if g > 0 { x[i] / g } else { -(x[i] / (-g)) }), iabs(g) == (if g < 0 { -g } else { g });
        assert(w[i] == x[i] - q * g) by { assert((-q) * g == -(q * g)) by (nonlinear_arith); }
        assert forall|j: int| 0 <= j < i + 1 implies 0 <= #[trigger] w[j] < iabs(b[j][j]) by { if j < i { assert(b[i][j] == 0); assert((-q) * b[i][j] == 0) by (nonlinear_arith) requires b[i][j] == 0; } }
        let y = lemma_rep(b, n, w, i + 1);
        assert(p(b[i]));
        assert(p(LinZ::comb(subl(w, y), 1, b[i], q)));
        assert forall|j: int| 0 <= j < n implies w[j] - y[j] + q * b[i][j] == x[j] - y[j] by { assert((-q) * b[i][j] == -(q * b[i][j])) by (nonlinear_arith); }
        assert(LinZ::comb(subl(w, y), 1, b[i], q) =~= subl(x, y));
        y
    }
}
pub proof fn lemma_index(b: Seq<ZV>, n: int, p: spec_fn(ZV) -> bool)
    requires LinZ::echelon(b, n), b.len() == n, n >= 0, forall|t: ZV| #[trigger] LinZ::spans(b, n, t) <==> p(t)
    ensures index_is(p, n, iabs(diag(b, n)))
{
    let m = sides(b);
    lemma_prod(b, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] m[i] > 0 by { lemma_diag_piv(b, n, i); }
    assert forall|x: ZV| x.len() == n implies #[trigger] has_rep(p, m, x) by { let y = lemma_rep(b, n, x, 0); assert(p(subl(x, y))); }
    assert forall|y: ZV, z: ZV| in_box(m, y) && in_box(m, z) && #[trigger] p(subl(y, z)) implies y == z by {
        let v = subl(y, z);
        assert(LinZ::spans(b, n, v));
        LinZ::lemma_piv(v);
        if LinZ::piv(v) < n {
            let (r, c) = LinZ::lemma_spans_lead(b, n, v);
            lemma_diag_piv(b, n, r);
            let (g, h) = (b[r][r], v[r]);
            assert(-m[r] < h < m[r]);
            assert(false) by (nonlinear_arith) requires h == c * g, h != 0, -iabs(g) < h, h < iabs(g), iabs(g) == (if g < 0 { -g } else { g });
        }
        assert forall|i: int| 0 <= i < n implies y[i] == z[i] by { assert(v[i] == 0); }
        assert(y =~= z);
    }
    assert(cosets(p, n, m));
}
