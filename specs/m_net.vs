@# the infinite periodic net of a graph, and distances in it
/// a vertex of the net: a vertex of the graph in one cell
pub type NV = (u32, Seq<int>);
pub open spec fn adj(es: Seq<EV>, x: NV, y: NV) -> bool { exists|d: EV| #[trigger] has(es, canon(d)) && d.0 == x.0 && d.1 == y.0 && d.2.len() == ldim() && y.1 == addl(d.2, x.1) }
/// a path of n edges
pub open spec fn path(es: Seq<EV>, x: NV, n: nat, y: NV) -> bool decreases n {
    if n == 0 { x == y } else { exists|z: NV| path(es, x, (n - 1) as nat, z) && #[trigger] adj(es, z, y) }
}
/// the shortest path from x to y has k edges
pub open spec fn dist(es: Seq<EV>, x: NV, k: nat, y: NV) -> bool { path(es, x, k, y) && forall|j: nat| j < k ==> !(#[trigger] path(es, x, j, y)) }
pub proof fn lemma_adj_sym(es: Seq<EV>, x: NV, y: NV)
    requires adj(es, x, y), x.1.len() == ldim()
    ensures adj(es, y, x), y.1.len() == ldim()
{
    let d = choose|d: EV| #[trigger] has(es, canon(d)) && d.0 == x.0 && d.1 == y.0 && d.2.len() == ldim() && y.1 == addl(d.2, x.1);
    lemma_canon(d);
    let r = rev(d);
    assert(has(es, canon(r)));
    assert(x.1 =~= addl(r.2, y.1));
}
pub proof fn lemma_path_step(es: Seq<EV>, x: NV, n: nat, z: NV, y: NV)
    requires path(es, x, n, z), adj(es, z, y)
    ensures path(es, x, n + 1, y)
{ assert(((n + 1) - 1) as nat == n); assert(path(es, x, ((n + 1) - 1) as nat, z) && adj(es, z, y)); }
pub proof fn lemma_path_pred(es: Seq<EV>, x: NV, n: nat, y: NV) -> (z: NV)
    requires path(es, x, n + 1, y)
    ensures path(es, x, n, z), adj(es, z, y)
{
    assert(((n + 1) - 1) as nat == n);
    assert(exists|z: NV| path(es, x, n, z) && #[trigger] adj(es, z, y));
    choose|z: NV| path(es, x, n, z) && #[trigger] adj(es, z, y)
}
pub proof fn lemma_path_len(es: Seq<EV>, x: NV, n: nat, y: NV)
    requires path(es, x, n, y), x.1.len() == ldim()
    ensures y.1.len() == ldim()
    decreases n
{ if n > 0 { let z = choose|z: NV| path(es, x, (n - 1) as nat, z) && #[trigger] adj(es, z, y); lemma_path_len(es, x, (n - 1) as nat, z); lemma_adj_sym(es, z, y); } }
/// the next shell: the neighbours of the k-th shell that are in neither of the two latest shells
pub proof fn lemma_shell(es: Seq<EV>, v: NV, k: nat, y: NV)
    requires v.1.len() == ldim()
    ensures dist(es, v, k + 1, y) <==> (exists|x: NV| #[trigger] dist(es, v, k, x) && adj(es, x, y)) && !(dist(es, v, k, y)) && !(k > 0 && dist(es, v, (k - 1) as nat, y))
{
    if dist(es, v, k + 1, y) {
        let x = lemma_path_pred(es, v, k, y);
        assert forall|j: nat| j < k implies !(#[trigger] path(es, v, j, x)) by { if path(es, v, j, x) { lemma_path_step(es, v, j, x, y); assert(path(es, v, (j + 1) as nat, y)); } }
        assert(dist(es, v, k, x));
        assert(!path(es, v, k, y)); if k > 0 { assert(!path(es, v, (k - 1) as nat, y)); }
    }
    if (exists|x: NV| #[trigger] dist(es, v, k, x) && adj(es, x, y)) && !(dist(es, v, k, y)) && !(k > 0 && dist(es, v, (k - 1) as nat, y)) {
        let x = choose|x: NV| #[trigger] dist(es, v, k, x) && adj(es, x, y);
        lemma_path_step(es, v, k, x, y);
        lemma_path_len(es, v, k, x);
        lemma_adj_sym(es, x, y);
        assert forall|j: nat| j < k + 1 implies !(#[trigger] path(es, v, j, y)) by {
            if path(es, v, j, y) { lemma_first(es, v, j, y); let i = choose|i: nat| i <= j && dist(es, v, i, y); lemma_path_step(es, v, i, y, x); assert(path(es, v, (i + 1) as nat, x)); assert(i + 1 >= k); }
        }
    }
}
pub proof fn lemma_first(es: Seq<EV>, v: NV, j: nat, y: NV)
    requires path(es, v, j, y)
    ensures exists|i: nat| i <= j && dist(es, v, i, y)
    decreases j
{
    if !dist(es, v, j, y) { let l = choose|l: nat| l < j && path(es, v, l, y); lemma_first(es, v, l, y); let i = choose|i: nat| i <= l && dist(es, v, i, y); assert(i <= j); }
}
/// moving both ends by a lattice vector changes no path
pub open spec fn moved(x: NV, t: Seq<int>) -> NV { (x.0, addl(x.1, t)) }
pub proof fn lemma_adj_moved(es: Seq<EV>, x: NV, y: NV, t: Seq<int>)
    requires adj(es, x, y), x.1.len() == ldim(), t.len() == ldim()
    ensures adj(es, moved(x, t), moved(y, t))
{
    let d = choose|d: EV| #[trigger] has(es, canon(d)) && d.0 == x.0 && d.1 == y.0 && d.2.len() == ldim() && y.1 == addl(d.2, x.1);
    assert(addl(addl(d.2, x.1), t) =~= addl(d.2, addl(x.1, t)));
}
pub proof fn lemma_path_moved(es: Seq<EV>, x: NV, n: nat, y: NV, t: Seq<int>)
    requires path(es, x, n, y), x.1.len() == ldim(), t.len() == ldim()
    ensures path(es, moved(x, t), n, moved(y, t))
    decreases n
{
    if n > 0 {
        let z = lemma_path_pred(es, x, (n - 1) as nat, y);
        lemma_path_moved(es, x, (n - 1) as nat, z, t); lemma_path_len(es, x, (n - 1) as nat, z); lemma_adj_moved(es, z, y, t);
        lemma_path_step(es, moved(x, t), (n - 1) as nat, moved(z, t), moved(y, t));
    }
}
pub proof fn lemma_translates(es: Seq<EV>, x: NV, n: nat, y: NV, t: Seq<int>)
    requires x.1.len() == ldim(), y.1.len() == ldim(), t.len() == ldim()
    ensures dist(es, x, n, y) <==> dist(es, moved(x, t), n, moved(y, t))
{
    assert(moved(moved(x, t), negl(t)).1 =~= x.1 && moved(moved(y, t), negl(t)).1 =~= y.1);
    assert forall|m: nat| #[trigger] path(es, x, m, y) == path(es, moved(x, t), m, moved(y, t)) by {
        assert(moved(moved(x, t), negl(t)) == x && moved(moved(y, t), negl(t)) == y && negl(t).len() == ldim());
        if path(es, x, m, y) { lemma_path_moved(es, x, m, y, t); }
        if path(es, moved(x, t), m, moved(y, t)) { lemma_path_moved(es, moved(x, t), m, moved(y, t), negl(t)); }
    }
    assert forall|m: nat| #[trigger] path(es, moved(x, t), m, moved(y, t)) == path(es, x, m, y) by { assert(path(es, x, m, y) == path(es, moved(x, t), m, moved(y, t))); }
}
pub proof fn lemma_adj_end(es: Seq<EV>, x: NV, y: NV)
    requires adj(es, x, y)
    ensures end_of(es, es.len() as int, y.0)
{
    let d = choose|d: EV| #[trigger] has(es, canon(d)) && d.0 == x.0 && d.1 == y.0 && d.2.len() == ldim() && y.1 == addl(d.2, x.1);
    let i = choose|i: int| 0 <= i < es.len() && es[i] == canon(d);
    assert(es[i].0 == y.0 || es[i].1 == y.0);
}
pub open spec fn joined(es: Seq<EV>, x: NV, y: NV) -> bool { exists|n: nat| #[trigger] path(es, x, n, y) }
pub open spec fn at0(v: u32) -> NV { (v, zerol(ldim())) }
pub proof fn lemma_joined_step(es: Seq<EV>, x: NV, z: NV, y: NV)
    requires joined(es, x, z), adj(es, z, y)
    ensures joined(es, x, y)
{ let n = choose|n: nat| #[trigger] path(es, x, n, z); lemma_path_step(es, x, n, z, y); }
pub proof fn lemma_joined_refl(es: Seq<EV>, x: NV)
    ensures joined(es, x, x)
{ assert(path(es, x, 0, x)); }
pub proof fn lemma_path_trans(es: Seq<EV>, x: NV, y: NV, n: nat, z: NV)
    requires joined(es, x, y), path(es, y, n, z)
    ensures joined(es, x, z)
    decreases n
{
    if n > 0 { let w = lemma_path_pred(es, y, (n - 1) as nat, z); lemma_path_trans(es, x, y, (n - 1) as nat, w); lemma_joined_step(es, x, w, z); }
}
pub proof fn lemma_joined_trans(es: Seq<EV>, x: NV, y: NV, z: NV)
    requires joined(es, x, y), joined(es, y, z)
    ensures joined(es, x, z)
{ let n = choose|n: nat| #[trigger] path(es, y, n, z); lemma_path_trans(es, x, y, n, z); }
pub proof fn lemma_path_sym(es: Seq<EV>, x: NV, n: nat, y: NV)
    requires path(es, x, n, y), x.1.len() == ldim()
    ensures joined(es, y, x), y.1.len() == ldim()
    decreases n
{
    if n == 0 { lemma_joined_refl(es, x); }
    else {
        let w = lemma_path_pred(es, x, (n - 1) as nat, y);
        lemma_path_sym(es, x, (n - 1) as nat, w);
        lemma_adj_sym(es, w, y);
        lemma_joined_refl(es, y); lemma_joined_step(es, y, y, w);
        lemma_joined_trans(es, y, w, x);
    }
}
pub proof fn lemma_joined_sym(es: Seq<EV>, x: NV, y: NV)
    requires joined(es, x, y), x.1.len() == ldim()
    ensures joined(es, y, x), y.1.len() == ldim()
{ let n = choose|n: nat| #[trigger] path(es, x, n, y); lemma_path_sym(es, x, n, y); }
pub proof fn lemma_joined_moved(es: Seq<EV>, x: NV, y: NV, t: Seq<int>)
    requires joined(es, x, y), x.1.len() == ldim(), t.len() == ldim()
    ensures joined(es, moved(x, t), moved(y, t))
{ let n = choose|n: nat| #[trigger] path(es, x, n, y); lemma_path_moved(es, x, n, y, t); }
/// some copy of u can be reached from v
pub open spec fn meets(es: Seq<EV>, v: u32, u: u32) -> bool { exists|t: Seq<int>| t.len() == ldim() && #[trigger] joined(es, at0(v), (u, t)) }
