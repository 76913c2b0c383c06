use crate::arith::Wd;
use crate::ctx::*;
use crate::ensure;
use crate::oracle::{self, q, Q, QM};
use num_traits::{One, Signed, ToPrimitive, Zero};
use rust_systre::pgraphs::{graph_component_measures, Edge, Graph, LabelVector, LabelVector2d, LabelVector3d, Vector};
use rust_systre::symmetries as sy;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// oracle model of a labelled quotient graph: (head, tail, shift)
pub type E = (u32, u32, Vec<i32>);
type V2 = LabelVector2d<Wd>;
type V3 = LabelVector3d<Wd>;

fn rev(e: &E) -> E { (e.1, e.0, e.2.iter().map(|x| -x).collect()) }
fn canon(e: &E) -> E {
    let neg = e.2.iter().find(|x| **x != 0).map_or(false, |x| *x < 0);
    if e.1 < e.0 || (e.0 == e.1 && neg) { rev(e) } else { e.clone() }
}
fn norm(es: &[E]) -> Vec<E> { es.iter().map(canon).collect::<BTreeSet<_>>().into_iter().collect() }
fn verts(es: &[E]) -> Vec<u32> { es.iter().flat_map(|e| [e.0, e.1]).collect::<BTreeSet<_>>().into_iter().collect() }
/// directed edges of the graph (edges given twice, or together with their reverse, count once)
fn directed(es: &[E]) -> Vec<E> { let mut d = norm(es); let r: Vec<E> = d.iter().map(rev).collect(); d.extend(r); d }
pub fn es_str(es: &[E]) -> String {
    es.iter().map(|e| format!("{}-{}{:?}", e.0, e.1, e.2)).collect::<Vec<_>>().join(" ")
}

fn mk<T: LabelVector<Wd>>(es: &[E]) -> Graph<T, Wd> {
    Graph::new(&es.iter().map(|e| Edge::new(e.0, e.1, T::from_vec(&e.2))).collect::<Vec<_>>())
}
fn ue<T: LabelVector<Wd>>(e: &Edge<T, Wd>) -> E { (e.head, e.tail, e.shift.to_vec()) }
fn ed<T: LabelVector<Wd>>(e: &E) -> Edge<T, Wd> { Edge::new(e.0, e.1, T::from_vec(&e.2)) }

/// unreduced edges of a graph, read from directed_edges
fn edges_of<T: LabelVector<Wd>>(g: &Graph<T, Wd>) -> Vec<E> { norm(&g.directed_edges().iter().map(ue).collect::<Vec<_>>()) }

fn components(es: &[E]) -> Vec<Vec<u32>> {
    let mut out: Vec<Vec<u32>> = vec![];
    let mut seen = HashSet::new();
    for v in verts(es) {
        if seen.contains(&v) { continue }
        let mut c = vec![v];
        seen.insert(v);
        let mut i = 0;
        while i < c.len() {
            for e in directed(es) { if e.0 == c[i] && seen.insert(e.1) { c.push(e.1) } }
            i += 1;
        }
        c.sort();
        out.push(c);
    }
    out
}

/// (size, rank, index) of the component of v in the covering graph
fn measures(es: &[E], v: u32, d: usize) -> (usize, usize, Option<i128>) {
    let comp = components(es).into_iter().find(|c| c.contains(&v)).unwrap();
    // potentials along a spanning tree, cycle shifts
    let mut pot: BTreeMap<u32, Vec<i32>> = BTreeMap::from([(v, vec![0; d])]);
    let mut queue = vec![v];
    while let Some(x) = queue.pop() {
        for e in directed(es) {
            if e.0 == x && !pot.contains_key(&e.1) {
                let p = (0..d).map(|k| pot[&x][k] + e.2[k]).collect();
                pot.insert(e.1, p);
                queue.push(e.1);
            }
        }
    }
    let cyc: Vec<Vec<i64>> = es.iter().filter(|e| pot.contains_key(&e.0))
        .map(|e| (0..d).map(|k| (pot[&e.0][k] + e.2[k] - pot[&e.1][k]) as i64).collect()).collect();
    let h = oracle::hnf(&cyc);
    let idx = if h.len() == d { Some((0..d).map(|i| h[i][i]).product()) } else { None };
    (comp.len(), h.len(), idx)
}

fn connected(es: &[E], d: usize) -> bool {
    let v = verts(es);
    if v.is_empty() { return true }
    let m = measures(es, v[0], d);
    m.0 == v.len() && m.2 == Some(1)
}

/// barycentric positions, first vertex at the origin
pub fn positions(es: &[E], d: usize) -> BTreeMap<u32, Vec<Q>> {
    let vs = verts(es);
    let ix: HashMap<u32, usize> = vs.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let n = vs.len();
    let mut m: QM = vec![vec![q(0); n + d]; n];
    m[0][0] = q(1);
    for i in 1..n {
        for e in directed(es) {
            if e.0 == vs[i] {
                m[i][i] += q(1);
                m[i][ix[&e.1]] -= q(1);
                for k in 0..d { m[i][n + k] += q(e.2[k] as i64); }
            }
        }
    }
    let r = oracle::rref(&m);
    assert!(r.len() == n);
    vs.iter().enumerate().map(|(i, v)| (*v, r[i][n..].to_vec())).collect()
}
fn evec(pos: &BTreeMap<u32, Vec<Q>>, e: &E) -> Vec<Q> {
    (0..e.2.len()).map(|k| &pos[&e.1][k] + q(e.2[k] as i64) - &pos[&e.0][k]).collect()
}
fn locally_stable(es: &[E], pos: &BTreeMap<u32, Vec<Q>>) -> bool {
    let mut seen = HashSet::new();
    directed(es).iter().all(|e| seen.insert((e.0, evec(pos, e))))
}
fn stable(pos: &BTreeMap<u32, Vec<Q>>) -> bool {
    let mut seen = HashSet::new();
    pos.values().all(|p| seen.insert(oracle::fracs(p)))
}

fn random_edges(g: &mut Rng, d: usize) -> Vec<E> {
    let n = g.us(1, 5);
    let m = n - 1 + g.us(d, d + 3);
    let mag = if g.chance(1, 4) { 2 } else { 1 };
    let base = if g.chance(1, 5) { g.int(0, 40) as u32 } else { 1 };
    let step = if g.chance(1, 5) { 3 } else { 1 };
    let mut es: Vec<E> = (0..m).map(|_| {
        let (h, t) = (g.us(1, n) as u32, g.us(1, n) as u32);
        (base + step * h, base + step * t, (0..d).map(|_| if g.chance(1, 2) { 0 } else { g.int(-mag, mag) as i32 }).collect())
    }).collect();
    es.retain(|e: &E| e.0 != e.1 || e.2.iter().any(|x| *x != 0));
    es
}

/// integer base change (unimodular) and its inverse applied to shifts
fn unimodular(g: &mut Rng, d: usize) -> Vec<Vec<i32>> {
    let mut m: Vec<Vec<i32>> = (0..d).map(|i| (0..d).map(|j| (i == j) as i32).collect()).collect();
    for _ in 0..g.us(1, 3) {
        let (i, j) = (g.us(0, d - 1), g.us(0, d - 1));
        if i == j { for k in 0..d { m[i][k] = -m[i][k]; } }
        else { let f = if g.chance(1, 2) { 1 } else { -1 }; for k in 0..d { m[i][k] += f * m[j][k]; } }
    }
    m
}
fn rebase(es: &[E], m: &Vec<Vec<i32>>) -> Vec<E> {
    es.iter().map(|e| (e.0, e.1, m.iter().map(|r| r.iter().zip(&e.2).map(|(a, b)| a * b).sum()).collect())).collect()
}
/// move vertices by lattice vectors, rename them, present edges differently
fn represent(g: &mut Rng, es: &[E], d: usize) -> Vec<E> {
    let vs = verts(es);
    let mut names: Vec<u32> = (0..vs.len() as u32).map(|i| 1 + i).collect();
    g.shuffle(&mut names);
    let nm: HashMap<u32, u32> = vs.iter().cloned().zip(names).collect();
    let off: HashMap<u32, Vec<i32>> = vs.iter().map(|v| (*v, (0..d).map(|_| g.int(-1, 1) as i32).collect())).collect();
    let mut out: Vec<E> = es.iter().map(|e| (nm[&e.0], nm[&e.1],
        (0..d).map(|k| e.2[k] + off[&e.1][k] - off[&e.0][k]).collect())).collect();
    present(g, &mut out);
    out
}
fn present(g: &mut Rng, es: &mut Vec<E>) {
    for i in 0..es.len() {
        if g.chance(1, 2) { es[i] = rev(&es[i]); }
        if g.chance(1, 4) { let e = if g.chance(1, 2) { es[i].clone() } else { rev(&es[i]) }; es.push(e); }
    }
    g.shuffle(es);
}

fn lib(d: usize) -> Vec<Vec<E>> {
    let f2 = |v: &[(u32, u32, i32, i32)]| v.iter().map(|e| (e.0, e.1, vec![e.2, e.3])).collect::<Vec<E>>();
    let f3 = |v: &[(u32, u32, i32, i32, i32)]| v.iter().map(|e| (e.0, e.1, vec![e.2, e.3, e.4])).collect::<Vec<E>>();
    if d == 2 { vec![
        f2(&[(1, 2, 0, 0), (1, 2, 1, 0), (1, 2, 0, 1)]),
        f2(&[(1, 1, 1, 0), (1, 1, 0, 1)]),
        f2(&[(1, 1, 1, 0), (1, 1, 0, 1), (1, 1, 1, 1)]),
        f2(&[(1, 1, 1, 0), (1, 1, 0, 1), (1, 1, 1, 1), (1, 1, 1, -1)]),
        f2(&[(1, 2, 0, 0), (1, 2, -1, 0), (1, 2, 0, -1), (1, 2, -1, -1)]),
        f2(&[(1, 2, 0, 0), (2, 3, 0, 0), (3, 1, 1, 0), (1, 2, 0, 1), (2, 3, 0, 1), (3, 1, 1, 1)]),
        f2(&[(1, 2, 0, 0), (1, 3, 0, 0), (2, 3, 0, 0), (1, 2, 1, 0), (1, 3, 0, 1), (2, 3, -1, 1)]),
        f2(&[(1, 2, 0, 0), (1, 2, 1, 0), (3, 4, 0, 0), (3, 4, 1, 0), (1, 3, 0, 0), (2, 4, 0, 0), (1, 3, 0, 1), (2, 4, 0, 1)]),
        f2(&[(1, 2, 0, 0), (2, 3, 0, 0), (3, 4, 0, 0), (4, 1, 0, 0), (1, 3, 1, 0), (2, 4, 0, 1)]),
        // ladders
        f2(&[(1, 2, 0, 0), (1, 1, 1, 0), (1, 1, 0, 1), (2, 2, 1, 0), (2, 2, 0, 1)]),
        f2(&[(1, 2, 0, 0), (2, 3, 0, 0), (3, 4, 0, 0), (4, 1, 1, 0), (1, 3, 0, 0), (2, 4, 0, 0), (1, 1, 0, 1), (2, 2, 0, 1), (3, 3, 0, 1), (4, 4, 0, 1)]),
        f2(&[(1, 2, 0, 0), (3, 4, 0, 0), (1, 3, 0, 0), (3, 1, 1, 0), (2, 4, 0, 0), (4, 2, 1, 0), (1, 1, 0, 1), (2, 2, 0, 1), (3, 3, 0, 1), (4, 4, 0, 1)]),
    ] } else { vec![
        f3(&[(1, 2, 0, 0, 0), (1, 2, 1, 0, 0), (1, 2, 0, 1, 0), (1, 2, 0, 0, 1)]),
        f3(&[(1, 1, 1, 0, 0), (1, 1, 0, 1, 0), (1, 1, 0, 0, 1)]),
        f3(&[(1, 1, -1, 1, 1), (1, 1, 0, -1, 1), (1, 1, 0, 0, -1)]),
        f3(&[(1, 2, 0, 0, 0), (1, 3, 0, 0, 0), (1, 4, 0, 0, 0), (2, 3, 1, 0, 0), (3, 4, 0, 1, 0), (4, 2, 0, 0, 1)]),
        f3(&[(1, 2, 0, 0, 0), (1, 2, -1, 0, 0), (1, 2, 0, -1, 0), (1, 2, 0, 0, -1), (1, 2, -1, -1, 0), (1, 2, -1, 0, -1), (1, 2, 0, -1, -1), (1, 2, -1, -1, -1)]),
        f3(&[(1, 2, 0, 0, 0), (1, 1, 1, 0, 0), (1, 1, 0, 1, 0), (2, 2, 1, 0, 0), (2, 2, 0, 1, 0), (1, 1, 0, 0, 1), (2, 2, 0, 0, 1)]),
        f3(&[(1, 2, 0, 0, 0), (1, 2, 2, 0, 0), (1, 2, 0, 2, 0), (1, 2, 0, 0, 2), (1, 1, 1, 0, 0), (2, 2, 1, 0, 0)]),
    ] }
}

/// replace one vertex by n copies of it with the same neighbours: they coincide
fn split(g: &mut Rng, es: &[E], n: usize) -> Vec<E> {
    let v = *g.pick(&verts(es));
    let top = *verts(es).last().unwrap();
    let mut out = vec![];
    for e in es { for k in 0..n as u32 {
        let f = |x: u32| if x == v && k > 0 { top + k } else { x };
        out.push((f(e.0), f(e.1), e.2.clone()));
    } }
    present(g, &mut out);
    out
}

/// cover of es by the sublattice with basis rows m (index |det m|)
fn cover(es: &[E], m: &Vec<Vec<i64>>) -> Vec<E> {
    let d = m.len();
    let h = oracle::hnf(m);
    let hq: QM = h.iter().map(|r| r.iter().map(|x| q(*x as i64)).collect()).collect();
    let inv = oracle::inverse(&hq).unwrap();
    // split x = coset representative + combination of rows of h
    let split = |x: &Vec<i64>| -> (Vec<i64>, Vec<i32>) {
        let mut r = x.clone();
        for i in 0..d { let f = r[i].div_euclid(h[i][i] as i64); for k in 0..d { r[k] -= f * h[i][k] as i64; } }
        let diff: Vec<Q> = (0..d).map(|k| q(x[k] - r[k])).collect();
        let c = oracle::mul(&vec![diff], &inv);
        (r, c[0].iter().map(|x| x.to_integer().to_i32().unwrap()).collect())
    };
    let mut reps: Vec<Vec<i64>> = vec![vec![]];
    for i in 0..d {
        reps = reps.into_iter().flat_map(|r| (0..h[i][i] as i64).map(move |x| { let mut s = r.clone(); s.push(x); s })).collect();
    }
    let id: HashMap<Vec<i64>, u32> = reps.iter().enumerate().map(|(i, r)| (r.clone(), i as u32)).collect();
    let k = reps.len() as u32;
    let mut out = vec![];
    for e in es {
        for r in &reps {
            let x: Vec<i64> = (0..d).map(|i| r[i] + e.2[i] as i64).collect();
            let (t, c) = split(&x);
            out.push((e.0 * k + id[r] + 1, e.1 * k + id[&t] + 1, c));
        }
    }
    out
}

type Auto = (BTreeMap<u32, u32>, BTreeMap<E, E>, QM);

/// isomorphisms between two locally stable connected graphs, by brute force
/// over images of d independent directed edges and of one vertex
fn isos(a: &[E], b: &[E], d: usize) -> Vec<Auto> {
    let (pa, pb) = (positions(a, d), positions(b, d));
    let (da, db) = (directed(&norm(a)), directed(&norm(b)));
    if pa.len() != pb.len() || da.len() != db.len() { return vec![] }
    let mut base: Vec<Vec<Q>> = vec![];
    for e in &da {
        let v = evec(&pa, e);
        let mut t = base.clone(); t.push(v.clone());
        if oracle::rank(&t) == t.len() { base.push(v) }
        if base.len() == d { break }
    }
    let binv = oracle::inverse(&base).unwrap();
    let vecs_b: Vec<Vec<Q>> = db.iter().map(|e| evec(&pb, e)).collect::<HashSet<_>>().into_iter().collect();
    let look: HashMap<(u32, Vec<Q>), E> = db.iter().map(|e| ((e.0, evec(&pb, e)), e.clone())).collect();
    let mut out = vec![];
    let v0 = *pa.keys().next().unwrap();
    let mut idx = vec![0usize; d];
    loop {
        // rows: base_i -> vecs_b[idx_i]; matrix acting on columns: M = (base^-1 * img)^T
        let img: QM = idx.iter().map(|&i| vecs_b[i].clone()).collect();
        let m = oracle::transpose(&oracle::mul(&binv, &img));
        if m.iter().all(|r| r.iter().all(|x| x.is_integer())) && oracle::det(&m).abs().is_one() {
            for &w in pb.keys() {
                if let Some((vm, em)) = extend(&da, &pa, &look, &m, v0, w) { out.push((vm, em, m.clone())); }
            }
        }
        let mut i = 0;
        while i < d && idx[i] + 1 == vecs_b.len() { idx[i] = 0; i += 1; }
        if i == d { break }
        idx[i] += 1;
    }
    out
}

fn apply(m: &QM, v: &[Q]) -> Vec<Q> { m.iter().map(|r| r.iter().zip(v).fold(q(0), |s, (x, y)| s + x * y)).collect() }

fn extend(da: &[E], pa: &BTreeMap<u32, Vec<Q>>, look: &HashMap<(u32, Vec<Q>), E>, m: &QM, v0: u32, w0: u32)
    -> Option<(BTreeMap<u32, u32>, BTreeMap<E, E>)>
{
    let mut vm = BTreeMap::from([(v0, w0)]);
    let mut em = BTreeMap::new();
    let mut todo = vec![v0];
    while let Some(v) = todo.pop() {
        for e in da.iter().filter(|e| e.0 == v) {
            let f = look.get(&(vm[&v], apply(m, &evec(pa, e))))?;
            match vm.get(&e.1) {
                Some(w) => if *w != f.1 { return None },
                None => { vm.insert(e.1, f.1); todo.push(e.1); }
            }
            em.insert(e.clone(), f.clone());
        }
    }
    let img: HashSet<_> = vm.values().collect();
    let eimg: HashSet<_> = em.values().collect();
    if img.len() == vm.len() && eimg.len() == em.len() { Some((vm, em)) } else { None }
}

fn orbits<T: Clone + Eq + std::hash::Hash + Ord>(xs: &[T], maps: &[BTreeMap<T, T>]) -> BTreeSet<BTreeSet<T>> {
    let mut out = BTreeSet::new();
    for x in xs {
        let mut o = BTreeSet::from([x.clone()]);
        loop {
            let k = o.len();
            for m in maps { for y in o.clone() { o.insert(m[&y].clone()); } }
            if o.len() == k { break }
        }
        out.insert(o);
    }
    out
}

fn graph_input(ctx: &mut Ctx, k: usize, d: usize, covers: bool) -> Vec<E> {
    let l = lib(d);
    let g = &mut ctx.rng;
    let mut es = if k < l.len() { l[k].clone() } else if g.chance(1, 3) { g.pick(&l).clone() } else { random_edges(g, d) };
    if covers && g.chance(1, 2) && es.len() <= 6 && !es.is_empty() {
        loop {
            let m: Vec<Vec<i64>> = (0..d).map(|_| (0..d).map(|_| g.int(-1, 2)).collect()).collect();
            let dt = oracle::det(&oracle::qm(&m)).abs().to_integer().to_i64().unwrap();
            if dt == 2 || (dt == 3 && g.chance(1, 2)) || (dt == 4 && es.len() <= 3 && g.chance(1, 3)) { es = cover(&es, &m); break }
        }
    }
    if k >= l.len() {
        if g.chance(2, 3) { let m = unimodular(g, d); es = rebase(&es, &m); }
        es = represent(g, &es, d);
    }
    es
}

fn dims(ctx: &mut Ctx, n: usize, f: &mut dyn FnMut(&mut Ctx, usize, usize)) {
    for k in 0..n { f(ctx, k, 2); if k % 2 == 0 { f(ctx, k / 2, 3); } }
}

macro_rules! by_dim {
    ($d:expr, $f:ident ( $($a:expr),* )) => { if $d == 2 { $f::<V2>($($a),*) } else { $f::<V3>($($a),*) } };
}

// ---------------------------------------------------------------- G01

pub fn g01(ctx: &mut Ctx) {
    for _ in 0..ctx.n(1500, 20) {
        let d = ctx.rng.us(2, 3);
        let m = *ctx.rng.pick(&[1, 2, 1000, 1 << 29]);
        let v: Vec<i32> = (0..d).map(|_| if ctx.rng.chance(1, 3) { 0 } else { ctx.rng.int(-m, m) as i32 }).collect();
        let w: Vec<i32> = (0..d).map(|_| if ctx.rng.chance(1, 3) { 0 } else { ctx.rng.int(-m, m) as i32 }).collect();
        let (h, t) = (ctx.rng.int(0, 3) as u32, ctx.rng.int(0, 3) as u32);
        ctx.case("labels and edges", format!("{:?} {:?} edge {}-{}", v, w, h, t), || by_dim!(d, labels(&v, &w, h, t)));
    }
    let n = ctx.n(250, 20);
    dims(ctx, n, &mut |ctx, k, d| {
        let es = graph_input(ctx, k, d, false);
        if es.is_empty() { return }
        let mut es2 = es.clone();
        present(&mut ctx.rng, &mut es2);
        ctx.case("graph normalisation", format!("{} | {}", es_str(&es), es_str(&es2)), || by_dim!(d, normal(&es, &es2)));
    });
}

fn labels<T: LabelVector<Wd>>(v: &Vec<i32>, w: &Vec<i32>, h: u32, t: u32) -> Result<(), String> {
    let (a, b) = (T::from_vec(v), T::from_vec(w));
    ensure!(T::dim() == v.len() && a.to_vec() == *v, "to_vec");
    ensure!((a + b).to_vec() == v.iter().zip(w).map(|(x, y)| x + y).collect::<Vec<_>>(), "sum");
    ensure!((a - b).to_vec() == v.iter().zip(w).map(|(x, y)| x - y).collect::<Vec<_>>(), "difference");
    ensure!((-a).to_vec() == v.iter().map(|x| -x).collect::<Vec<_>>(), "negation");
    ensure!(T::zero().to_vec().iter().all(|x| *x == 0) && T::zero().is_zero(), "zero");
    let first = v.iter().find(|x| **x != 0).cloned().unwrap_or(0);
    ensure!(a.is_zero() == (first == 0) && a.is_negative() == (first < 0) && a.is_positive() == (first > 0), "sign of {:?}", v);
    ensure!((a == b) == (v == w) && a.cmp(&b) == v.cmp(w), "order");
    let e = Edge::new(h, t, a);
    ensure!(ue(&e) == (h, t, v.clone()) && ue(&-&e) == rev(&ue(&e)) && -&-&e == e, "reversal");
    let c = e.canonical();
    ensure!(ue(&c) == canon(&ue(&e)), "canonical form of {:?} is {:?}", ue(&e), ue(&c));
    ensure!(c == (-&e).canonical() && c == c.canonical(), "canonical form depends on the presentation");
    Ok(())
}

fn normal<T: LabelVector<Wd> + std::fmt::Display>(es: &[E], es2: &[E]) -> Result<(), String> {
    let (g, h) = (mk::<T>(es), mk::<T>(es2));
    let ns = norm(es);
    ensure!(g.to_string() == h.to_string(), "presentations give different graphs");
    ensure!(g.to_string().lines().count() == ns.len(), "number of edges");
    // query in an unusual order, repeatedly
    let vs = verts(es);
    for v in vs.iter().rev() {
        let mut got: Vec<E> = g.incidences(v).iter().map(ue).collect();
        let mut exp: Vec<E> = directed(&ns).into_iter().filter(|e| e.0 == *v).collect();
        got.sort(); exp.sort();
        ensure!(got == exp, "incidences of {}: {:?}", v, got);
        ensure!(g.incidences(v) == g.incidences(v), "incidences change");
    }
    ensure!(g.vertices() == vs && g.vertices() == h.vertices(), "vertices {:?}", g.vertices());
    let mut got: Vec<E> = g.directed_edges().iter().map(ue).collect();
    let mut exp = directed(&ns);
    got.sort(); exp.sort();
    ensure!(got == exp, "directed edges");
    ensure!(g.directed_edges() == h.directed_edges(), "order of directed edges depends on the presentation");
    let e: Vec<String> = ns.iter().map(|e| format!("{} --{}-> {}", e.0, T::from_vec(&e.2), e.1)).collect();
    ensure!(g.to_string().lines().collect::<Vec<_>>() == e, "printed edges {}", g);
    Ok(())
}

// ---------------------------------------------------------------- G02

fn shells(es: &[E], v: u32, d: usize, k: usize) -> Vec<usize> {
    let dir = directed(&norm(es));
    let mut all: HashSet<(u32, Vec<i32>)> = HashSet::from([(v, vec![0; d])]);
    let mut cur: Vec<(u32, Vec<i32>)> = all.iter().cloned().collect();
    let mut out = vec![];
    for _ in 0..k {
        let mut nx = vec![];
        for (w, s) in &cur { for e in &dir { if e.0 == *w {
            let x = (e.1, (0..d).map(|i| s[i] + e.2[i]).collect::<Vec<_>>());
            if all.insert(x.clone()) { nx.push(x) }
        } } }
        out.push(nx.len());
        cur = nx;
    }
    out
}

pub fn g02(ctx: &mut Ctx) {
    let n = ctx.n(150, 20);
    dims(ctx, n, &mut |ctx, k, d| {
        let es = graph_input(ctx, k, d, true);
        if es.is_empty() { return }
        let len = if d == 2 { ctx.rng.us(6, 10) } else { ctx.rng.us(3, 5) };
        ctx.case("shell sizes", format!("{} terms, {}", len, es_str(&es)), || by_dim!(d, coord(&es, d, len)));
    });
}

fn coord<T: LabelVector<Wd>>(es: &[E], d: usize, len: usize) -> Result<(), String> {
    let g = mk::<T>(es);
    for v in verts(es) {
        let got: Vec<usize> = g.coordination_sequence(&v).take(len).collect();
        let exp = shells(es, v, d, len);
        ensure!(got == exp, "vertex {}: {:?} instead of {:?}", v, got, exp);
    }
    Ok(())
}

// ---------------------------------------------------------------- G03

pub fn g03(ctx: &mut Ctx) {
    let n = ctx.n(300, 20);
    dims(ctx, n, &mut |ctx, k, d| {
        let mut es = graph_input(ctx, k, d, true);
        if !es.is_empty() && es.len() <= 6 && ctx.rng.chance(1, 3) { let n = ctx.rng.us(2, 4); es = split(&mut ctx.rng, &es, n); }
        if es.is_empty() || components(&es).len() != 1 { return }
        let order = ctx.rng.int(0, 3);
        ctx.case("placement", format!("order {} {}", order, es_str(&es)), || by_dim!(d, place(&es, d, order)));
    });
}

fn place<T: LabelVector<Wd>>(es: &[E], d: usize, order: i64) -> Result<(), String> {
    let g = mk::<T>(es);
    let ns = norm(es);
    let pos = positions(es, d);
    let v: Vec<u32> = verts(es);
    if order == 1 { let _ = g.is_stable(); }
    if order == 2 { let _ = g.edge_by_unique_delta(v.last().unwrap(), &Vector::zero(d)); }
    if order == 3 { let _ = g.position(v.last().unwrap()); }
    for x in &v {
        let p: Vec<Q> = g.position(x).into_iter().collect();
        ensure!(p == pos[x], "position of {}: {:?} instead of {:?}", x, p, pos[x]);
        let pn: Vec<Q> = g.position_normalized(x).into_iter().collect();
        ensure!(pn == oracle::fracs(&pos[x]), "normalised position of {}", x);
    }
    let mut sums: HashMap<u32, Vec<Q>> = HashMap::new();
    for e in directed(&ns) {
        let w: Vec<Q> = g.edge_vector(&ed::<T>(&e)).into_iter().collect();
        ensure!(w == evec(&pos, &e), "vector of {:?}: {:?}", e, w);
        let s = sums.entry(e.0).or_insert(vec![q(0); d]);
        for k in 0..d { s[k] += &w[k]; }
    }
    ensure!(sums.values().all(|s| s.iter().all(|x| x.is_zero())), "edge vectors at a vertex do not cancel");
    ensure!(g.is_stable() == stable(&pos), "is_stable = {}", g.is_stable());
    ensure!(g.is_locally_stable() == locally_stable(&ns, &pos), "is_locally_stable = {}", g.is_locally_stable());
    let mut keys = HashSet::new();
    let mut coll = false;
    for x in &v {
        let mut ds: Vec<Vec<Q>> = directed(&ns).iter().filter(|e| e.0 == *x).map(|e| evec(&pos, e)).collect();
        ds.sort();
        if !keys.insert((oracle::fracs(&pos[x]), ds.clone())) { coll = true }
        let probe = ds.iter().cloned().chain([vec![q(7); d], vec![q(0); d]]);
        for w in probe {
            let hits: Vec<E> = directed(&ns).into_iter().filter(|e| e.0 == *x && evec(&pos, e) == w).collect();
            let got = g.edge_by_unique_delta(x, &Vector::new(&w)).map(|e| ue(&e));
            let exp = if hits.len() == 1 { Some(hits[0].clone()) } else { None };
            ensure!(got == exp, "edge at {} with vector {:?}: {:?}", x, w, got);
        }
    }
    ensure!(g.has_second_order_collisions() == coll, "has_second_order_collisions = {}", !coll);
    for x in v.iter().rev() {
        ensure!(g.position(x).into_iter().collect::<Vec<_>>() == pos[x], "position of {} changed", x);
    }
    Ok(())
}

// ---------------------------------------------------------------- G04

pub fn g04(ctx: &mut Ctx) {
    let n = ctx.n(300, 20);
    dims(ctx, n, &mut |ctx, k, d| {
        let mut es = graph_input(ctx, k, d, true);
        if ctx.rng.chance(1, 4) {
            let off = 100;
            let o = graph_input(ctx, 1000, d, false);
            es.extend(o.iter().map(|e| (e.0 + off, e.1 + off, e.2.clone())));
        }
        if ctx.rng.chance(1, 3) { let f = ctx.rng.int(2, 3) as i32; let c = ctx.rng.us(0, d - 1); for e in es.iter_mut() { e.2[c] *= f; } }
        if es.is_empty() { return }
        ctx.case("connectivity", es_str(&es), || by_dim!(d, conn(&es, d)));
    });
}

fn conn<T: LabelVector<Wd>>(es: &[E], d: usize) -> Result<(), String> {
    let g = mk::<T>(es);
    ensure!(g.is_connected() == connected(es, d), "is_connected = {}", g.is_connected());
    for v in verts(es) {
        let (s, r, m) = graph_component_measures(&g, &v);
        let e = measures(es, v, d);
        ensure!((s, r, m.map(|x| x as i128)) == e, "component of {}: {:?} instead of {:?}", v, (s, r, m), e);
    }
    let h = edges_of(&g.shift_normalized());
    let ns = norm(es);
    ensure!(h.len() == ns.len() && verts(&h) == verts(es), "shift normalisation changes vertices or edges: {}", es_str(&h));
    // zero-shift edges connect every component
    let z: Vec<E> = h.iter().filter(|e| e.2.iter().all(|x| *x == 0)).cloned().collect();
    for c in components(es) {
        if c.len() == 1 { continue }
        ensure!(components(&z).contains(&c), "zero shifts do not connect {:?}: {}", c, es_str(&h));
    }
    // the new shifts differ from the old ones by offsets at the vertices
    let comps = components(es);
    for c in &comps {
        let a: Vec<E> = ns.iter().filter(|e| c.contains(&e.0)).cloned().collect();
        let b: BTreeSet<E> = h.iter().filter(|e| c.contains(&e.0)).cloned().collect();
        let pot = BTreeMap::from([(c[0], vec![0; d])]);
        ensure!(offsets(&a, &b, pot, d), "not the same periodic graph: {} -> {}", es_str(&a), es_str(&h));
    }
    Ok(())
}

fn offsets(a: &[E], b: &BTreeSet<E>, pot: BTreeMap<u32, Vec<i32>>, d: usize) -> bool {
    let moved = |e: &E, p: &BTreeMap<u32, Vec<i32>>| canon(&(e.0, e.1, (0..d).map(|k| e.2[k] + p[&e.1][k] - p[&e.0][k]).collect()));
    for e in a { if pot.contains_key(&e.0) && pot.contains_key(&e.1) && !b.contains(&moved(e, &pot)) { return false } }
    let nx = directed(a).into_iter().find(|e| pot.contains_key(&e.0) && !pot.contains_key(&e.1));
    match nx {
        None => a.iter().map(|e| moved(e, &pot)).collect::<BTreeSet<_>>() == *b,
        Some(e) => directed(&b.iter().cloned().collect::<Vec<_>>()).iter().filter(|f| f.0 == e.0 && f.1 == e.1).any(|f| {
            let mut p = pot.clone();
            p.insert(e.1, (0..d).map(|k| f.2[k] - e.2[k] + pot[&e.0][k]).collect());
            offsets(a, b, p, d)
        })
    }
}

// ---------------------------------------------------------------- S01

fn sym_ok(es: &[E], d: usize, max_edges: usize) -> bool {
    if es.is_empty() || norm(es).len() > max_edges || !connected(es, d) { return false }
    let pos = positions(es, d);
    locally_stable(&norm(es), &pos)
}

#[cfg(verif_hooks)]
fn autos<T: LabelVector<Wd>>(g: &Graph<T, Wd>) -> Vec<Auto> {
    g.symmetries().iter().map(|a| (
        a.verif_vertex_map().iter().map(|(x, y)| (*x, *y)).collect(),
        a.verif_edge_map().iter().map(|(x, y)| (ue(x), ue(y))).collect(),
        crate::arith::un(&a.verif_transform().linear_matrix()),
    )).collect()
}

/// without the hooks only the number of symmetries is visible
#[cfg(not(verif_hooks))]
fn autos<T: LabelVector<Wd>>(_: &Graph<T, Wd>) -> Vec<Auto> { vec![] }

pub fn s01(ctx: &mut Ctx) {
    let n = ctx.n(140, 20);
    dims(ctx, n, &mut |ctx, k, d| {
        let es = graph_input(ctx, k, d, true);
        if !sym_ok(&es, d, if d == 2 { 10 } else { 6 }) { return }
        let m = unimodular(&mut ctx.rng, d);
        let es2 = rebase(&es, &m);
        let es2 = represent(&mut ctx.rng, &es2, d);
        ctx.case("symmetries", es_str(&es), || by_dim!(d, sym(&es, d)));
        ctx.case("symmetries in another setting", format!("{} | {}", es_str(&es), es_str(&es2)), || by_dim!(d, sym2(&es, &es2)));
    });
}

fn sym<T: LabelVector<Wd>>(es: &[E], d: usize) -> Result<(), String> {
    let g = mk::<T>(es);
    if cfg!(not(verif_hooks)) {
        let n = isos(es, es, d).len();
        ensure!(g.symmetries().len() == n, "{} automorphisms instead of {}", g.symmetries().len(), n);
        return Ok(())
    }
    let got = autos(&g);
    let pos = positions(es, d);
    let dir = directed(&norm(es));
    for (vm, em, m) in &got {
        ensure!(oracle::det(m).abs().is_one() && m.iter().all(|r| r.iter().all(|x| x.is_integer())), "transform not unimodular: {}", oracle::s(m));
        ensure!(vm.keys().cloned().collect::<Vec<_>>() == verts(es) && vm.values().collect::<BTreeSet<_>>().len() == vm.len(), "vertex map {:?}", vm);
        ensure!(em.len() == dir.len() && em.values().collect::<BTreeSet<_>>().len() == dir.len(), "edge map not a bijection");
        for e in &dir {
            let f = match em.get(e) { Some(f) => f, None => return Err(format!("edge {:?} not mapped", e)) };
            ensure!(dir.contains(f), "image {:?} is no edge", f);
            ensure!(f.0 == vm[&e.0] && f.1 == vm[&e.1], "edge {:?} -> {:?} inconsistent with {:?}", e, f, vm);
            ensure!(evec(&pos, f) == apply(m, &evec(&pos, e)), "edge {:?} -> {:?} inconsistent with transform {}", e, f, oracle::s(m));
            ensure!(em.get(&rev(e)) == Some(&rev(f)), "reverse edge");
        }
    }
    let a: BTreeSet<Auto> = got.iter().cloned().collect();
    let b: BTreeSet<Auto> = isos(es, es, d).into_iter().collect();
    ensure!(a.len() == got.len(), "duplicates");
    ensure!(a == b, "{} automorphisms instead of {}", a.len(), b.len());
    // group operations
    let all = g.symmetries();
    for x in all.iter().take(6) { for y in all.iter().take(6) { ensure!(all.contains(&(x * y)), "not closed"); } }
    ensure!(autos(&g).into_iter().collect::<BTreeSet<_>>() == a, "second call differs");
    Ok(())
}

fn sym2<T: LabelVector<Wd>>(es: &[E], es2: &[E]) -> Result<(), String> {
    let (a, b) = (mk::<T>(es), mk::<T>(es2));
    ensure!(a.symmetries().len() == b.symmetries().len(), "{} and {} symmetries", a.symmetries().len(), b.symmetries().len());
    Ok(())
}

// ---------------------------------------------------------------- S02

pub fn s02(ctx: &mut Ctx) {
    let n = ctx.n(140, 20);
    dims(ctx, n, &mut |ctx, k, d| {
        let es = graph_input(ctx, k, d, true);
        if !sym_ok(&es, d, if d == 2 { 12 } else { 8 }) { return }
        ctx.case("translations", es_str(&es), || by_dim!(d, trans(&es, d)));
        if norm(&es).len() <= 7 { ctx.case("orbits", es_str(&es), || by_dim!(d, orbs(&es, d))); }
        // covers of a stable graph come back as its own minimal image
        if norm(&es).len() <= 5 {
            let big = ctx.rng.chance(1, 2);
            let m: Vec<Vec<i64>> = loop {
                let m: Vec<Vec<i64>> = (0..d).map(|i| (0..d).map(|j| if !big { ctx.rng.int(-1, 2) }
                    else if i == j { ctx.rng.int(1, 4) } else { ctx.rng.int(-1, 2) * ctx.rng.int(0, 1) }).collect()).collect();
                let dt = oracle::det(&oracle::qm(&m)).abs().to_integer().to_i64().unwrap();
                if dt >= 1 && dt <= 3 || big && dt >= 4 && dt * norm(&es).len() as i64 <= if d == 2 { 32 } else { 24 } { break m }
            };
            let c = cover(&es, &m);
            let c = represent(&mut ctx.rng, &c, d);
            ctx.case("minimal image of a cover", format!("{} covered by {:?}", es_str(&es), m), || by_dim!(d, mincover(&es, &c, d)));
        }
    });
}

/// automorphisms with identity linear part, as vertex maps with displacement of the first vertex
fn pure_translations(es: &[E], d: usize) -> Vec<(BTreeMap<u32, u32>, BTreeMap<E, E>, Vec<Q>)> {
    let pos = positions(es, d);
    let dir = directed(&norm(es));
    let look: HashMap<(u32, Vec<Q>), E> = dir.iter().map(|e| ((e.0, evec(&pos, e)), e.clone())).collect();
    let v0 = *pos.keys().next().unwrap();
    pos.keys().filter_map(|&w| extend(&dir, &pos, &look, &oracle::identity(d), v0, w)
        .map(|(vm, em)| (vm, em, oracle::fracs(&pos[&w])))).collect()
}

fn trans<T: LabelVector<Wd>>(es: &[E], d: usize) -> Result<(), String> {
    let g = mk::<T>(es);
    let ts = pure_translations(es, d);
    let disp: BTreeSet<Vec<Q>> = ts.iter().map(|t| t.2.clone()).collect();
    let k = disp.len();
    let zero = vec![q(0); d];
    ensure!(sy::is_minimal(&g) == (k == 1), "is_minimal = {} with {} translations", sy::is_minimal(&g), k);
    let lad = ts.iter().filter(|t| t.2 == zero).count() > 1;
    ensure!(sy::is_ladder(&g) == lad, "is_ladder = {}", sy::is_ladder(&g));
    let mut exp: Vec<BTreeMap<u32, u32>> = ts.iter().filter(|t| t.2 == zero && t.0.iter().any(|(a, b)| a != b)).map(|t| t.0.clone()).collect();
    #[cfg(verif_hooks)]
    let mut got: Vec<BTreeMap<u32, u32>> = sy::ladder_symmetries(&g).iter().map(|a| a.verif_vertex_map().iter().map(|(x, y)| (*x, *y)).collect()).collect();
    #[cfg(not(verif_hooks))]
    let mut got = if sy::ladder_symmetries(&g).len() == exp.len() { exp.clone() } else { vec![] };
    got.sort(); exp.sort();
    ensure!(got == exp, "{} ladder symmetries instead of {}", got.len(), exp.len());
    let orb = sy::translational_orbits(&g);
    let flat: Vec<u32> = { let mut f = orb.concat(); f.sort(); f };
    ensure!(flat == verts(es), "orbits do not partition the vertices: {:?}", orb);
    for o in &orb {
        ensure!(o.len() == k, "orbit {:?} does not have {} elements", o, k);
        for v in o { ensure!(ts.iter().any(|t| t.0[&o[0]] == *v), "{} and {} are not translation equivalent", o[0], v); }
    }
    if !lad {
        let e = orbits(&verts(es), &ts.iter().map(|t| t.0.clone()).collect::<Vec<_>>());
        ensure!(orb.iter().map(|o| o.iter().cloned().collect()).collect::<BTreeSet<BTreeSet<u32>>>() == e, "orbits {:?}", orb);
    }
    let mi: Option<Graph<T, Wd>> = sy::minimal_image(&g);
    match mi {
        None => ensure!(k == 1, "no minimal image"),
        Some(h) => {
            ensure!(k > 1, "minimal image of a minimal graph");
            let hs = edges_of(&h);
            ensure!(verts(&hs).len() * k == verts(es).len() && hs.len() * k == norm(es).len(), "size of the minimal image {}", es_str(&hs));
            ensure!(connected(&hs, d), "minimal image not connected: {}", es_str(&hs));
            // the image must be the same periodic graph
            let len = if d == 2 { 7 } else { 4 };
            let cs = |es: &[E]| { let mut c: BTreeMap<Vec<usize>, usize> = BTreeMap::new(); for v in verts(es) { *c.entry(shells(es, v, d, len)).or_insert(0) += 1; } c };
            let a: BTreeMap<_, _> = cs(&hs).into_iter().map(|(s, n)| (s, n * k)).collect();
            ensure!(a == cs(es), "minimal image is another periodic graph: {}", es_str(&hs));
            ensure!(sy::is_minimal(&mk::<T>(&hs)), "minimal image not minimal: {}", es_str(&hs));
        }
    }
    Ok(())
}

fn orbs<T: LabelVector<Wd>>(es: &[E], d: usize) -> Result<(), String> {
    let g = mk::<T>(es);
    let au = isos(es, es, d);
    let vo: BTreeSet<BTreeSet<u32>> = g.vertex_orbits().into_iter().map(|o| o.into_iter().collect()).collect();
    ensure!(vo == orbits(&verts(es), &au.iter().map(|a| a.0.clone()).collect::<Vec<_>>()), "vertex orbits {:?}", vo);
    let ns = norm(es);
    let maps: Vec<BTreeMap<E, E>> = au.iter().map(|a| ns.iter().map(|e| (e.clone(), canon(&a.1[e]))).collect()).collect();
    let eo: BTreeSet<BTreeSet<E>> = g.edge_orbits().iter().map(|o| o.iter().map(ue).collect()).collect();
    ensure!(eo == orbits(&ns, &maps), "edge orbits {:?}", eo);
    Ok(())
}

fn mincover<T: LabelVector<Wd>>(es: &[E], c: &[E], d: usize) -> Result<(), String> {
    let k = pure_translations(es, d).iter().map(|t| t.2.clone()).collect::<HashSet<_>>().len();
    let lad = !stable(&positions(es, d));
    let mi: Option<Graph<T, Wd>> = sy::minimal_image(&mk::<T>(c));
    let h = match mi { Some(h) => edges_of(&h), None => norm(c) };
    if k == 1 && !lad {
        ensure!(!isos(es, &h, d).is_empty(), "minimal image {} is not the graph that was covered", es_str(&h));
    }
    Ok(())
}
