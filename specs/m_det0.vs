@# alternating forms and the determinant
@template DET L S V Z O
impl $L {
    pub open spec fn sgn(i: int) -> $V { if i % 2 == 0 { $O } else { $Z - $O } }
    /// Leibniz expansion of the rows x over the columns from c on, grouped by the row chosen for column c
    pub open spec fn det(x: Seq<Seq<$V>>, c: int) -> $V
        decreases x.len(), x.len() + 1
    { if x.len() == 0 { $O } else { Self::dsum(x, c, x.len() as int) } }
    pub open spec fn dsum(x: Seq<Seq<$V>>, c: int, k: int) -> $V
        decreases x.len(), k
    {
        if k <= 0 || k > x.len() { $Z }
        else { Self::dsum(x, c, k - 1) + Self::sgn(k - 1) * x[k - 1][c] * Self::det(x.remove(k - 1), c + 1) }
    }
    /// f is linear in each of its k arguments and vanishes if two neighbours agree
    pub open spec fn multi(f: spec_fn(Seq<Seq<$V>>) -> $V, k: int, n: int) -> bool {
        forall|x: Seq<Seq<$V>>, i: int, u: Seq<$V>, a: $V, v: Seq<$V>, b: $V|
            Self::width(x, n) && x.len() == k && 0 <= i < k && u.len() == n && v.len() == n
            ==> f(#[trigger] x.update(i, Self::comb(u, a, v, b))) == a * f(x.update(i, u)) + b * f(x.update(i, v))
    }
    pub open spec fn adj(f: spec_fn(Seq<Seq<$V>>) -> $V, k: int, n: int) -> bool {
        forall|x: Seq<Seq<$V>>, i: int| Self::width(x, n) && x.len() == k && 0 <= i < k - 1 && #[trigger] x[i] == x[i + 1] ==> f(x) == $Z
    }
    pub open spec fn alt(f: spec_fn(Seq<Seq<$V>>) -> $V, k: int, n: int) -> bool { Self::multi(f, k, n) && Self::adj(f, k, n) }
    /// every alternating form takes the same value on x and y (they have the same exterior product)
    pub open spec fn deq(x: Seq<Seq<$V>>, y: Seq<Seq<$V>>, n: int) -> bool {
        x.len() == y.len() && forall|f: spec_fn(Seq<Seq<$V>>) -> $V| #[trigger] Self::alt(f, x.len() as int, n) ==> f(x) == f(y)
    }
    pub open spec fn dzero(x: Seq<Seq<$V>>, n: int) -> bool {
        forall|f: spec_fn(Seq<Seq<$V>>) -> $V| #[trigger] Self::alt(f, x.len() as int, n) ==> f(x) == $Z
    }
    pub proof fn lemma_multi(f: spec_fn(Seq<Seq<$V>>) -> $V, n: int, x: Seq<Seq<$V>>, i: int, u: Seq<$V>, a: $V, v: Seq<$V>, b: $V, w: Seq<$V>)
        requires Self::multi(f, x.len() as int, n), Self::width(x, n), 0 <= i < x.len(), u.len() == n, v.len() == n, w.len() == n,
            forall|j: int| 0 <= j < n ==> #[trigger] w[j] == a * u[j] + b * v[j]
        ensures f(x.update(i, w)) == a * f(x.update(i, u)) + b * f(x.update(i, v))
    { assert(w =~= Self::comb(u, a, v, b)); }
    /// exchanging neighbours changes the sign
    pub proof fn lemma_swap_adj(f: spec_fn(Seq<Seq<$V>>) -> $V, n: int, x: Seq<Seq<$V>>, i: int)
        requires Self::alt(f, x.len() as int, n), Self::width(x, n), 0 <= i < x.len() - 1
        ensures f(x.update(i, x[i + 1]).update(i + 1, x[i])) == $Z - f(x)
    {
        let (u, v) = (x[i], x[i + 1]);
        let s = Self::comb(u, $O, v, $O);
        assert(u.len() == n && v.len() == n);
        let xs = x.update(i + 1, s);
        let (xu, xv) = (x.update(i + 1, u), x);
        Self::lemma_multi(f, n, xs, i, u, $O, v, $O, s);
        let (su, sv) = (x.update(i, u), x.update(i, v));
        Self::lemma_multi(f, n, su, i + 1, u, $O, v, $O, s);
        Self::lemma_multi(f, n, sv, i + 1, u, $O, v, $O, s);
        assert(xs.update(i, u) =~= su.update(i + 1, s));
        assert(xs.update(i, v) =~= sv.update(i + 1, s));
        let ss = xs.update(i, s);
        assert(ss[i] == ss[i + 1]);
        assert(f(ss) == $Z);
        let uu = su.update(i + 1, u);
        assert(uu[i] == uu[i + 1]);
        let vv = sv.update(i + 1, v);
        assert(vv[i] == vv[i + 1]);
        assert(su.update(i + 1, v) =~= x);
    }
    /// ... and so equal arguments anywhere give zero
    pub proof fn lemma_equal(f: spec_fn(Seq<Seq<$V>>) -> $V, n: int, x: Seq<Seq<$V>>, i: int, j: int)
        requires Self::alt(f, x.len() as int, n), Self::width(x, n), 0 <= i < j < x.len(), x[i] == x[j]
        ensures f(x) == $Z
        decreases j - i
    {
        if j == i + 1 { assert(x[i] == x[i + 1]); }
        else {
            let y = x.update(j - 1, x[j]).update(j, x[j - 1]);
            Self::lemma_swap_adj(f, n, x, j - 1);
            assert(Self::width(y, n)) by { assert forall|a: int| 0 <= a < y.len() implies (#[trigger] y[a]).len() == n by { assert(x[a].len() == n && x[j].len() == n && x[j - 1].len() == n); } }
            Self::lemma_equal(f, n, y, i, j - 1);
        }
    }
    /// a transformation of determinant one of two arguments
    pub proof fn lemma_unimod_form(f: spec_fn(Seq<Seq<$V>>) -> $V, n: int, x: Seq<Seq<$V>>, i: int, j: int, b2: Seq<$V>, v2: Seq<$V>)
        requires Self::alt(f, x.len() as int, n), Self::width(x, n), 0 <= i < j < x.len(), Self::cleared(x[i], x[j], b2, v2)
        ensures f(x.update(i, b2).update(j, v2)) == f(x)
    {
        let (b, v) = (x[i], x[j]);
        assert(b.len() == n && v.len() == n);
        let (r, s, t, u) = choose|r: $V, s: $V, t: $V, u: $V| #[trigger] Self::unimod(b, v, b2, v2, r, s, t, u);
        let y = x.update(j, v2);
        assert(Self::width(y, n));
        Self::lemma_multi(f, n, y, i, b, r, v, s, b2);
        let (yb, yv) = (x.update(i, b), x.update(i, v));
        Self::lemma_multi(f, n, yb, j, b, t, v, u, v2);
        Self::lemma_multi(f, n, yv, j, b, t, v, u, v2);
        assert(y.update(i, b) =~= yb.update(j, v2));
        assert(y.update(i, v) =~= yv.update(j, v2));
        assert(x.update(i, b2).update(j, v2) =~= y.update(i, b2));
        let (bb, vv) = (yb.update(j, b), yv.update(j, v));
        assert(bb[i] == bb[j] && vv[i] == vv[j]);
        Self::lemma_equal(f, n, bb, i, j);
        Self::lemma_equal(f, n, vv, i, j);
        // f with b and v exchanged
        let w = Self::comb(b, $O, v, $O);
        let z = x.update(j, w);
        Self::lemma_multi(f, n, z, i, b, $O, v, $O, w);
        Self::lemma_multi(f, n, yb, j, b, $O, v, $O, w);
        Self::lemma_multi(f, n, yv, j, b, $O, v, $O, w);
        assert(z.update(i, b) =~= yb.update(j, w));
        assert(z.update(i, v) =~= yv.update(j, w));
        let ww = z.update(i, w);
        assert(ww[i] == ww[j]);
        Self::lemma_equal(f, n, ww, i, j);
        assert(yb.update(j, v) =~= x);
        let (p, q) = (f(x), f(yv.update(j, b)));
        assert(q == $Z - p);
        let (fb, fv) = (f(yb.update(j, v2)), f(yv.update(j, v2)));
        assert(fb == u * p) by (nonlinear_arith) requires fb == t * $Z + u * p;
        assert(fv == t * q) by (nonlinear_arith) requires fv == t * q + u * $Z;
        let (up, tp) = (u * p, t * p);
        assert(t * q == $Z - tp) by (nonlinear_arith) requires q == $Z - p, tp == t * p;
        assert(r * up == (r * u) * p) by (nonlinear_arith) requires up == u * p;
        assert(s * ($Z - tp) == $Z - (s * t) * p) by (nonlinear_arith) requires tp == t * p;
        let (ru, st) = (r * u, s * t);
        assert(ru * p - st * p == p) by (nonlinear_arith) requires ru - st == $O;
    }
    /// moving the last argument to place i
    pub proof fn lemma_insert_form(f: spec_fn(Seq<Seq<$V>>) -> $V, n: int, x: Seq<Seq<$V>>, i: int, v: Seq<$V>)
        requires Self::alt(f, (x.len() + 1) as int, n), Self::width(x, n), v.len() == n, 0 <= i <= x.len()
        ensures f(x.insert(i, v)) == Self::sgn(x.len() - i) * f(x.push(v))
        decreases x.len() - i
    {
        let p = f(x.push(v));
        if i == x.len() { assert(x.insert(i, v) =~= x.push(v)); assert($O * p == p) by (nonlinear_arith); }
        else {
            Self::lemma_insert_form(f, n, x, i + 1, v);
            let y = x.insert(i + 1, v);
            assert forall|a: int| 0 <= a < y.len() implies (#[trigger] y[a]).len() == n by { if a < i + 1 { assert(x[a].len() == n); } else if a > i + 1 { assert(x[a - 1].len() == n); } }
            Self::lemma_swap_adj(f, n, y, i);
            assert(y.update(i, y[i + 1]).update(i + 1, y[i]) =~= x.insert(i, v));
            let (s, t) = (Self::sgn(x.len() - i), Self::sgn(x.len() - i - 1));
            assert(s == $Z - t);
            assert(s * p == $Z - t * p) by (nonlinear_arith) requires s == $Z - t;
        }
    }
    pub proof fn lemma_insert_sign(n: int, x: Seq<Seq<$V>>, i: int, v: Seq<$V>, w: Seq<$V>)
        requires Self::width(x, n), v.len() == n, w.len() == n, 0 <= i <= x.len(), forall|j: int| 0 <= j < n ==> #[trigger] w[j] == Self::sgn(x.len() - i) * v[j]
        ensures Self::deq(x.insert(i, w), x.push(v), n)
    {
        assert forall|f: spec_fn(Seq<Seq<$V>>) -> $V| #[trigger] Self::alt(f, (x.len() + 1) as int, n) implies f(x.insert(i, w)) == f(x.push(v)) by {
            let s = Self::sgn(x.len() - i);
            let y = x.insert(i, v);
            assert forall|a: int| 0 <= a < y.len() implies (#[trigger] y[a]).len() == n by { if a < i { assert(x[a].len() == n); } else if a > i { assert(x[a - 1].len() == n); } }
            assert forall|j: int| 0 <= j < n implies #[trigger] w[j] == s * v[j] + $Z * v[j] by { let z = v[j]; assert($Z * z == $Z) by (nonlinear_arith); }
            Self::lemma_multi(f, n, y, i, v, s, v, $Z, w);
            assert(y.update(i, w) =~= x.insert(i, w));
            assert(y.update(i, v) =~= y);
            Self::lemma_insert_form(f, n, x, i, v);
            let (p, q) = (f(x.push(v)), f(y));
            assert(s * q + $Z * q == p) by (nonlinear_arith) requires q == s * p, s == $O || s == $Z - $O;
        }
    }
    pub proof fn lemma_cleared_forms(n: int, x: Seq<Seq<$V>>, i: int, v: Seq<$V>, b2: Seq<$V>, v2: Seq<$V>)
        requires Self::width(x, n), v.len() == n, 0 <= i < x.len(), Self::cleared(x[i], v, b2, v2)
        ensures Self::deq(x.update(i, b2).push(v2), x.push(v), n)
    {
        let y = x.push(v);
        assert forall|f: spec_fn(Seq<Seq<$V>>) -> $V| #[trigger] Self::alt(f, (x.len() + 1) as int, n) implies f(x.update(i, b2).push(v2)) == f(y) by {
            assert forall|a: int| 0 <= a < y.len() implies (#[trigger] y[a]).len() == n by { if a < x.len() { assert(x[a].len() == n); } }
            Self::lemma_unimod_form(f, n, y, i, x.len() as int, b2, v2);
            assert(y.update(i, b2).update(x.len() as int, v2) =~= x.update(i, b2).push(v2));
        }
    }
    pub proof fn lemma_zero_form(n: int, x: Seq<Seq<$V>>, v: Seq<$V>)
        requires Self::width(x, n), v == Self::zero(n), n >= 0
        ensures Self::dzero(x.push(v), n)
    {
        let y = x.push(v);
        assert forall|f: spec_fn(Seq<Seq<$V>>) -> $V| #[trigger] Self::alt(f, (x.len() + 1) as int, n) implies f(y) == $Z by {
            assert forall|a: int| 0 <= a < y.len() implies (#[trigger] y[a]).len() == n by { if a < x.len() { assert(x[a].len() == n); } }
            Self::lemma_multi(f, n, y, x.len() as int, v, $Z, v, $Z, v);
            assert(y.update(x.len() as int, v) =~= y);
            let q = f(y);
            assert($Z * q + $Z * q == $Z) by (nonlinear_arith);
        }
    }
    /// fixing the last argument of an alternating form
    pub proof fn lemma_push_alt(f: spec_fn(Seq<Seq<$V>>) -> $V, k: int, n: int, w: Seq<$V>)
        requires Self::alt(f, k + 1, n), w.len() == n, k >= 0
        ensures Self::alt(|x: Seq<Seq<$V>>| f(x.push(w)), k, n)
    {
        let g = |x: Seq<Seq<$V>>| f(x.push(w));
        assert forall|x: Seq<Seq<$V>>, i: int, u: Seq<$V>, a: $V, v: Seq<$V>, b: $V|
            Self::width(x, n) && x.len() == k && 0 <= i < k && u.len() == n && v.len() == n
            implies g(#[trigger] x.update(i, Self::comb(u, a, v, b))) == a * g(x.update(i, u)) + b * g(x.update(i, v)) by {
            let y = x.push(w);
            assert forall|c: int| 0 <= c < y.len() implies (#[trigger] y[c]).len() == n by { if c < k { assert(x[c].len() == n); } }
            let z = Self::comb(u, a, v, b);
            Self::lemma_multi(f, n, y, i, u, a, v, b, z);
            assert(y.update(i, z) =~= x.update(i, z).push(w));
            assert(y.update(i, u) =~= x.update(i, u).push(w));
            assert(y.update(i, v) =~= x.update(i, v).push(w));
        }
        assert forall|x: Seq<Seq<$V>>, i: int| Self::width(x, n) && x.len() == k && 0 <= i < k - 1 && #[trigger] x[i] == x[i + 1] implies g(x) == $Z by {
            let y = x.push(w);
            assert forall|c: int| 0 <= c < y.len() implies (#[trigger] y[c]).len() == n by { if c < k { assert(x[c].len() == n); } }
            assert(y[i] == y[i + 1]);
        }
    }
    pub proof fn lemma_push_deq(x: Seq<Seq<$V>>, y: Seq<Seq<$V>>, w: Seq<$V>, n: int)
        requires w.len() == n
        ensures Self::deq(x, y, n) ==> Self::deq(x.push(w), y.push(w), n), Self::dzero(x, n) ==> Self::dzero(x.push(w), n)
    {
        assert forall|f: spec_fn(Seq<Seq<$V>>) -> $V| #[trigger] Self::alt(f, (x.len() + 1) as int, n) implies
            (Self::deq(x, y, n) ==> f(x.push(w)) == f(y.push(w))) && (Self::dzero(x, n) ==> f(x.push(w)) == $Z) by {
            let g = |x: Seq<Seq<$V>>| f(x.push(w));
            Self::lemma_push_alt(f, x.len() as int, n, w);
            if Self::deq(x, y, n) { assert(g(x) == g(y)); }
            if Self::dzero(x, n) { assert(g(x) == $Z); }
        }
    }
    pub proof fn lemma_deq_trans(x: Seq<Seq<$V>>, y: Seq<Seq<$V>>, z: Seq<Seq<$V>>, n: int)
        ensures Self::deq(x, y, n) && Self::deq(y, z, n) ==> Self::deq(x, z, n), Self::deq(x, y, n) ==> Self::deq(y, x, n),
            Self::deq(x, y, n) && Self::dzero(y, n) ==> Self::dzero(x, n)
    { }
    // ---- the determinant is an alternating form
    pub proof fn lemma_det_linear(x: Seq<Seq<$V>>, c: int, n: int, i: int, u: Seq<$V>, a: $V, v: Seq<$V>, b: $V)
        requires Self::width(x, n), c >= 0, c + x.len() <= n, 0 <= i < x.len(), u.len() == n, v.len() == n
        ensures Self::det(x.update(i, Self::comb(u, a, v, b)), c) == a * Self::det(x.update(i, u), c) + b * Self::det(x.update(i, v), c)
        decreases x.len(), x.len() + 1
    { Self::lemma_dsum_linear(x, c, n, i, u, a, v, b, x.len() as int); }
    pub proof fn lemma_dsum_linear(x: Seq<Seq<$V>>, c: int, n: int, i: int, u: Seq<$V>, a: $V, v: Seq<$V>, b: $V, k: int)
        requires Self::width(x, n), c >= 0, c + x.len() <= n, 0 <= i < x.len(), u.len() == n, v.len() == n, 0 <= k <= x.len()
        ensures Self::dsum(x.update(i, Self::comb(u, a, v, b)), c, k) == a * Self::dsum(x.update(i, u), c, k) + b * Self::dsum(x.update(i, v), c, k)
        decreases x.len(), k
    {
        let w = Self::comb(u, a, v, b);
        let (xw, xu, xv) = (x.update(i, w), x.update(i, u), x.update(i, v));
        if k <= 0 { assert(a * $Z + b * $Z == $Z) by (nonlinear_arith); }
        else {
            Self::lemma_dsum_linear(x, c, n, i, u, a, v, b, k - 1);
            let j = k - 1;
            let s = Self::sgn(j);
            let (p, q) = (Self::dsum(xu, c, j), Self::dsum(xv, c, j));
            if j == i {
                assert(xw.remove(i) =~= x.remove(i) && xu.remove(i) =~= x.remove(i) && xv.remove(i) =~= x.remove(i));
                let (y, z, d) = (u[c], v[c], Self::det(x.remove(i), c + 1));
                Self::lemma_ring1(a, y, b, z, s, d, p, q);
            } else {
                let h = if i < j { i } else { i - 1 };
                let y = x.remove(j);
                assert(xw.remove(j) =~= y.update(h, w) && xu.remove(j) =~= y.update(h, u) && xv.remove(j) =~= y.update(h, v));
                assert(Self::width(y, n)) by { assert forall|e: int| 0 <= e < y.len() implies (#[trigger] y[e]).len() == n by { assert(y[e] == if e < j { x[e] } else { x[e + 1] }); } }
                Self::lemma_det_linear(y, c + 1, n, h, u, a, v, b);
                let (g, d, e) = (x[j][c], Self::det(y.update(h, u), c + 1), Self::det(y.update(h, v), c + 1));
                Self::lemma_ring2(a, d, b, e, s * g, p, q);
            }
        }
    }
    pub proof fn lemma_ring1(a: $V, y: $V, b: $V, z: $V, s: $V, d: $V, p: $V, q: $V)
        ensures a * p + b * q + s * (a * y + b * z) * d == a * (p + s * y * d) + b * (q + s * z * d)
    {
        let (sd, ay, bz) = (s * d, a * y, b * z);
        assert(s * (ay + bz) * d == ay * sd + bz * sd) by (nonlinear_arith) requires sd == s * d;
        assert(s * y * d == y * sd) by (nonlinear_arith) requires sd == s * d;
        assert(s * z * d == z * sd) by (nonlinear_arith) requires sd == s * d;
        assert(a * (p + y * sd) == a * p + ay * sd) by (nonlinear_arith) requires ay == a * y;
        assert(b * (q + z * sd) == b * q + bz * sd) by (nonlinear_arith) requires bz == b * z;
    }
    pub proof fn lemma_ring2(a: $V, d: $V, b: $V, e: $V, s: $V, p: $V, q: $V)
        ensures a * p + b * q + s * (a * d + b * e) == a * (p + s * d) + b * (q + s * e)
    {
        let (sd, se, ad, be) = (s * d, s * e, a * d, b * e);
        assert(s * (ad + be) == s * ad + s * be) by (nonlinear_arith);
        assert(s * ad == a * sd) by (nonlinear_arith) requires ad == a * d, sd == s * d;
        assert(s * be == b * se) by (nonlinear_arith) requires be == b * e, se == s * e;
        assert(a * (p + sd) == a * p + a * sd) by (nonlinear_arith);
        assert(b * (q + se) == b * q + b * se) by (nonlinear_arith);
    }
    pub proof fn lemma_det_adj(x: Seq<Seq<$V>>, c: int, n: int, i: int)
        requires Self::width(x, n), c >= 0, c + x.len() <= n, 0 <= i < x.len() - 1, x[i] == x[i + 1]
        ensures Self::det(x, c) == $Z
        decreases x.len(), x.len() + 1
    { Self::lemma_dsum_adj(x, c, n, i, x.len() as int); }
    pub proof fn lemma_dsum_adj(x: Seq<Seq<$V>>, c: int, n: int, i: int, k: int)
        requires Self::width(x, n), c >= 0, c + x.len() <= n, 0 <= i < x.len() - 1, x[i] == x[i + 1], 0 <= k <= x.len()
        ensures k <= i || k >= i + 2 ==> Self::dsum(x, c, k) == $Z, k == i + 1 ==> Self::dsum(x, c, k) == Self::sgn(i) * x[i][c] * Self::det(x.remove(i), c + 1)
        decreases x.len(), k
    {
        if k > 0 {
            Self::lemma_dsum_adj(x, c, n, i, k - 1);
            let j = k - 1;
            let (s, g, d) = (Self::sgn(j), x[j][c], Self::det(x.remove(j), c + 1));
            if j == i + 1 {
                assert(x.remove(i) =~= x.remove(i + 1));
                let t = Self::sgn(i);
                assert(t == $Z - s);
                assert(t * g * d + s * g * d == $Z) by (nonlinear_arith) requires t == $Z - s;
            } else if j != i {
                let y = x.remove(j);
                let h = if i < j { i } else { i - 1 };
                assert(Self::width(y, n)) by { assert forall|e: int| 0 <= e < y.len() implies (#[trigger] y[e]).len() == n by { assert(y[e] == if e < j { x[e] } else { x[e + 1] }); } }
                Self::lemma_det_adj(y, c + 1, n, h);
                assert(s * g * $Z == $Z) by (nonlinear_arith);
            }
        }
    }
    pub proof fn lemma_det_alt(n: int)
        requires n >= 0
        ensures Self::alt(|x: Seq<Seq<$V>>| Self::det(x, 0), n, n)
    {
        let f = |x: Seq<Seq<$V>>| Self::det(x, 0);
        assert forall|x: Seq<Seq<$V>>, i: int, u: Seq<$V>, a: $V, v: Seq<$V>, b: $V|
            Self::width(x, n) && x.len() == n && 0 <= i < n && u.len() == n && v.len() == n
            implies f(#[trigger] x.update(i, Self::comb(u, a, v, b))) == a * f(x.update(i, u)) + b * f(x.update(i, v)) by {
            Self::lemma_det_linear(x, 0, n, i, u, a, v, b);
        }
        assert forall|x: Seq<Seq<$V>>, i: int| Self::width(x, n) && x.len() == n && 0 <= i < n - 1 && #[trigger] x[i] == x[i + 1] implies f(x) == $Z by {
            Self::lemma_det_adj(x, 0, n, i);
        }
    }
    /// equal exterior products have equal determinants
    pub proof fn lemma_det_deq(x: Seq<Seq<$V>>, y: Seq<Seq<$V>>, n: int)
        requires x.len() == n
        ensures Self::deq(x, y, n) ==> Self::det(x, 0) == Self::det(y, 0), Self::dzero(x, n) ==> Self::det(x, 0) == $Z
    {
        let f = |x: Seq<Seq<$V>>| Self::det(x, 0);
        Self::lemma_det_alt(n);
        if Self::deq(x, y, n) { assert(f(x) == f(y)); }
        if Self::dzero(x, n) { assert(f(x) == $Z); }
    }
    /// n rows in echelon form are upper triangular
    pub proof fn lemma_ech_square(r: Seq<Seq<$V>>, n: int, i: int)
        requires Self::echelon(r, n), r.len() == n, 0 <= i < n
        ensures Self::piv(r[i]) == i
        decreases n - i
    {
        Self::lemma_ech_low(r, n, i);
        if i + 1 < n { Self::lemma_ech_square(r, n, i + 1); assert(Self::piv(r[i]) < Self::piv(r[i + 1])); }
    }
    pub proof fn lemma_ech_low(r: Seq<Seq<$V>>, n: int, i: int)
        requires Self::echelon(r, n), 0 <= i < r.len()
        ensures i <= Self::piv(r[i]) < n
        decreases i
    {
        if i > 0 { Self::lemma_ech_low(r, n, i - 1); assert(Self::piv(r[i - 1]) < Self::piv(r[i])); }
        else { assert(r[0].len() == n); Self::lemma_piv(r[0]); }
    }
    /// expansion of an upper triangular matrix by its first column
    pub proof fn lemma_det_step(r: Seq<Seq<$V>>, n: int, c: int)
        requires Self::echelon(r, n), r.len() == n, 0 <= c < n
        ensures Self::det(r.skip(c), c) == r[c][c] * Self::det(r.skip(c + 1), c + 1)
    {
        let x = r.skip(c);
        assert(x.remove(0) =~= r.skip(c + 1));
        let (g, d) = (r[c][c], Self::det(r.skip(c + 1), c + 1));
        Self::lemma_det_tail(r, n, c, x.len() as int);
    }
    pub proof fn lemma_det_tail(r: Seq<Seq<$V>>, n: int, c: int, k: int)
        requires Self::echelon(r, n), r.len() == n, 0 <= c < n, 1 <= k <= n - c
        ensures Self::dsum(r.skip(c), c, k) == r[c][c] * Self::det(r.skip(c + 1), c + 1)
        decreases k
    {
        let x = r.skip(c);
        if k == 1 {
            assert(x.remove(0) =~= r.skip(c + 1));
            let (g, d) = (r[c][c], Self::det(r.skip(c + 1), c + 1));
            assert(Self::dsum(x, c, 0) == $Z);
            assert($O * g * d == g * d) by (nonlinear_arith);
        } else {
            Self::lemma_det_tail(r, n, c, k - 1);
            Self::lemma_ech_square(r, n, c + k - 1);
            assert(r[c + k - 1].len() == n);
            Self::lemma_piv(r[c + k - 1]);
            let (s, d) = (Self::sgn(k - 1), Self::det(x.remove(k - 1), c + 1));
            assert(x[k - 1][c] == $Z);
            assert(s * $Z * d == $Z) by (nonlinear_arith);
        }
    }
    /// d times the rest of the triangle is t
    #[verifier::opaque]
    pub open spec fn tri(d: $V, r: Seq<Seq<$V>>, k: int, t: $V) -> bool { d * Self::det(r.skip(k), k) == t }
    pub proof fn lemma_tri_start(r: Seq<Seq<$V>>, t: $V)
        requires Self::det(r, 0) == t
        ensures Self::tri($O, r, 0, t)
    { reveal($L::tri); assert(r.skip(0) =~= r); assert($O * t == t) by (nonlinear_arith); }
    pub proof fn lemma_tri_step(d: $V, e: $V, r: Seq<Seq<$V>>, n: int, k: int, t: $V)
        requires Self::tri(d, r, k, t), e == d * r[k][k], Self::echelon(r, n), r.len() == n, 0 <= k < n
        ensures Self::tri(e, r, k + 1, t)
    {
        reveal($L::tri);
        Self::lemma_det_step(r, n, k);
        let (g, h) = (r[k][k], Self::det(r.skip(k + 1), k + 1));
        assert((d * g) * h == d * (g * h)) by (nonlinear_arith);
    }
    pub proof fn lemma_tri_end(d: $V, r: Seq<Seq<$V>>, t: $V)
        requires Self::tri(d, r, r.len() as int, t)
        ensures d == t
    { reveal($L::tri); assert($O * d == d && d * $O == d) by (nonlinear_arith); }
    pub proof fn lemma_det1(x: Seq<Seq<$V>>, c: int)
        requires x.len() == 1
        ensures Self::det(x, c) == x[0][c]
    {
        let g = x[0][c];
        assert(x.remove(0).len() == 0);
        assert(Self::det(x.remove(0), c + 1) == $O);
        assert(Self::dsum(x, c, 0) == $Z);
        assert(Self::dsum(x, c, 1) == $Z + $O * g * $O);
        assert($O * g * $O == g) by (nonlinear_arith);
    }
    pub proof fn lemma_det2(x: Seq<Seq<$V>>, c: int)
        requires x.len() == 2
        ensures Self::det(x, c) == x[0][c] * x[1][c + 1] - x[1][c] * x[0][c + 1],
            x[1][c] * x[0][c + 1] == x[0][c + 1] * x[1][c], x[0][c] * x[1][c + 1] == x[1][c + 1] * x[0][c]
    {
        Self::lemma_det1(x.remove(0), c + 1);
        Self::lemma_det1(x.remove(1), c + 1);
        let (p, q, r, s) = (x[0][c], x[1][c], x[1][c + 1], x[0][c + 1]);
        assert(x.remove(0)[0] == x[1] && x.remove(1)[0] == x[0]);
        assert(Self::dsum(x, c, 0) == $Z);
        assert(Self::dsum(x, c, 1) == $Z + $O * p * r);
        assert(Self::dsum(x, c, 2) == $Z + $O * p * r + ($Z - $O) * q * s);
        assert($O * p * r == p * r) by (nonlinear_arith);
        assert(($Z - $O) * q * s == $Z - q * s) by (nonlinear_arith);
        assert(q * s == s * q && p * r == r * p) by (nonlinear_arith);
    }
    pub proof fn lemma_term(a: $V, p: $V, q: $V, r: $V, s: $V)
        ensures a * (p * q - r * s) == a * (p * q) - a * (r * s)
    {
        let (x, y) = (p * q, r * s);
        assert(a * (x - y) == a * x - a * y) by (nonlinear_arith);
    }
    pub proof fn lemma_reorder(a: $V, p: $V, q: $V)
        ensures a * (p * q) == a * p * q, a * (p * q) == a * q * p, a * (p * q) == p * a * q, a * (p * q) == p * q * a, a * (p * q) == q * a * p, a * (p * q) == q * p * a
    {
        assert(a * (p * q) == a * p * q) by (nonlinear_arith);
        assert(a * (p * q) == a * q * p) by (nonlinear_arith);
        assert(a * (p * q) == p * a * q) by (nonlinear_arith);
        assert(a * (p * q) == p * q * a) by (nonlinear_arith);
        assert(a * (p * q) == q * a * p) by (nonlinear_arith);
        assert(a * (p * q) == q * p * a) by (nonlinear_arith);
    }
    /// the order of the factors does not matter
    pub proof fn lemma_reorder3(x: Seq<Seq<$V>>)
        ensures forall|i: int, j: int, k: int| #![trigger x[0][i], x[1][j], x[2][k]] {
            let (p, q, r) = (x[0][i], x[1][j], x[2][k]);
            &&& p * q * r == p * r * q &&& p * q * r == q * p * r &&& p * q * r == q * r * p &&& p * q * r == r * p * q &&& p * q * r == r * q * p
            &&& p * q * r == p * (q * r) &&& p * q * r == p * (r * q)
        }
    {
        assert forall|i: int, j: int, k: int| #![trigger x[0][i], x[1][j], x[2][k]] {
            let (p, q, r) = (x[0][i], x[1][j], x[2][k]);
            &&& p * q * r == p * r * q &&& p * q * r == q * p * r &&& p * q * r == q * r * p &&& p * q * r == r * p * q &&& p * q * r == r * q * p
            &&& p * q * r == p * (q * r) &&& p * q * r == p * (r * q)
        } by {
            let (p, q, r) = (x[0][i], x[1][j], x[2][k]);
            Self::lemma_reorder(p, q, r);
            assert(q * r == r * q) by (nonlinear_arith);
        }
    }
    pub proof fn lemma_det3(x: Seq<Seq<$V>>)
        requires x.len() == 3
        ensures Self::det(x, 0) ==
            x[0][0] * x[1][1] * x[2][2] + x[0][1] * x[1][2] * x[2][0] + x[0][2] * x[1][0] * x[2][1]
            - x[0][2] * x[1][1] * x[2][0] - x[0][0] * x[1][2] * x[2][1] - x[0][1] * x[1][0] * x[2][2]
    {
        Self::lemma_det2(x.remove(0), 1);
        Self::lemma_det2(x.remove(1), 1);
        Self::lemma_det2(x.remove(2), 1);
        assert(x.remove(0)[0] == x[1] && x.remove(0)[1] == x[2] && x.remove(1)[0] == x[0] && x.remove(1)[1] == x[2] && x.remove(2)[0] == x[0] && x.remove(2)[1] == x[1]);
        let (a, b, c) = (x[0][0], x[1][0], x[2][0]);
        let (a1, b1, c1) = (x[0][1], x[1][1], x[2][1]);
        let (a2, b2, c2) = (x[0][2], x[1][2], x[2][2]);
        let (d0, d1, d2) = (b1 * c2 - c1 * b2, a1 * c2 - c1 * a2, a1 * b2 - b1 * a2);
        assert(Self::dsum(x, 0, 0) == $Z);
        assert(Self::dsum(x, 0, 1) == $Z + $O * a * d0);
        assert(Self::dsum(x, 0, 2) == $Z + $O * a * d0 + ($Z - $O) * b * d1);
        assert(Self::dsum(x, 0, 3) == $Z + $O * a * d0 + ($Z - $O) * b * d1 + $O * c * d2);
        Self::lemma_term(a, b1, c2, c1, b2);
        Self::lemma_term(b, a1, c2, c1, a2);
        Self::lemma_term(c, a1, b2, b1, a2);
        assert($O * a * d0 == a * d0) by (nonlinear_arith);
        assert(($Z - $O) * b * d1 == $Z - b * d1) by (nonlinear_arith);
        assert($O * c * d2 == c * d2) by (nonlinear_arith);
        Self::lemma_reorder(a, b1, c2); Self::lemma_reorder(a, c1, b2); Self::lemma_reorder(b, a1, c2); Self::lemma_reorder(b, c1, a2);
        Self::lemma_reorder(c, a1, b2); Self::lemma_reorder(c, b1, a2);
    }
}
@endtemplate
@expand DET L=LinR S=Rat V=real Z=0real O=1real
@expand DET L=LinZ S=Int V=int Z=0int O=1int
