@# src/arithmetic/modular_solver.rs: elimination modulo a prime
pub proof fn lemma_modinv_facts(x: int, n: int, p: int)
    requires is_modinv(x, n, p), p >= 2
    ensures cg(n * x, 1, p)
{
    lemma_fundamental_div_mod(n * x, p);
    let q = (n * x) / p;
    assert(n * x == 1 + q * p) by (nonlinear_arith) requires n * x == p * q + 1;
    lemma_k_cg(n * x, 1, p, q);
}
/// one entry of an elimination step, in either of the two ways it is computed
pub proof fn lemma_elim(x: int, y: int, f: int, p: int)
    requires p >= 2, 0 <= x < p, 0 <= y < p, 0 <= f < p
    ensures
        0 <= trem(p - trem(x * f, p) + y, p) < p, cg(trem(p - trem(x * f, p) + y, p), y - f * x, p),
        x == 0 ==> cg(y, y - f * x, p),
        trem(x * f, p) == (x * f) % p, trem(f * x, p) == (f * x) % p,
{
    assert(x * f >= 0 && f * x == x * f) by (nonlinear_arith) requires x >= 0, f >= 0;
    lemma_trem_cg(x * f, p);
    let t = trem(x * f, p);
    lemma_trem_cg(p - t + y, p);
    let k = lemma_cg_k(t, x * f, p);
    assert(p - t + y == y - f * x + (1 - k) * p) by (nonlinear_arith) requires t == x * f + k * p, f * x == x * f;
    lemma_k_cg(p - t + y, y - f * x, p, 1 - k);
    lemma_cg_trans(trem(p - t + y, p), p - t + y, y - f * x, p);
    if x == 0 { assert(f * x == 0) by (nonlinear_arith) requires x == 0; lemma_cg_refl(y, p); }
}
/// exchanging two rows below the ones done
pub proof fn lemma_rref_swap(m: Seq<Vec<i64>>, nc: nat, piv: Seq<int>, k: int, i: int, r: int)
    requires rref(m, nc, piv, k), i == piv.len(), i <= r < m.len()
    ensures rref(m.update(i, m[r]).update(r, m[i]), nc, piv, k)
{
    let b = m.update(i, m[r]).update(r, m[i]);
    assert forall|q: int, j: int| piv.len() <= q < b.len() && 0 <= j < k implies #[trigger] b[q]@[j] == 0 by {}
    assert forall|a: int, q: int| 0 <= a < piv.len() && 0 <= q < b.len() implies #[trigger] b[q]@[piv[a]] == (if q == a { 1int } else { 0int }) by {}
}
/// a new leading one
pub proof fn lemma_rref_push(m: Seq<Vec<i64>>, b: Seq<Vec<i64>>, nc: nat, piv: Seq<int>, k: int, i: int)
    requires rref(m, nc, piv, k), i == piv.len(), i < m.len(), b.len() == m.len(), 0 <= k < nc, b[i] == m[i], m[i]@[k] == 1,
        forall|q: int, j: int| 0 <= q < m.len() && 0 <= j < k ==> #[trigger] b[q]@[j] == m[q]@[j],
        forall|q: int| 0 <= q < m.len() && q != i ==> (#[trigger] b[q])@[k] == 0,
    ensures rref(b, nc, piv.push(k), k + 1)
{
    let pv = piv.push(k);
    assert forall|a: int, q: int| 0 <= a < pv.len() && 0 <= q < b.len() implies #[trigger] b[q]@[pv[a]] == (if q == a { 1int } else { 0int }) by {
        if a < i { assert(pv[a] == piv[a]); assert(b[q]@[piv[a]] == m[q]@[piv[a]]); }
    }
    assert forall|a: int, j: int| 0 <= a < pv.len() && 0 <= j < pv[a] implies #[trigger] b[a]@[j] == 0 by {
        if a < i { assert(pv[a] == piv[a]); assert(b[a]@[j] == m[a]@[j]); } else { assert(b[a]@[j] == m[a]@[j]); }
    }
    assert forall|q: int, j: int| pv.len() <= q < b.len() && 0 <= j < k + 1 implies #[trigger] b[q]@[j] == 0 by { if j < k { assert(b[q]@[j] == m[q]@[j]); } }
}
@fn arithmetic/modular_solver.rs :: swap_rows
    nopub
    generics <T: Default>
@spec
    requires i < old(a)@.len(), j < old(a)@.len()
    ensures final(a)@ == old(a)@.update(i as int, old(a)@[j as int]).update(j as int, old(a)@[i as int])
@at end
    proof { assert(a@ =~= old(a)@.update(i as int, old(a)@[j as int]).update(j as int, old(a)@[i as int])); }
@endfn
@fn arithmetic/modular_solver.rs :: modular_row_echelon_form
    sub Matrix=Vec<Vec<i64>>
    cmp
    call .rem_euclid=vrem_euclid
    letty irow usize
    unwrap
@spec
    requires prime.v() >= 2
    ensures res@.len() == matrix@.len(),
        matrix@.len() > 0 ==> {
            let nc = matrix@[0]@.len();
            &&& rect(matrix@, matrix@.len(), nc) && rect(res@, matrix@.len(), nc)
            &&& in_range(res@, nc, prime.v())
            &&& is_rref(res@, nc)
            &&& same_space(matrix@, res@, nc, prime.v())
            &&& indep(matrix@, nc, prime.v()) ==> indep(res@, nc, prime.v())
        }
@at start
    let ghost p = prime.v();
@loop 1
    a@.len() == it1,
    forall|i: int| 0 <= i < it1 ==> (#[trigger] a@[i])@.len() == matrix@[i]@.len(),
    forall|i: int| 0 <= i < it1 ==> (#[trigger] a@[i])@.len() == a@[0]@.len(),
    forall|i: int, j: int| 0 <= i < it1 && 0 <= j < a@[i]@.len() ==> 0 <= #[trigger] a@[i]@[j] < p && cg(a@[i]@[j] as int, matrix@[i]@[j] as int, p),
@loop 2
    acc2@.len() == it2,
    forall|j: int| 0 <= j < it2 ==> 0 <= #[trigger] acc2@[j] < p && cg(acc2@[j] as int, seq2@[j] as int, p),
@at loop 2 end
    proof { lemma_mod_cg(seq2@[cur2 as int] as int, p); }
@at after loop 1
    let ghost nc = matrix@[0]@.len();
    let ghost m0 = a@;
    proof {
        assert forall|i: int| 0 <= i < a@.len() implies (#[trigger] matrix@[i])@.len() == nc by { assert(a@[i]@.len() == a@[0]@.len()); }
        assert forall|i: int, j: int| 0 <= i < a@.len() && 0 <= j < nc implies cg(#[trigger] a@[i]@[j] as int, matrix@[i]@[j] as int, p) by { assert(a@[i]@.len() == nc); }
        lemma_reduced(a@, matrix@, nc, p);
    }
    let ghost mut piv: Seq<int> = seq![];
@loop 3
    nrows == matrix@.len(), ncols == nc, rect(a@, matrix@.len(), nc), in_range(a@, nc, p),
    irow == piv.len(), irow <= it3,
    rref(a@, nc, piv, it3 as int),
    same_space(matrix@, a@, nc, p), indep(matrix@, nc, p) ==> indep(a@, nc, p),
@loop 4
    forall|r: int| start4 <= r < it4 && r < nrows && acc4.is_none() ==> (#[trigger] a@[r])@[icol as int] == 0,
    acc4 matches Some(r) ==> irow <= r < nrows && a@[r as int]@[icol as int] != 0,
@at loop 3 end
    proof {
        if piv.len() == irow { assert(rref(a@, nc, piv, it3 as int)); }
    }
@at then 2
    let ghost a3 = a@;
    proof {
        if r != irow {
            assert(a@.update(irow as int, a@[r as int]).update(r as int, a@[irow as int]).len() == a@.len());
            lemma_swap(a@, irow as int, r as int, nc, p);
            lemma_space_trans(matrix@, a@, a@.update(irow as int, a@[r as int]).update(r as int, a@[irow as int]), nc, p);
        }
    }
@at before loop 5
    let ghost a5 = a@;
    proof {
        lemma_modinv_facts(f as int, a5[irow as int]@[icol as int] as int, p);
        lemma_rref_swap(a3, nc, piv, icol as int, irow as int, r as int);
    }
@loop 5
    a@.len() == a5.len(), a@[irow as int]@.len() == nc,
    forall|k: int| 0 <= k < a5.len() && k != irow ==> #[trigger] a@[k] == a5[k],
    forall|j: int| 0 <= j < icol || it5 <= j < nc ==> #[trigger] a@[irow as int]@[j] == a5[irow as int]@[j],
    forall|j: int| icol <= j < it5 ==> #[trigger] a@[irow as int]@[j] == (a5[irow as int]@[j] * f) % p,
@at loop 5 end
    proof {
        let x = a5[irow as int]@[j as int] as int;
        assert(x * f >= 0) by (nonlinear_arith) requires x >= 0, f >= 1;
        lemma_trem_cg(x * f, p);
    }
@at after loop 5
    let ghost a6 = a@;
    proof {
        assert forall|j: int| 0 <= j < nc implies cg(#[trigger] a6[irow as int]@[j] as int, f * a5[irow as int]@[j] + 0 * a5[irow as int]@[j], p) && 0 <= a6[irow as int]@[j] < p by {
            let x = a5[irow as int]@[j] as int;
            lemma_mod_cg(x * f, p);
            assert(f * x + 0 * x == x * f) by (nonlinear_arith);
            if j < icol { assert(x == 0); assert(x * f == 0) by (nonlinear_arith) requires x == 0; lemma_cg_refl(0, p); }
        }
        assert(rect(a6, a5.len(), nc));
        assert(row_op(a5, a6, irow as int, irow as int, f as int, 0, nc, p));
        lemma_row_op(a5, a6, irow as int, irow as int, f as int, 0, nc, p, a5[irow as int]@[icol as int] as int);
        lemma_space_trans(matrix@, a5, a6, nc, p);
        assert(a6[irow as int]@[icol as int] == 1);
        assert(in_range(a6, nc, p));
    }
@loop 6
    rect(a@, a6.len(), nc), in_range(a@, nc, p), a@[irow as int] == a6[irow as int],
    same_space(matrix@, a@, nc, p), indep(matrix@, nc, p) ==> indep(a@, nc, p),
    forall|k: int, j: int| 0 <= k < a6.len() && 0 <= j < icol ==> #[trigger] a@[k]@[j] == a6[k]@[j],
    forall|k: int| 0 <= k < it6 && k != irow ==> (#[trigger] a@[k])@[icol as int] == 0,
@at before loop 7
    let ghost a7 = a@;
@loop 7
    a@.len() == a7.len(), a@[i as int]@.len() == nc, a@[irow as int] == a6[irow as int],
    forall|k: int| 0 <= k < a7.len() && k != i ==> #[trigger] a@[k] == a7[k],
    forall|j: int| 0 <= j < icol || it7 <= j < nc ==> #[trigger] a@[i as int]@[j] == a7[i as int]@[j],
    forall|j: int| icol <= j < it7 ==> 0 <= #[trigger] a@[i as int]@[j] < p && cg(a@[i as int]@[j] as int, a7[i as int]@[j] - f * a6[irow as int]@[j], p),
@at loop 7 end
    proof {
        let (x, y) = (a6[irow as int]@[j as int] as int, a7[i as int]@[j as int] as int);
        lemma_elim(x, y, f as int, p);
    }
@at after loop 7
    proof {
        assert forall|j: int| 0 <= j < nc implies cg(#[trigger] a@[i as int]@[j] as int, 1 * a7[i as int]@[j] + (-f) * a7[irow as int]@[j], p) && 0 <= a@[i as int]@[j] < p by {
            let (x, y) = (a6[irow as int]@[j] as int, a7[i as int]@[j] as int);
            assert(1 * y + (-f) * x == y - f * x) by (nonlinear_arith);
            if j < icol { assert(x == 0); assert(f * x == 0) by (nonlinear_arith) requires x == 0; lemma_cg_refl(y, p); }
        }
        assert(row_op(a7, a@, i as int, irow as int, 1, -f as int, nc, p));
        lemma_cg_refl(1, p);
        lemma_row_op(a7, a@, i as int, irow as int, 1, -f as int, nc, p, 1);
        lemma_space_trans(matrix@, a7, a@, nc, p);
        assert(f * 1 == f);
        lemma_cg_eq(a@[i as int]@[icol as int] as int, 0, p);
    }
@at after loop 6
    proof {
        lemma_rref_push(a6, a@, nc, piv, icol as int, irow as int);
        piv = piv.push(icol as int);
    }
@endfn
@fn arithmetic/modular_solver.rs :: modular_matrix_inverse
    sub Matrix=Vec<Vec<i64>>
    cmp
    letty a Vec<Vec<i64>>
@spec
    requires prime.v() >= 2
    ensures
        res matches Some(x) ==> matrix@.len() > 0 && rect(matrix@, matrix@.len(), matrix@.len()) && rect(x@, matrix@.len(), matrix@.len())
            && in_range(x@, matrix@.len(), prime.v()) && mod_inv(matrix@, x@, prime.v()) && mod_linv(matrix@, x@, prime.v()),
        res.is_none() && matrix@.len() > 0 ==> rect(matrix@, matrix@.len(), matrix@.len())
            && forall|y: Seq<Vec<i64>>| rect(y, matrix@.len(), matrix@.len()) ==> !#[trigger] mod_inv(matrix@, y, prime.v()),
@at start
    let ghost p = prime.v();
@loop 1
    a@.len() == it1, n == matrix@.len(),
    forall|i: int| 0 <= i < it1 ==> (#[trigger] matrix@[i])@.len() == n,
    forall|i: int| 0 <= i < it1 ==> (#[trigger] a@[i])@.len() == n + n,
    forall|i: int, j: int| 0 <= i < it1 && 0 <= j < n ==> #[trigger] a@[i]@[j] == matrix@[i]@[j],
    forall|i: int, j: int| 0 <= i < it1 && n <= j < n + n ==> #[trigger] a@[i]@[j] == (if j == n + i { 1int } else { 0int }),
@loop 2
    row@.len() == n + it2,
    forall|j: int| 0 <= j < n ==> #[trigger] row@[j] == matrix@[i as int]@[j],
    forall|j: int| n <= j < n + it2 ==> #[trigger] row@[j] == 0,
@at after loop 1
    let ghost m = a@;
    proof { assert(augmented(matrix@, m)); lemma_aug_indep(matrix@, m, p); }
@at before loop 3
    let ghost nn = (n + n) as nat;
    proof { assert(is_rref(a@, nn)); }
    let ghost piv = choose|piv: Seq<int>| #[trigger] rref(a@, nn, piv, nn as int);
@loop 3
    forall|i: int, j: int| 0 <= i < it3 && 0 <= j < n ==> #[trigger] a@[i]@[j] == (if i == j { 1int } else { 0int }),
@loop 4
    forall|j: int| 0 <= j < it4 ==> #[trigger] a@[i as int]@[j] == (if i == j { 1int } else { 0int }),
@at ret 2
    proof {
        assert forall|y: Seq<Vec<i64>>| rect(y, matrix@.len(), matrix@.len()) implies !#[trigger] mod_inv(matrix@, y, p) by {
            if mod_inv(matrix@, y, p) { lemma_no_inverse(matrix@, m, a@, piv, y, p, i as int, j as int); }
        }
    }
@loop 5
    acc5@.len() == it5,
    forall|i: int| 0 <= i < it5 ==> (#[trigger] acc5@[i])@.len() == n,
    forall|i: int, j: int| 0 <= i < it5 && 0 <= j < n ==> #[trigger] acc5@[i]@[j] == a@[i]@[n + j],
@at after loop 5
    proof {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies 0 <= #[trigger] acc5@[i]@[j] < p by { assert(a@[i]@[n + j] >= 0); }
        lemma_inverse_found(matrix@, m, a@, acc5@, p);
    }
@endfn
/// x is row i of a times column j of b modulo p: congruent, smaller than p, and in [0,p) for factors that are not negative
pub open spec fn mod_part(x: int, a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, i: int, j: int, p: int, n: nat) -> bool {
    &&& cg(x, lin(rowq(a, i), b, j, n), p) && -p < x < p
    &&& (forall|k: int| 0 <= k < n ==> (#[trigger] a[i]@[k]) >= 0 && b[k]@[j] >= 0) ==> x >= 0
}
pub open spec fn mod_entry(x: int, a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, i: int, j: int, p: int) -> bool { mod_part(x, a, b, i, j, p, b.len()) }
pub proof fn lemma_mod_part(x: int, y: int, a: Seq<Vec<i64>>, b: Seq<Vec<i64>>, i: int, j: int, p: int, n: nat)
    requires p >= 2, 0 <= n < a[i]@.len(), n < b.len(), x == a[i]@[n as int], y == b[n as int]@[j]
    ensures n == 0 ==> mod_part(trem(x * y, p), a, b, i, j, p, 1),
        forall|s: int| #[trigger] mod_part(s, a, b, i, j, p, n) ==> mod_part(trem(s + trem(x * y, p), p), a, b, i, j, p, n + 1),
{
    let t = trem(x * y, p);
    lemma_trem_cg(x * y, p);
    assert(x >= 0 && y >= 0 ==> x * y >= 0) by (nonlinear_arith);
    lemma_cg_refl(0, p);
    assert(rowq(a, i)[n as int] == x);
    let l0 = lin(rowq(a, i), b, j, n);
    assert(lin(rowq(a, i), b, j, n + 1) == l0 + x * y);
    if n == 0 {
        assert((forall|k: int| 0 <= k < 1 ==> (#[trigger] a[i]@[k]) >= 0 && b[k]@[j] >= 0) ==> a[i]@[0] >= 0);
    }
    assert forall|s: int| #[trigger] mod_part(s, a, b, i, j, p, n) implies mod_part(trem(s + t, p), a, b, i, j, p, n + 1) by {
        lemma_trem_cg(s + t, p);
        lemma_cg_refl(1, p);
        lemma_cg_step(s, l0, 1, 1, t, x * y, p);
        lemma_cg_trans(trem(s + t, p), s + t, l0 + x * y, p);
        if forall|k: int| 0 <= k < n + 1 ==> (#[trigger] a[i]@[k]) >= 0 && b[k]@[j] >= 0 {
            assert(a[i]@[n as int] >= 0 && b[n as int]@[j] >= 0);
        }
    }
}
@fn arithmetic/modular_solver.rs :: modular_matrix_product
    sub Matrix=Vec<Vec<i64>>
    cmp
    unwrap
    letty product Vec<Vec<i64>>
    letty row_out Vec<i64>
@spec
    requires prime.v() >= 2, a@.len() > 0, b@.len() > 0, rect(a@, a@.len(), a@[0]@.len()), rect(b@, b@.len(), b@[0]@.len())
    ensures a@[0]@.len() == b@.len(), rect(res@, a@.len(), b@[0]@.len()),
        forall|i: int, j: int| 0 <= i < a@.len() && 0 <= j < b@[0]@.len() ==> mod_entry(#[trigger] res@[i]@[j] as int, a@, b@, i, j, prime.v()),
@at start
    let ghost p = prime.v();
@loop 1
    product@.len() == it1, ncols_a == b@.len(), ncols_b == b@[0]@.len(), rect(product@, it1 as nat, ncols_b as nat),
    forall|i: int, j: int| 0 <= i < it1 && 0 <= j < ncols_b ==> mod_entry(#[trigger] product@[i]@[j] as int, a@, b@, i, j, p),
@loop 2
    row_out@.len() == it2, row@ == a@[cur1 as int]@, row@.len() == ncols_a,
    forall|j: int| 0 <= j < it2 ==> mod_entry(#[trigger] row_out@[j] as int, a@, b@, cur1 as int, j, p),
@loop 3
    acc3.is_none() ==> it3 == 0,
    acc3 matches Some(x) ==> it3 > 0 && mod_part(x as int, a@, b@, cur1 as int, j as int, p, it3 as nat),
@at loop 3 end
    proof {
        let (x, y) = (row@[cur3 as int] as int, b@[cur3 as int]@[j as int] as int);
        lemma_mod_part(x, y, a@, b@, cur1 as int, j as int, p, cur3 as nat);
    }
@endfn
@fn arithmetic/modular_solver.rs :: integer_matrix_product
    sub Matrix=Vec<Vec<i64>>
    cmp
    sumty i64
    letty product Vec<Vec<i64>>
    letty row_out Vec<i64>
@spec
    requires a@.len() > 0, b@.len() > 0, rect(a@, a@.len(), a@[0]@.len()), rect(b@, b@.len(), b@[0]@.len())
    ensures a@[0]@.len() == b@.len(), rect(res@, a@.len(), b@[0]@.len()),
        forall|i: int, j: int| 0 <= i < a@.len() && 0 <= j < b@[0]@.len() ==> #[trigger] res@[i]@[j] == lin(rowq(a@, i), b@, j, b@.len()),
@loop 1
    product@.len() == it1, ncols_a == b@.len(), ncols_b == b@[0]@.len(), rect(product@, it1 as nat, ncols_b as nat),
    forall|i: int, j: int| 0 <= i < it1 && 0 <= j < ncols_b ==> #[trigger] product@[i]@[j] == lin(rowq(a@, i), b@, j, b@.len()),
@loop 2
    row_out@.len() == it2, row@ == a@[cur1 as int]@, row@.len() == ncols_a,
    forall|j: int| 0 <= j < it2 ==> #[trigger] row_out@[j] == lin(rowq(a@, cur1 as int), b@, j, b@.len()),
@loop 3
    acc3 == lin(rowq(a@, cur1 as int), b@, j as int, it3 as nat),
@endfn
