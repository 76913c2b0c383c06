@# determinant of src/arithmetic/linear_algebra.rs, with the same code of extend_basis under the contract it needs
@template EXTENDD L S V Z O C
@fn arithmetic/linear_algebra.rs :: extend_basis
    as extend_basis_det_$S
    inst $S
    sub T=$S
    call Scalar::clear_column=clear_column_$C
    accty 1 Option<usize>
    accty 3 Vec<$S>
@spec
    requires $L::echelon($L::rows(old(bs)@), v@.len() as int)
    ensures $L::echelon($L::rows(final(bs)@), v@.len() as int),
        $L::deq($L::rows(final(bs)@), $L::rows(old(bs)@).push($L::vv(v@)), v@.len() as int)
        || (final(bs)@.len() <= old(bs)@.len() && $L::dzero($L::rows(old(bs)@).push($L::vv(v@)), v@.len() as int))
@closure pivot_column
    -> (res: Option<usize>)
    ensures res matches Some(c) ==> c == $L::piv($L::vv(v@)) && c < v@.len(),
        res.is_none() ==> $L::piv($L::vv(v@)) == v@.len()
@loop 1
    forall|k: int| 0 <= k < it1 && (acc1.is_none() || k < it1 - 1) ==> (#[trigger] seq1@[k]).v() == $Z, seq1@ == v@,
    acc1 matches Some(c) ==> 0 <= c < v@.len() && c + 1 == it1 && v@[c as int].v() != $Z,
@at after loop 1
    proof { $L::lemma_piv_is($L::vv(v@), match acc1 { Some(c) => c as int, None => v@.len() as int }); }
@at start
    let ghost v0 = $L::vv(v@);
    let ghost n = v0.len() as int;
@loop 2
    bs@.len() == old(bs)@.len(), end2 == bs@.len(), v@.len() == n, $L::echelon($L::rows(bs@), n),
    forall|k: int| 0 <= k < it2 && k < bs@.len() ==> $L::piv(#[trigger] $L::rows(bs@)[k]) < $L::piv($L::vv(v@)),
    $L::deq($L::rows(bs@).push($L::vv(v@)), $L::rows(old(bs)@).push(v0), n),
    ensures it2 >= end2 || $L::piv($L::vv(v@)) == n,
@at loop 2 start
    let ghost (bs1, v1) = (bs@, $L::vv(v@));
    let ghost ii = it2 - 1;
    proof { $L::lemma_piv(v1); assert($L::rows(bs1)[ii].len() == n); $L::lemma_piv($L::rows(bs1)[ii]); }
@loop 3
    seq3@.len() == n, acc3@.len() == it3, forall|k: int| 0 <= k < it3 ==> (#[trigger] acc3@[k]).v() == $Z - seq3@[k].v(),
    $L::vv(seq3@) == v1,
@at ret 1
    proof {
        let (r, w) = ($L::rows(bs1), $L::rows(bs@)[ii]);
        assert($L::rows(bs@) =~= r.insert(ii, w));
        let s = $L::sgn(r.len() - ii);
        assert forall|k: int| 0 <= k < n implies #[trigger] w[k] == s * v1[k] by {
            let z = v1[k];
            assert($O * z == z) by (nonlinear_arith);
            assert(($Z - $O) * z == $Z - z) by (nonlinear_arith);
        }
        assert(w[$L::piv(v1)] != $Z) by { assert(v1[$L::piv(v1)] != $Z); }
        assert forall|k: int| 0 <= k < $L::piv(v1) implies #[trigger] w[k] == $Z by { assert(v1[k] == $Z); assert(s * $Z == $Z) by (nonlinear_arith); }
        $L::lemma_piv_is(w, $L::piv(v1));
        $L::lemma_ech_insert(r, ii, w, n);
        $L::lemma_insert_sign(n, r, ii, v1, w);
        $L::lemma_deq_trans($L::rows(bs@), r.push(v1), $L::rows(old(bs)@).push(v0), n);
    }
@at else 1
    proof { assert(bs@[ii]@ == bs1[ii]@); assert(bs@ =~= bs1); }
@at loop 2 end
    proof {
        if $L::piv(v1) != $L::piv($L::rows(bs1)[ii]) { assert(bs@ =~= bs1); }
        let (r, v2) = ($L::rows(bs1), $L::vv(v@));
        if $L::piv(v1) == $L::piv(r[ii]) {
            let w = $L::rows(bs@)[ii];
            assert($L::rows(bs@) =~= r.update(ii, w));
            $L::lemma_piv_is(w, $L::piv(v1));
            $L::lemma_piv_ge(v2, $L::piv(v1) + 1);
            $L::lemma_ech_update(r, ii, w, n);
            $L::lemma_cleared_forms(n, r, ii, v1, w, v2);
            $L::lemma_deq_trans($L::rows(bs@).push(v2), r.push(v1), $L::rows(old(bs)@).push(v0), n);
            assert forall|k: int| 0 <= k < it2 && k < bs@.len() implies $L::piv(#[trigger] $L::rows(bs@)[k]) < $L::piv(v2) by {
                if k < ii { assert($L::piv(r[k]) < $L::piv(v1)); }
            }
        }
    }
@at after loop 2
    let ghost (bsx, vx) = (bs@, $L::vv(v@));
@at end
    proof {
        $L::lemma_piv(vx);
        if $L::piv(vx) < n {
            let r = $L::rows(bsx);
            assert($L::rows(bs@) =~= r.insert(r.len() as int, vx) && $L::rows(bs@) =~= r.push(vx));
            $L::lemma_ech_insert(r, r.len() as int, vx, n);
        } else {
            assert(vx =~= $L::zero(n));
            $L::lemma_zero_form(n, $L::rows(bsx), vx);
            $L::lemma_deq_trans($L::rows(old(bs)@).push(v0), $L::rows(bsx).push(vx), $L::rows(old(bs)@).push(v0), n);
        }
    }
@endfn
@endtemplate
@expand EXTENDD L=LinR S=Rat V=real Z=0real O=1real C=Rat
@expand EXTENDD L=LinZ S=Int V=int Z=0int O=1int C=i64
