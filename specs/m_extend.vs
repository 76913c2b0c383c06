@# extend_basis, rank, reduced_basis of src/arithmetic/linear_algebra.rs
@template EXTEND L S V Z O C
@fn arithmetic/linear_algebra.rs :: extend_basis
    as extend_basis_$S
    inst $S
    sub T=$S
    call Scalar::clear_column=clear_column_$C
    accty 1 Option<usize>
    accty 3 Vec<$S>
@spec
    requires $L::echelon($L::rows(old(bs)@), v@.len() as int)
    ensures $L::echelon($L::rows(final(bs)@), v@.len() as int), final(bs)@.len() <= old(bs)@.len() + 1,
        forall|p: spec_fn(Seq<$V>) -> bool| #[trigger] $L::sub(p, v@.len() as int) ==>
            ($L::all(p, $L::rows(final(bs)@)) <==> $L::all(p, $L::rows(old(bs)@)) && p($L::vv(v@)))
@closure pivot_column
    -> (res: Option<usize>)
    ensures res matches Some(c) ==> c == $L::piv($L::vv(v@)) && c < v@.len(),
        res.is_none() ==> $L::piv($L::vv(v@)) == v@.len()
@loop 1
    forall|k: int| 0 <= k < it1 && (acc1.is_none() || k < it1 - 1) ==> (#[trigger] seq1@[k]).v() == $Z, seq1@ == v@,
    acc1 matches Some(c) ==> 0 <= c < v@.len() && c + 1 == it1 && v@[c as int].v() != $Z,
@at after loop 1
    proof { $L::lemma_piv_is($L::vv(v@), match acc1 { Some(c) => c as int, None => v@.len() as int }); }
@at start
    let ghost v0 = $L::vv(v@);
    let ghost n = v0.len() as int;
@loop 2
    bs@.len() == old(bs)@.len(), end2 == bs@.len(), v@.len() == n, $L::echelon($L::rows(bs@), n),
    forall|k: int| 0 <= k < it2 && k < bs@.len() ==> $L::piv(#[trigger] $L::rows(bs@)[k]) < $L::piv($L::vv(v@)),
    forall|p: spec_fn(Seq<$V>) -> bool| #[trigger] $L::sub(p, n) ==>
            ($L::all(p, $L::rows(bs@)) && p($L::vv(v@)) <==> $L::all(p, $L::rows(old(bs)@)) && p(v0)),
    ensures it2 >= end2 || $L::piv($L::vv(v@)) == n,
@at loop 2 start
    let ghost (bs1, v1) = (bs@, $L::vv(v@));
    let ghost ii = it2 - 1;
    proof { $L::lemma_piv(v1); assert($L::rows(bs1)[ii].len() == n); $L::lemma_piv($L::rows(bs1)[ii]); }
@loop 3
    seq3@.len() == n, acc3@.len() == it3, forall|k: int| 0 <= k < it3 ==> (#[trigger] acc3@[k]).v() == $Z - seq3@[k].v(),
    $L::vv(seq3@) == v1,
@at ret 1
    proof {
        let (r, w) = ($L::rows(bs1), $L::rows(bs@)[ii]);
        assert($L::rows(bs@) =~= r.insert(ii, w));
        assert($L::scaled(v1, w, $O, $O) || $L::scaled(v1, w, $Z - $O, $Z - $O)) by {
            if w[$L::piv(v1)] == v1[$L::piv(v1)] { assert(forall|k: int| 0 <= k < n ==> #[trigger] w[k] == $O * v1[k]); }
            else { assert(forall|k: int| 0 <= k < n ==> #[trigger] w[k] == ($Z - $O) * v1[k]); }
        }
        $L::lemma_piv_is(w, $L::piv(v1));
        $L::lemma_ech_insert(r, ii, w, n);
        assert forall|p: spec_fn(Seq<$V>) -> bool| #[trigger] $L::sub(p, n) implies
            ($L::all(p, $L::rows(bs@)) <==> $L::all(p, $L::rows(old(bs)@)) && p(v0)) by {
            if $L::scaled(v1, w, $O, $O) { $L::lemma_scaled(p, n, v1, w, $O, $O); } else { $L::lemma_scaled(p, n, v1, w, $Z - $O, $Z - $O); }
        }
    }
@at else 1
    proof { assert(bs@[ii]@ == bs1[ii]@); assert(bs@ =~= bs1); }
@at loop 2 end
    proof {
        if $L::piv(v1) != $L::piv($L::rows(bs1)[ii]) { assert(bs@ =~= bs1); }
        let (r, v2) = ($L::rows(bs1), $L::vv(v@));
        if $L::piv(v1) == $L::piv(r[ii]) {
            let w = $L::rows(bs@)[ii];
            assert($L::rows(bs@) =~= r.update(ii, w));
            $L::lemma_piv_is(w, $L::piv(v1));
            $L::lemma_piv_ge(v2, $L::piv(v1) + 1);
            $L::lemma_ech_update(r, ii, w, n);
            assert forall|p: spec_fn(Seq<$V>) -> bool| #[trigger] $L::sub(p, n) implies
                ($L::all(p, $L::rows(bs@)) && p(v2) <==> $L::all(p, $L::rows(old(bs)@)) && p(v0)) by {
                $L::lemma_cleared(p, n, r[ii], v1, w, v2);
                $L::lemma_all_update(p, r, ii, w, p(v1), p(v2));
            }
            assert forall|k: int| 0 <= k < it2 && k < bs@.len() implies $L::piv(#[trigger] $L::rows(bs@)[k]) < $L::piv(v2) by {
                if k < ii { assert($L::piv(r[k]) < $L::piv(v1)); }
            }
        }
    }
@at after loop 2
    let ghost (bsx, vx) = (bs@, $L::vv(v@));
@at end
    proof {
        $L::lemma_piv(vx);
        if $L::piv(vx) < n {
            let r = $L::rows(bsx);
            assert($L::rows(bs@) =~= r.insert(r.len() as int, vx));
            $L::lemma_ech_insert(r, r.len() as int, vx, n);
        } else {
            assert(vx =~= $L::zero(n));
        }
    }
@endfn
@endtemplate
@expand EXTEND L=LinR S=Rat V=real Z=0real O=1real C=Rat
@expand EXTEND L=LinZ S=Int V=int Z=0int O=1int C=i64
