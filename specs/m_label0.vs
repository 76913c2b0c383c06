@# integer vectors as edge labels: group, sign and order
pub open spec fn zerol(n: int) -> Seq<int> { Seq::new(n as nat, |k: int| 0int) }
pub open spec fn negl(a: Seq<int>) -> Seq<int> { Seq::new(a.len(), |k: int| -a[k]) }
pub open spec fn addl(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |k: int| a[k] + b[k]) }
pub open spec fn subl(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |k: int| a[k] - b[k]) }
/// the first entry that is not zero is negative (positive)
pub open spec fn lexneg(a: Seq<int>) -> bool decreases a.len() { a.len() > 0 && (a[0] < 0 || a[0] == 0 && lexneg(a.skip(1))) }
pub open spec fn lexpos(a: Seq<int>) -> bool decreases a.len() { a.len() > 0 && (a[0] > 0 || a[0] == 0 && lexpos(a.skip(1))) }
pub proof fn lemma_lex2(a: Seq<int>)
    requires a.len() == 2
    ensures lexneg(a) <==> a[0] < 0 || a[0] == 0 && a[1] < 0, lexpos(a) <==> a[0] > 0 || a[0] == 0 && a[1] > 0
{
    reveal_with_fuel(lexneg, 4); reveal_with_fuel(lexpos, 4);
    assert(a.skip(1)[0] == a[1]);
}
pub proof fn lemma_lex3(a: Seq<int>)
    requires a.len() == 3
    ensures lexneg(a) <==> a[0] < 0 || a[0] == 0 && a[1] < 0 || a[0] == 0 && a[1] == 0 && a[2] < 0, lexpos(a) <==> a[0] > 0 || a[0] == 0 && a[1] > 0 || a[0] == 0 && a[1] == 0 && a[2] > 0
{
    lemma_lex2(a.skip(1));
    reveal_with_fuel(lexneg, 2); reveal_with_fuel(lexpos, 2);
    assert(a.skip(1)[0] == a[1] && a.skip(1)[1] == a[2]);
}
/// lexicographic order
pub open spec fn lexlt(a: Seq<int>, b: Seq<int>) -> bool decreases a.len() {
    a.len() > 0 && b.len() > 0 && (a[0] < b[0] || a[0] == b[0] && lexlt(a.skip(1), b.skip(1)))
}
/// exactly one of v, -v is positive unless v is zero
pub proof fn lemma_label_sign(a: Seq<int>)
    ensures lexneg(a) <==> lexpos(negl(a)), lexpos(a) <==> lexneg(negl(a)), !(lexneg(a) && lexpos(a)), !lexneg(a) && !lexpos(a) <==> a == zerol(a.len() as int), negl(negl(a)) == a
    decreases a.len()
{
    assert(negl(negl(a)) =~= a);
    if a.len() > 0 {
        lemma_label_sign(a.skip(1));
        assert(negl(a).skip(1) =~= negl(a.skip(1)));
        let z = zerol(a.len() as int);
        assert(z.skip(1) =~= zerol(a.len() - 1));
        if a[0] == 0 && a.skip(1) == z.skip(1) {
            assert forall|k: int| 0 <= k < a.len() implies a[k] == z[k] by { if k > 0 { assert(a.skip(1)[k - 1] == z.skip(1)[k - 1]); } }
            assert(a =~= z);
        }
    } else { assert(a =~= zerol(0)); }
}
/// labels of one length form an Abelian group, ordered by their sign
pub proof fn lemma_label_group(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires a.len() == b.len(), b.len() == c.len()
    ensures addl(a, b) == addl(b, a), addl(addl(a, b), c) == addl(a, addl(b, c)), addl(a, zerol(a.len() as int)) == a, addl(a, negl(a)) == zerol(a.len() as int), subl(a, b) == addl(a, negl(b)),
        subl(addl(a, c), addl(b, c)) == subl(a, b), addl(subl(a, b), b) == a
{
    assert(addl(a, b) =~= addl(b, a)); assert(addl(addl(a, b), c) =~= addl(a, addl(b, c))); assert(addl(a, zerol(a.len() as int)) =~= a);
    assert(addl(a, negl(a)) =~= zerol(a.len() as int)); assert(subl(a, b) =~= addl(a, negl(b))); assert(subl(addl(a, c), addl(b, c)) =~= subl(a, b)); assert(addl(subl(a, b), b) =~= a);
}
pub proof fn lemma_label_order(a: Seq<int>, b: Seq<int>)
    requires a.len() == b.len()
    ensures lexlt(a, b) <==> lexpos(subl(b, a)), lexpos(a) && lexpos(b) ==> lexpos(addl(a, b))
    decreases a.len()
{
    if a.len() > 0 {
        lemma_label_order(a.skip(1), b.skip(1));
        assert(subl(b, a).skip(1) =~= subl(b.skip(1), a.skip(1)));
        assert(addl(a, b).skip(1) =~= addl(a.skip(1), b.skip(1)));
        if lexpos(a) && lexpos(b) {
            if a[0] == 0 && b[0] == 0 { }
            else { assert(addl(a, b)[0] > 0); }
        }
    }
}
