@# LabelVector2d and LabelVector3d of src/pgraphs.rs
use std::marker::PhantomData;
pub fn vphantom<T>() -> (r: PhantomData<T>) { PhantomData }
@struct pgraphs.rs LabelVector2d i32=Int
@struct pgraphs.rs LabelVector3d i32=Int
impl<CS> LabelVector2d<CS> { pub open spec fn v(self) -> Seq<int> { seq![self.x.v(), self.y.v()] } }
impl<CS> LabelVector3d<CS> { pub open spec fn v(self) -> Seq<int> { seq![self.x.v(), self.y.v(), self.z.v()] } }
@template LABEL L N F E
impl<CS> $L<CS> {
@fn pgraphs.rs :: $L<CS>::new
    sub i32=Int
    call PhantomData::default=vphantom
@spec
    ensures res.v() == $E
@endfn
@fn pgraphs.rs :: LabelVector<CS> for $L<CS>::dim
@spec
    ensures res == $N
@endfn
@fn pgraphs.rs :: LabelVector<CS> for $L<CS>::zero
    sub i32=Int
    call PhantomData::default=vphantom
    lit Int
@spec
    ensures res.v() == zerol($N)
@at end
    proof { assert(res.v() =~= zerol($N)); }
@endfn
@fn pgraphs.rs :: LabelVector<CS> for $L<CS>::is_zero
    cmp
    lit Int
@spec
    ensures res == (self.v() == zerol($N))
@at start
    proof { let (a, b) = (self.v(), zerol($N)); assert(a =~= b <==> (forall|k: int| 0 <= k < $N ==> a[k] == b[k])); assert(self.x.v() == a[0] && self.y.v() == a[1] && self.$F.v() == a[$N - 1]); }
@endfn
@fn pgraphs.rs :: LabelVector<CS> for $L<CS>::is_negative
    cmp
    lit Int
@spec
    ensures res == lexneg(self.v())
@at start
    proof { lemma_lex$N(self.v()); }
@endfn
@fn pgraphs.rs :: LabelVector<CS> for $L<CS>::is_positive
    cmp
    lit Int
@spec
    ensures res == lexpos(self.v())
@at start
    proof { lemma_lex$N(self.v()); }
@endfn
@fn pgraphs.rs :: LabelVector<CS> for $L<CS>::to_vec
    sub i32=Int
@spec
    ensures vi(res@) == self.v()
@at end
    proof { assert(vi(res@) =~= self.v()); }
@endfn
@fn pgraphs.rs :: LabelVector<CS> for $L<CS>::from_vec
    sub i32=Int
@spec
    ensures v@.len() == $N, res.v() == vi(v@)
@at end
    proof { assert(vi(v@) =~= res.v()); }
@endfn
@fn pgraphs.rs :: Neg for $L<CS>::neg
@spec
    ensures res.v() == negl(self.v())
@at end
    proof { assert(res.v() =~= negl(self.v())); }
@endfn
@fn pgraphs.rs :: Add<Self> for $L<CS>::add
    rettype Self
@spec
    ensures res.v() == addl(self.v(), rhs.v())
@at end
    proof { assert(res.v() =~= addl(self.v(), rhs.v())); }
@endfn
@fn pgraphs.rs :: Sub<Self> for $L<CS>::sub
    rettype Self
@spec
    ensures res.v() == subl(self.v(), rhs.v())
@at end
    proof { assert(res.v() =~= subl(self.v(), rhs.v())); }
@endfn
}
@endtemplate
pub open spec fn vi(v: Seq<Int>) -> Seq<int> { Seq::new(v.len(), |k: int| v[k].v()) }
@expand LABEL L=LabelVector2d N=2 F=y E=seq![x.v(),y.v()]
@expand LABEL L=LabelVector3d N=3 F=z E=seq![x.v(),y.v(),z.v()]
