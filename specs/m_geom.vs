@# Contracts of src/arithmetic/geometry.rs: vectors, points, scalar products, affine and coordinate maps.
use std::marker::PhantomData;
@struct arithmetic/geometry.rs Vector
@struct arithmetic/geometry.rs Point
@struct arithmetic/geometry.rs ScalarProduct
@struct arithmetic/geometry.rs AffineMap
@struct arithmetic/geometry.rs CoordinateMap
impl<T: Clone, CS> Clone for Vector<T, CS> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Clone, CS> Clone for Point<T, CS> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Clone, CS> Clone for AffineMap<T, CS> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn vphantom<T>() -> (r: PhantomData<T>) { PhantomData }
/// Into is From
pub trait VInto<O>: Sized { spec fn into_req(self) -> bool; spec fn into_ens(self, o: O) -> bool; fn vinto(self) -> (r: O) requires self.into_req() ensures self.into_ens(r); }

impl<T, CS> VSeq for Vector<T, CS> { type Item = T;
    open spec fn vseq_spec(&self) -> Seq<T> { self.coords.data@ }
@fn arithmetic/geometry.rs :: Vector<T, CS>::iter
    as vseq
    nopub
    rettype &Vec<T>
    call .iter=vseq
@endfn
}
impl<T, CS> Vector<T, CS> {
    pub open spec fn wf(self) -> bool { self.coords.wf() && self.coords.ncols == 1 }
    pub open spec fn n(self) -> int { self.coords.data@.len() as int }
@fn arithmetic/geometry.rs :: Vector<T, CS>::dim
@spec
    ensures res == self.coords.nrows, self.wf() ==> res == self.n()
@endfn
@fn arithmetic/geometry.rs :: Index<usize> for Vector<T, CS>::index
    rettype &T
@spec
    requires self.wf()
    ensures i < self.n(), *res == self.coords.data@[i as int]
@endfn
@fn arithmetic/geometry.rs :: IndexMut<usize> for Vector<T, CS>::index_mut
    rettype &mut T
@spec
    requires old(self).wf()
    ensures i < old(self).n(), *res == old(self).coords.data@[i as int], final(self).wf(), final(self).n() == old(self).n(),
        final(self).coords.data@ == old(self).coords.data@.update(i as int, *final(res))
@endfn
}
impl<T: Clone, CS> Vector<T, CS> {
@fn arithmetic/geometry.rs :: From<Matrix<T>> for Vector<T, CS>::from
    call PhantomData::default=vphantom
@spec
    ensures res.coords == coords
@endfn
@fn arithmetic/geometry.rs :: Vector<T, CS>::new
    call PhantomData::default=vphantom
@spec
    ensures res.wf(), res.coords.data@ == coords@
@endfn
@fn arithmetic/geometry.rs :: FromIterator<T> for Vector<T, CS>::from_iter
    as from_iter_vec
    param iter Vec<T>
    call Vec::from_iter=vident
@spec
    ensures res.wf(), res.coords.data@ == iter@
@endfn
}

impl<T, CS> VSeq for Point<T, CS> { type Item = T;
    open spec fn vseq_spec(&self) -> Seq<T> { self.coords.data@ }
@fn arithmetic/geometry.rs :: Point<T, CS>::iter
    as vseq
    nopub
    rettype &Vec<T>
    call .iter=vseq
@endfn
}
impl<T, CS> Point<T, CS> {
    pub open spec fn wf(self) -> bool { self.coords.wf() && self.coords.ncols == 1 }
    pub open spec fn n(self) -> int { self.coords.data@.len() as int }
@fn arithmetic/geometry.rs :: Point<T, CS>::dim
@spec
    ensures res == self.coords.nrows, self.wf() ==> res == self.n()
@endfn
@fn arithmetic/geometry.rs :: Index<usize> for Point<T, CS>::index
    rettype &T
@spec
    requires self.wf()
    ensures i < self.n(), *res == self.coords.data@[i as int]
@endfn
@fn arithmetic/geometry.rs :: IndexMut<usize> for Point<T, CS>::index_mut
    rettype &mut T
@spec
    requires old(self).wf()
    ensures i < old(self).n(), *res == old(self).coords.data@[i as int], final(self).wf(), final(self).n() == old(self).n(),
        final(self).coords.data@ == old(self).coords.data@.update(i as int, *final(res))
@endfn
}
impl<T: Clone, CS> Point<T, CS> {
@fn arithmetic/geometry.rs :: From<Matrix<T>> for Point<T, CS>::from
    call PhantomData::default=vphantom
@spec
    ensures res.coords == coords
@endfn
@fn arithmetic/geometry.rs :: Point<T, CS>::new
    call PhantomData::default=vphantom
@spec
    ensures res.wf(), res.coords.data@ == coords@
@endfn
@fn arithmetic/geometry.rs :: FromIterator<T> for Point<T, CS>::from_iter
    as from_iter_vec
    param iter Vec<T>
    call Vec::from_iter=vident
@spec
    ensures res.wf(), res.coords.data@ == iter@
@endfn
}

impl<T, CS> ScalarProduct<T, CS> {
    pub open spec fn wf(self) -> bool { self.coeffs.wf() && self.coeffs.nrows == self.coeffs.ncols }
@fn arithmetic/geometry.rs :: ScalarProduct<T, CS>::dim
@spec
    ensures res == self.coeffs.nrows
@endfn
@fn arithmetic/geometry.rs :: Index<(usize, usize)> for ScalarProduct<T, CS>::index
    rettype &T
@spec
    requires self.coeffs.wf()
    ensures arg1.0 < self.coeffs.nrows, arg1.1 < self.coeffs.ncols, *res == self.coeffs.el(arg1.0 as int, arg1.1 as int)
@endfn
}
impl<T, CS> AffineMap<T, CS> {
    pub open spec fn n(self) -> int { self.shift.n() }
    pub open spec fn wf(self) -> bool { self.shift.wf() && self.linear_coeffs.wf() && self.linear_coeffs.nrows == self.n() && self.linear_coeffs.ncols == self.n() }
@fn arithmetic/geometry.rs :: AffineMap<T, CS>::dim
@spec
    ensures res == self.shift.coords.nrows, self.wf() ==> res == self.n()
@endfn
}
impl<T: Clone, CS: Clone> AffineMap<T, CS> {
@fn arithmetic/geometry.rs :: AffineMap<T, CS>::new
@spec
    requires shift.wf(), linear_coeffs.wf()
    ensures res.linear_coeffs == *linear_coeffs, res.shift == *shift, res.wf()
@endfn
@fn arithmetic/geometry.rs :: AffineMap<T, CS>::linear_matrix
@spec
    ensures res == self.linear_coeffs
@endfn
@fn arithmetic/geometry.rs :: AffineMap<T, CS>::shift
@spec
    ensures res == self.shift
@endfn
@fn arithmetic/geometry.rs :: AffineMap<T, CS>::adjust
    generics <CSIn: Clone>
@spec
    ensures res.linear_coeffs == src.linear_coeffs, res.shift.coords == src.shift.coords
@endfn
}
impl<T, CSIn, CSOut> CoordinateMap<T, CSIn, CSOut> {
@fn arithmetic/geometry.rs :: CoordinateMap<T, CSIn, CSOut>::dim
@spec
    ensures res == self.forward.shift.coords.nrows, self.forward.wf() ==> res == self.forward.n()
@endfn
}
impl<T: Clone, CSIn: Clone, CSOut> CoordinateMap<T, CSIn, CSOut> {
@fn arithmetic/geometry.rs :: CoordinateMap<T, CSIn, CSOut>::forward
@spec
    ensures res == self.forward
@endfn
}
impl<T: Clone, CSIn: Clone, CSOut: Clone> CoordinateMap<T, CSIn, CSOut> {
@fn arithmetic/geometry.rs :: CoordinateMap<T, CSIn, CSOut>::inverse
@spec
    ensures res.forward == self.backward, res.backward == self.forward
@endfn
}

@template GEOM L S V Z O div
impl<CS> Vector<$S, CS> {
    pub open spec fn xs(self) -> Seq<$V> { $L::vv(self.coords.data@) }
@fn arithmetic/geometry.rs :: Vector<T, CS>::zero
    inst $S
    sub T=$S
@spec
    ensures res.wf(), res.n() == dim, forall|k: int| 0 <= k < dim ==> #[trigger] res.xs()[k] == $Z
@endfn
}
impl<CS> Point<$S, CS> {
    pub open spec fn xs(self) -> Seq<$V> { $L::vv(self.coords.data@) }
@fn arithmetic/geometry.rs :: Point<T, CS>::origin
    inst $S
    sub T=$S
@spec
    ensures res.wf(), res.n() == dim, forall|k: int| 0 <= k < dim ==> #[trigger] res.xs()[k] == $Z
@endfn
}
impl<CS> Vector<$S, CS> {
@fn arithmetic/geometry.rs :: Vector<T, CS>::unit
    inst $S
    sub T=$S Vector::zero=Vector::<$S,CS>::zero
    vidx v
@spec
    ensures k < n, res.wf(), res.n() == n, forall|i: int| 0 <= i < n ==> #[trigger] res.xs()[i] == (if i == k { $O } else { $Z })
@at let v 1
    let ghost v0 = v;
@at end
    proof {
        assert(v0.xs() == $L::zero(n as int)) by { assert(v0.xs() =~= $L::zero(n as int)); }
        assert forall|i: int| 0 <= i < n implies #[trigger] res.xs()[i] == (if i == k { $O } else { $Z }) by { if i != k { assert(res.coords.data@[i] == v0.coords.data@[i]); assert(v0.xs()[i] == $Z); } }
    }
@endfn
}
impl<CS> VNeg for &Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn neg_ens(self, o: Vector<$S, CS>) -> bool { self.wf() ==> o.wf() && o.n() == self.n() && o.xs() == $L::neg(self.xs()) }
@fn arithmetic/geometry.rs :: Neg for &Vector<T, CS>::neg
    as vneg
    inst $S
    nopub
    sub T=$S Self::Output=Vector<$S,CS>
@at end
    proof { if self.wf() { assert(res.xs() =~= $L::neg(self.xs())); } }
@endfn
}
impl<CS> VNeg for Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn neg_ens(self, o: Vector<$S, CS>) -> bool { self.wf() ==> o.wf() && o.n() == self.n() && o.xs() == $L::neg(self.xs()) }
@fn arithmetic/geometry.rs :: Neg for Vector<T, CS>::neg
    as vneg
    inst $S
    nopub
    sub T=$S Self::Output=Vector<$S,CS>
@at end
    proof { if self.wf() { assert(res.xs() =~= $L::neg(self.xs())); } }
@endfn
}
impl<CS> VAddAssign<Vector<$S, CS>> for Vector<$S, CS> {
    open spec fn adda_ens(self, r: Vector<$S, CS>, o: Self) -> bool {
        self.wf() && r.wf() ==> o.wf() && self.n() == r.n() && o.n() == self.n() && o.xs() == $L::addv(self.xs(), r.xs())
    }
@fn arithmetic/geometry.rs :: AddAssign<Vector<T, CS>> for Vector<T, CS>::add_assign
    as vadd_assign
    inst $S
    nopub
    sub T=$S
@at end
    proof { if old(self).wf() && rhs.wf() { assert(self.xs() =~= $L::addv(old(self).xs(), rhs.xs())); } }
@endfn
}
impl<CS: Clone> VAdd<Vector<$S, CS>> for &Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn add_ens(self, r: Vector<$S, CS>, o: Vector<$S, CS>) -> bool { VAddAssign::adda_ens(*self, r, o) }
@fn arithmetic/geometry.rs :: Add<S> for &Vector<T, CS>::add
    as vadd
    inst $S,Vector<$S, CS>
    nopub
    sub T=$S S=Vector<$S,CS>
@endfn
}
impl<CS: Clone> VAdd<Vector<$S, CS>> for Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn add_ens(self, r: Vector<$S, CS>, o: Vector<$S, CS>) -> bool { VAddAssign::adda_ens(self, r, o) }
@fn arithmetic/geometry.rs :: Add<S> for Vector<T, CS>::add
    as vadd
    inst $S,Vector<$S, CS>
    nopub
    sub T=$S S=Vector<$S,CS>
@endfn
}
impl<CS> VAddAssign<&Vector<$S, CS>> for Vector<$S, CS> {
    open spec fn adda_ens(self, r: &Vector<$S, CS>, o: Self) -> bool {
        self.wf() && r.wf() ==> o.wf() && self.n() == r.n() && o.n() == self.n() && o.xs() == $L::addv(self.xs(), r.xs())
    }
@fn arithmetic/geometry.rs :: AddAssign<&Vector<T, CS>> for Vector<T, CS>::add_assign
    as vadd_assign
    inst $S
    nopub
    sub T=$S
@at end
    proof { if old(self).wf() && rhs.wf() { assert(self.xs() =~= $L::addv(old(self).xs(), rhs.xs())); } }
@endfn
}
impl<CS: Clone> VAdd<&Vector<$S, CS>> for &Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn add_ens(self, r: &Vector<$S, CS>, o: Vector<$S, CS>) -> bool { VAddAssign::adda_ens(*self, r, o) }
@fn arithmetic/geometry.rs :: Add<S> for &Vector<T, CS>::add
    as vadd
    inst $S,&Vector<$S, CS>
    nopub
    sub T=$S S=&Vector<$S,CS>
@endfn
}
impl<CS: Clone> VAdd<&Vector<$S, CS>> for Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn add_ens(self, r: &Vector<$S, CS>, o: Vector<$S, CS>) -> bool { VAddAssign::adda_ens(self, r, o) }
@fn arithmetic/geometry.rs :: Add<S> for Vector<T, CS>::add
    as vadd
    inst $S,&Vector<$S, CS>
    nopub
    sub T=$S S=&Vector<$S,CS>
@endfn
}
impl<CS> VSubAssign<Vector<$S, CS>> for Vector<$S, CS> {
    open spec fn suba_ens(self, r: Vector<$S, CS>, o: Self) -> bool {
        self.wf() && r.wf() ==> o.wf() && self.n() == r.n() && o.n() == self.n() && o.xs() == $L::subv(self.xs(), r.xs())
    }
@fn arithmetic/geometry.rs :: SubAssign<Vector<T, CS>> for Vector<T, CS>::sub_assign
    as vsub_assign
    inst $S
    nopub
    sub T=$S
@at end
    proof { if old(self).wf() && rhs.wf() { assert(self.xs() =~= $L::subv(old(self).xs(), rhs.xs())); } }
@endfn
}
impl<CS: Clone> VSub<Vector<$S, CS>> for &Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn sub_ens(self, r: Vector<$S, CS>, o: Vector<$S, CS>) -> bool { VSubAssign::suba_ens(*self, r, o) }
@fn arithmetic/geometry.rs :: Sub<S> for &Vector<T, CS>::sub
    as vsub
    inst $S,Vector<$S, CS>
    nopub
    sub T=$S S=Vector<$S,CS>
@endfn
}
impl<CS: Clone> VSub<Vector<$S, CS>> for Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn sub_ens(self, r: Vector<$S, CS>, o: Vector<$S, CS>) -> bool { VSubAssign::suba_ens(self, r, o) }
@fn arithmetic/geometry.rs :: Sub<S> for Vector<T, CS>::sub
    as vsub
    inst $S,Vector<$S, CS>
    nopub
    sub T=$S S=Vector<$S,CS>
@endfn
}
impl<CS> VSubAssign<&Vector<$S, CS>> for Vector<$S, CS> {
    open spec fn suba_ens(self, r: &Vector<$S, CS>, o: Self) -> bool {
        self.wf() && r.wf() ==> o.wf() && self.n() == r.n() && o.n() == self.n() && o.xs() == $L::subv(self.xs(), r.xs())
    }
@fn arithmetic/geometry.rs :: SubAssign<&Vector<T, CS>> for Vector<T, CS>::sub_assign
    as vsub_assign
    inst $S
    nopub
    sub T=$S
@at end
    proof { if old(self).wf() && rhs.wf() { assert(self.xs() =~= $L::subv(old(self).xs(), rhs.xs())); } }
@endfn
}
impl<CS: Clone> VSub<&Vector<$S, CS>> for &Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn sub_ens(self, r: &Vector<$S, CS>, o: Vector<$S, CS>) -> bool { VSubAssign::suba_ens(*self, r, o) }
@fn arithmetic/geometry.rs :: Sub<S> for &Vector<T, CS>::sub
    as vsub
    inst $S,&Vector<$S, CS>
    nopub
    sub T=$S S=&Vector<$S,CS>
@endfn
}
impl<CS: Clone> VSub<&Vector<$S, CS>> for Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn sub_ens(self, r: &Vector<$S, CS>, o: Vector<$S, CS>) -> bool { VSubAssign::suba_ens(self, r, o) }
@fn arithmetic/geometry.rs :: Sub<S> for Vector<T, CS>::sub
    as vsub
    inst $S,&Vector<$S, CS>
    nopub
    sub T=$S S=&Vector<$S,CS>
@endfn
}
impl<CS> VAddAssign<Vector<$S, CS>> for Point<$S, CS> {
    open spec fn adda_ens(self, r: Vector<$S, CS>, o: Self) -> bool {
        self.wf() && r.wf() ==> o.wf() && self.n() == r.n() && o.n() == self.n() && o.xs() == $L::addv(self.xs(), r.xs())
    }
@fn arithmetic/geometry.rs :: AddAssign<Vector<T, CS>> for Point<T, CS>::add_assign
    as vadd_assign
    inst $S
    nopub
    sub T=$S
@at end
    proof { if old(self).wf() && rhs.wf() { assert(self.xs() =~= $L::addv(old(self).xs(), rhs.xs())); } }
@endfn
}
impl<CS: Clone> VAdd<Vector<$S, CS>> for &Point<$S, CS> { type Out = Point<$S, CS>;
    open spec fn add_ens(self, r: Vector<$S, CS>, o: Point<$S, CS>) -> bool { VAddAssign::adda_ens(*self, r, o) }
@fn arithmetic/geometry.rs :: Add<S> for &Point<T, CS>::add
    as vadd
    inst $S,Vector<$S, CS>
    nopub
    sub T=$S S=Vector<$S,CS>
@endfn
}
impl<CS: Clone> VAdd<Vector<$S, CS>> for Point<$S, CS> { type Out = Point<$S, CS>;
    open spec fn add_ens(self, r: Vector<$S, CS>, o: Point<$S, CS>) -> bool { VAddAssign::adda_ens(self, r, o) }
@fn arithmetic/geometry.rs :: Add<S> for Point<T, CS>::add
    as vadd
    inst $S,Vector<$S, CS>
    nopub
    sub T=$S S=Vector<$S,CS>
@endfn
}
impl<CS> VAddAssign<&Vector<$S, CS>> for Point<$S, CS> {
    open spec fn adda_ens(self, r: &Vector<$S, CS>, o: Self) -> bool {
        self.wf() && r.wf() ==> o.wf() && self.n() == r.n() && o.n() == self.n() && o.xs() == $L::addv(self.xs(), r.xs())
    }
@fn arithmetic/geometry.rs :: AddAssign<&Vector<T, CS>> for Point<T, CS>::add_assign
    as vadd_assign
    inst $S
    nopub
    sub T=$S
@at end
    proof { if old(self).wf() && rhs.wf() { assert(self.xs() =~= $L::addv(old(self).xs(), rhs.xs())); } }
@endfn
}
impl<CS: Clone> VAdd<&Vector<$S, CS>> for &Point<$S, CS> { type Out = Point<$S, CS>;
    open spec fn add_ens(self, r: &Vector<$S, CS>, o: Point<$S, CS>) -> bool { VAddAssign::adda_ens(*self, r, o) }
@fn arithmetic/geometry.rs :: Add<S> for &Point<T, CS>::add
    as vadd
    inst $S,&Vector<$S, CS>
    nopub
    sub T=$S S=&Vector<$S,CS>
@endfn
}
impl<CS: Clone> VAdd<&Vector<$S, CS>> for Point<$S, CS> { type Out = Point<$S, CS>;
    open spec fn add_ens(self, r: &Vector<$S, CS>, o: Point<$S, CS>) -> bool { VAddAssign::adda_ens(self, r, o) }
@fn arithmetic/geometry.rs :: Add<S> for Point<T, CS>::add
    as vadd
    inst $S,&Vector<$S, CS>
    nopub
    sub T=$S S=&Vector<$S,CS>
@endfn
}
impl<CS> VSubAssign<Vector<$S, CS>> for Point<$S, CS> {
    open spec fn suba_ens(self, r: Vector<$S, CS>, o: Self) -> bool {
        self.wf() && r.wf() ==> o.wf() && self.n() == r.n() && o.n() == self.n() && o.xs() == $L::subv(self.xs(), r.xs())
    }
@fn arithmetic/geometry.rs :: SubAssign<Vector<T, CS>> for Point<T, CS>::sub_assign
    as vsub_assign
    inst $S
    nopub
    sub T=$S
@at end
    proof { if old(self).wf() && rhs.wf() { assert(self.xs() =~= $L::subv(old(self).xs(), rhs.xs())); } }
@endfn
}
impl<CS: Clone> VSub<Vector<$S, CS>> for &Point<$S, CS> { type Out = Point<$S, CS>;
    open spec fn sub_ens(self, r: Vector<$S, CS>, o: Point<$S, CS>) -> bool { VSubAssign::suba_ens(*self, r, o) }
@fn arithmetic/geometry.rs :: Sub<S> for &Point<T, CS>::sub
    as vsub
    inst $S,Vector<$S, CS>
    nopub
    sub T=$S S=Vector<$S,CS>
@endfn
}
impl<CS: Clone> VSub<Vector<$S, CS>> for Point<$S, CS> { type Out = Point<$S, CS>;
    open spec fn sub_ens(self, r: Vector<$S, CS>, o: Point<$S, CS>) -> bool { VSubAssign::suba_ens(self, r, o) }
@fn arithmetic/geometry.rs :: Sub<S> for Point<T, CS>::sub
    as vsub
    inst $S,Vector<$S, CS>
    nopub
    sub T=$S S=Vector<$S,CS>
@endfn
}
impl<CS> VSubAssign<&Vector<$S, CS>> for Point<$S, CS> {
    open spec fn suba_ens(self, r: &Vector<$S, CS>, o: Self) -> bool {
        self.wf() && r.wf() ==> o.wf() && self.n() == r.n() && o.n() == self.n() && o.xs() == $L::subv(self.xs(), r.xs())
    }
@fn arithmetic/geometry.rs :: SubAssign<&Vector<T, CS>> for Point<T, CS>::sub_assign
    as vsub_assign
    inst $S
    nopub
    sub T=$S
@at end
    proof { if old(self).wf() && rhs.wf() { assert(self.xs() =~= $L::subv(old(self).xs(), rhs.xs())); } }
@endfn
}
impl<CS: Clone> VSub<&Vector<$S, CS>> for &Point<$S, CS> { type Out = Point<$S, CS>;
    open spec fn sub_ens(self, r: &Vector<$S, CS>, o: Point<$S, CS>) -> bool { VSubAssign::suba_ens(*self, r, o) }
@fn arithmetic/geometry.rs :: Sub<S> for &Point<T, CS>::sub
    as vsub
    inst $S,&Vector<$S, CS>
    nopub
    sub T=$S S=&Vector<$S,CS>
@endfn
}
impl<CS: Clone> VSub<&Vector<$S, CS>> for Point<$S, CS> { type Out = Point<$S, CS>;
    open spec fn sub_ens(self, r: &Vector<$S, CS>, o: Point<$S, CS>) -> bool { VSubAssign::suba_ens(self, r, o) }
@fn arithmetic/geometry.rs :: Sub<S> for Point<T, CS>::sub
    as vsub
    inst $S,&Vector<$S, CS>
    nopub
    sub T=$S S=&Vector<$S,CS>
@endfn
}
impl<CS> VMulAssign<&$S> for Vector<$S, CS> {
    open spec fn mula_ens(self, r: &$S, o: Self) -> bool {
        self.wf() ==> o.wf() && o.n() == self.n() && o.xs() == $L::scal(self.xs(), r.v())
    }
@fn arithmetic/geometry.rs :: MulAssign<&T> for Vector<T, CS>::mul_assign
    as vmul_assign
    inst $S
    nopub
    sub T=$S
@at end
    proof { if old(self).wf() && true { assert(self.xs() =~= $L::scal(old(self).xs(), rhs.v())); } }
@endfn
}
impl<CS: Clone> VMul<&$S> for &Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn mul_req(self, r: &$S) -> bool { true }
    open spec fn mul_ens(self, r: &$S, o: Vector<$S, CS>) -> bool { VMulAssign::mula_ens(*self, r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for &Vector<T, CS>::mul
    as vmul
    inst $S,&$S
    nopub
    sub T=$S S=&$S
@endfn
}
impl<CS: Clone> VMul<&$S> for Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn mul_req(self, r: &$S) -> bool { true }
    open spec fn mul_ens(self, r: &$S, o: Vector<$S, CS>) -> bool { VMulAssign::mula_ens(self, r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for Vector<T, CS>::mul
    as vmul
    inst $S,&$S
    nopub
    sub T=$S S=&$S
@endfn
}
impl<CS> VMulAssign<$S> for Vector<$S, CS> {
    open spec fn mula_ens(self, r: $S, o: Self) -> bool {
        self.wf() ==> o.wf() && o.n() == self.n() && o.xs() == $L::scal(self.xs(), r.v())
    }
@fn arithmetic/geometry.rs :: MulAssign<T> for Vector<T, CS>::mul_assign
    as vmul_assign
    inst $S
    nopub
    sub T=$S
@at end
    proof { if old(self).wf() && true { assert(self.xs() =~= $L::scal(old(self).xs(), rhs.v())); } }
@endfn
}
impl<CS: Clone> VMul<$S> for &Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn mul_req(self, r: $S) -> bool { true }
    open spec fn mul_ens(self, r: $S, o: Vector<$S, CS>) -> bool { VMulAssign::mula_ens(*self, r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for &Vector<T, CS>::mul
    as vmul
    inst $S,$S
    nopub
    sub T=$S S=$S
@endfn
}
impl<CS: Clone> VMul<$S> for Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn mul_req(self, r: $S) -> bool { true }
    open spec fn mul_ens(self, r: $S, o: Vector<$S, CS>) -> bool { VMulAssign::mula_ens(self, r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for Vector<T, CS>::mul
    as vmul
    inst $S,$S
    nopub
    sub T=$S S=$S
@endfn
}
impl<CS> VDivAssign<&$S> for Vector<$S, CS> {
    open spec fn diva_ens(self, r: &$S, o: Self) -> bool {
        self.wf() ==> o.wf() && o.n() == self.n() && (self.n() > 0 ==> r.v() != $Z) && o.xs() == $L::divv(self.xs(), r.v())
    }
@fn arithmetic/geometry.rs :: DivAssign<&T> for Vector<T, CS>::div_assign
    as vdiv_assign
    inst $S
    nopub
    sub T=$S
@at end
    proof { if old(self).wf() && true { assert(self.xs() =~= $L::divv(old(self).xs(), rhs.v())); } }
@endfn
}
impl<CS: Clone> VDiv<&$S> for &Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn div_ens(self, r: &$S, o: Vector<$S, CS>) -> bool { VDivAssign::diva_ens(*self, r, o) }
@fn arithmetic/geometry.rs :: Div<S> for &Vector<T, CS>::div
    as vdiv
    inst $S,&$S
    nopub
    sub T=$S S=&$S
@endfn
}
impl<CS: Clone> VDiv<&$S> for Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn div_ens(self, r: &$S, o: Vector<$S, CS>) -> bool { VDivAssign::diva_ens(self, r, o) }
@fn arithmetic/geometry.rs :: Div<S> for Vector<T, CS>::div
    as vdiv
    inst $S,&$S
    nopub
    sub T=$S S=&$S
@endfn
}
impl<CS> VDivAssign<$S> for Vector<$S, CS> {
    open spec fn diva_ens(self, r: $S, o: Self) -> bool {
        self.wf() ==> o.wf() && o.n() == self.n() && (self.n() > 0 ==> r.v() != $Z) && o.xs() == $L::divv(self.xs(), r.v())
    }
@fn arithmetic/geometry.rs :: DivAssign<T> for Vector<T, CS>::div_assign
    as vdiv_assign
    inst $S
    nopub
    sub T=$S
@at end
    proof { if old(self).wf() && true { assert(self.xs() =~= $L::divv(old(self).xs(), rhs.v())); } }
@endfn
}
impl<CS: Clone> VDiv<$S> for &Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn div_ens(self, r: $S, o: Vector<$S, CS>) -> bool { VDivAssign::diva_ens(*self, r, o) }
@fn arithmetic/geometry.rs :: Div<S> for &Vector<T, CS>::div
    as vdiv
    inst $S,$S
    nopub
    sub T=$S S=$S
@endfn
}
impl<CS: Clone> VDiv<$S> for Vector<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn div_ens(self, r: $S, o: Vector<$S, CS>) -> bool { VDivAssign::diva_ens(self, r, o) }
@fn arithmetic/geometry.rs :: Div<S> for Vector<T, CS>::div
    as vdiv
    inst $S,$S
    nopub
    sub T=$S S=$S
@endfn
}
impl<CS: Clone> VSub<Point<$S, CS>> for &Point<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn sub_ens(self, r: Point<$S, CS>, o: Vector<$S, CS>) -> bool { self.wf() && r.wf() ==> o.wf() && self.n() == r.n() && o.n() == self.n() && o.xs() == $L::subv(self.xs(), r.xs()) }
@fn arithmetic/geometry.rs :: Sub<Point<T, CS>> for &Point<T, CS>::sub
    as vsub
    inst $S
    nopub
    sub T=$S Self::Output=Vector<$S,CS>
@at end
    proof { if self.wf() && rhs.wf() { assert(res.xs() =~= $L::subv(self.xs(), rhs.xs())); } }
@endfn
}
impl<CS: Clone> VSub<&Point<$S, CS>> for &Point<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn sub_ens(self, r: &Point<$S, CS>, o: Vector<$S, CS>) -> bool { self.wf() && r.wf() ==> o.wf() && self.n() == r.n() && o.n() == self.n() && o.xs() == $L::subv(self.xs(), r.xs()) }
@fn arithmetic/geometry.rs :: Sub<&Point<T, CS>> for &Point<T, CS>::sub
    as vsub
    inst $S
    nopub
    sub T=$S Self::Output=Vector<$S,CS>
@at end
    proof { if self.wf() && rhs.wf() { assert(res.xs() =~= $L::subv(self.xs(), rhs.xs())); } }
@endfn
}
impl<CS: Clone> VSub<Point<$S, CS>> for Point<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn sub_ens(self, r: Point<$S, CS>, o: Vector<$S, CS>) -> bool { self.wf() && r.wf() ==> o.wf() && self.n() == r.n() && o.n() == self.n() && o.xs() == $L::subv(self.xs(), r.xs()) }
@fn arithmetic/geometry.rs :: Sub<Point<T, CS>> for Point<T, CS>::sub
    as vsub
    inst $S
    nopub
    sub T=$S Self::Output=Vector<$S,CS>
@at end
    proof { if self.wf() && rhs.wf() { assert(res.xs() =~= $L::subv(self.xs(), rhs.xs())); } }
@endfn
}
impl<CS: Clone> VSub<&Point<$S, CS>> for Point<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn sub_ens(self, r: &Point<$S, CS>, o: Vector<$S, CS>) -> bool { self.wf() && r.wf() ==> o.wf() && self.n() == r.n() && o.n() == self.n() && o.xs() == $L::subv(self.xs(), r.xs()) }
@fn arithmetic/geometry.rs :: Sub<&Point<T, CS>> for Point<T, CS>::sub
    as vsub
    inst $S
    nopub
    sub T=$S Self::Output=Vector<$S,CS>
@at end
    proof { if self.wf() && rhs.wf() { assert(res.xs() =~= $L::subv(self.xs(), rhs.xs())); } }
@endfn
}

impl<CS> ScalarProduct<$S, CS> {
    pub open spec fn g(self) -> Seq<Seq<$V>> { $L::mrows(self.coeffs) }
    pub open spec fn n(self) -> int { self.coeffs.nrows as int }
@fn arithmetic/geometry.rs :: ScalarProduct<T, CS>::default
    inst $S
    sub T=$S Matrix::identity=Matrix::<$S>::identity
    call PhantomData::default=vphantom
@spec
    ensures res.wf(), res.n() == dim, res.g() == $L::idrows(dim as int)
@at end
    proof { $L::lemma_id_rows(res.coeffs); }
@endfn
@fn arithmetic/geometry.rs :: ScalarProduct<T, CS>::apply
    inst $S
    sub T=$S
    vidx u v self
@spec
    requires self.wf(), u.wf(), v.wf()
    ensures u.n() == self.n(), v.n() == self.n(), res.v() == $L::bil(self.g(), u.xs(), v.xs())
@loop 1
    self.wf(), u.wf(), v.wf(), u.n() == self.n(), v.n() == self.n(), it1 <= u.n(), end1 == u.n(),
    t.v() == $L::dotp(u.xs(), $L::mv(self.g(), v.xs()), it1 as int)
@loop 2
    self.wf(), u.wf(), v.wf(), u.n() == self.n(), v.n() == self.n(), it2 <= u.n(), end2 == u.n(), i < u.n(),
    t.v() == $L::dotp(u.xs(), $L::mv(self.g(), v.xs()), i as int) + u.xs()[i as int] * $L::dotp(self.g()[i as int], v.xs(), it2 as int)
@at init loop 2
    proof { let x = u.xs()[i as int]; assert(x * $L::dotp(self.g()[i as int], v.xs(), 0) == $Z) by (nonlinear_arith) requires $L::dotp(self.g()[i as int], v.xs(), 0) == $Z; }
@at loop 2 start
    let ghost t0 = t;
@at loop 2 end
    proof {
        let (a, d, b, c) = (u.xs()[i as int], $L::dotp(self.g()[i as int], v.xs(), j as int), self.g()[i as int][j as int], v.xs()[j as int]);
        assert(a * (d + b * c) == a * d + a * b * c) by (nonlinear_arith);
        $L::lemma_mul3(a, b, c);
    }
@endfn
}
impl<CS> AffineMap<$S, CS> {
    pub open spec fn lin(self) -> Seq<Seq<$V>> { $L::mrows(self.linear_coeffs) }
    pub open spec fn sh(self) -> Seq<$V> { self.shift.xs() }
}
impl<CS: Clone> AffineMap<$S, CS> {
@fn arithmetic/geometry.rs :: AffineMap<T, CS>::identity
    inst $S
    sub T=$S Matrix::identity=Matrix::<$S>::identity Vector::zero=Vector::<$S,CS>::zero
@spec
    ensures res.wf(), res.n() == dim, res.lin() == $L::idrows(dim as int), res.sh() == $L::zero(dim as int)
@at end
    proof { $L::lemma_id_rows(res.linear_coeffs); assert(res.sh() =~= $L::zero(dim as int)); }
@endfn
@fn arithmetic/geometry.rs :: AffineMap<T, CS>::is_identity
    inst $S
    sub T=$S
    vseq self.shift.coords
@spec
    requires self.wf()
    ensures res == (self.lin() == $L::idrows(self.n()) && self.sh() == $L::zero(self.n()))
@loop 1
    self.wf(), acc1 ==> forall|k: int| 0 <= k < it1 ==> self.sh()[k] == $Z, !acc1 ==> exists|k: int| 0 <= k < it1 && self.sh()[k] != $Z
@at loop 1 start
    proof { assert(self.sh()[cur1 as int] == self.shift.coords.data@[cur1 as int].v()); }
@at end
    proof {
        if self.linear_coeffs.is_id() { $L::lemma_id_rows(self.linear_coeffs); }
        if self.lin() == $L::idrows(self.n()) { $L::lemma_rows_id(self.linear_coeffs); }
        if res { assert(self.sh() =~= $L::zero(self.n())); }
        if self.sh() == $L::zero(self.n()) { assert forall|k: int| 0 <= k < self.n() implies #[trigger] self.sh()[k] == $Z by { assert($L::zero(self.n())[k] == $Z); } }
    }
@endfn
@fn arithmetic/geometry.rs :: AffineMap<T, CS>::inverse
    inst $S
    sub T=$S
@spec
    requires self.wf()
    ensures res matches Some(x) ==> x.wf() && x.n() == self.n() && $L::inv_pair(self.lin(), self.sh(), x.lin(), x.sh(), self.n()),
        res is None ==> $L::unsolvable(self.lin(), $L::idrows(self.n()), self.n(), self.n())
@at start
    let ghost (m, t, n) = (self.lin(), self.sh(), self.n());
@at then 1
    proof {
        assert(n * n == 0 ==> n == 0) by (nonlinear_arith);
        let x = $L::mrows(a);
        assert forall|i: int| 0 <= i < n implies #[trigger] $L::mm(m, x, n)[i] == $L::idrows(n)[i] by { $L::lemma_mm_lc(m, x, n, i); assert($L::lc(m[i], x, n, n) == $L::idrows(n)[i]); }
        assert($L::mm(m, x, n) =~= $L::idrows(n));
        assert forall|i: int| 0 <= i < n implies #[trigger] $L::mm(x, m, n)[i] == $L::idrows(n)[i] by { $L::lemma_mm_lc(x, m, n, i); assert($L::lc(x[i], m, n, n) == $L::idrows(n)[i]); }
        assert($L::mm(x, m, n) =~= $L::idrows(n));
        assert forall|p: Matrix<$S>| #[trigger] Matrix::<$S>::is_prod(a, self.shift.coords, p) implies p.wf() && p.ncols == 1 && p.nrows == n && $L::vv(p.data@) == $L::mv(x, t) by { $L::lemma_mv(a, self.shift.coords, p); }
        let (u, z) = ($L::mv(x, t), $L::zero(n));
        $L::lemma_mv_neg(m, u); $L::lemma_mm_mv(m, x, t, n); $L::lemma_mv_id(t, n);
        assert($L::act(x, $L::neg(u), t) =~= z);
        assert($L::act(m, t, $L::neg(u)) =~= z);
    }
@endfn
@fn arithmetic/geometry.rs :: From<Matrix<T>> for AffineMap<T, CS>::from
    inst $S
    sub T=$S Vector::zero=Vector::<$S,CS>::zero
@spec
    requires coords.wf()
    ensures res.wf(), res.linear_coeffs == coords, res.sh() == $L::zero(coords.nrows as int)
@at end
    proof { assert(res.sh() =~= $L::zero(coords.nrows as int)); }
@endfn
}

/// a composition or an image, in the products defined below
pub open spec fn comp_$L<CS>(a: AffineMap<$S, CS>, b: AffineMap<$S, CS>, o: AffineMap<$S, CS>) -> bool {
    o.wf() && o.n() == a.n() && a.n() == b.n() && o.lin() == $L::mm(a.lin(), b.lin(), a.n()) && o.sh() == $L::act(a.lin(), a.sh(), b.sh())
}
pub open spec fn imgp_$L<CS>(a: AffineMap<$S, CS>, p: Point<$S, CS>, o: Point<$S, CS>) -> bool {
    o.wf() && o.n() == a.n() && a.n() == p.n() && o.xs() == $L::act(a.lin(), a.sh(), p.xs())
}
pub open spec fn imgv_$L<CS>(a: AffineMap<$S, CS>, p: Vector<$S, CS>, o: Vector<$S, CS>) -> bool {
    o.wf() && o.n() == a.n() && a.n() == p.n() && o.xs() == $L::mv(a.lin(), p.xs())
}

impl<CS> Vector<$S, CS> {
@fn arithmetic/geometry.rs :: ModZ for Vector<T, CS>::mod_z
    inst $S
    sub T=$S
    vseq self.iter() self
    collect 1 Vector<$S,CS>
    accty 1 Vec<$S>
@spec
    requires self.wf()
    ensures res.wf(), res.n() == self.n(), res.xs() == $L::frac(self.xs())
@loop 1
    acc1@.len() == it1, forall|k: int| 0 <= k < it1 ==> (#[trigger] acc1@[k]).v() == $L::frac(self.xs())[k]
@at loop 1 start
    let ghost x0 = self.xs()[cur1 as int];
    proof { $L::lemma_frac(x0); }
@at end
    proof { assert(res.xs() =~= $L::frac(self.xs())); }
@endfn
}
impl<CS: Clone> AffineMap<$S, CS> {
@fn arithmetic/geometry.rs :: ModZ for AffineMap<T, CS>::mod_z
    inst $S
    sub T=$S
@spec
    requires self.wf()
    ensures res.wf(), res.n() == self.n(), res.linear_coeffs == self.linear_coeffs, res.sh() == $L::frac(self.sh())
@endfn
}
impl<CS: Clone> VMul<&AffineMap<$S, CS>> for &AffineMap<$S, CS> { type Out = AffineMap<$S, CS>;
    open spec fn mul_req(self, r: &AffineMap<$S, CS>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: &AffineMap<$S, CS>, o: AffineMap<$S, CS>) -> bool { comp_$L(*self, *r, o) }
@fn arithmetic/geometry.rs :: Mul<&AffineMap<T, CS>> for &AffineMap<T, CS>::mul
    as vmul
    inst $S
    nopub
    sub T=$S Self::Output=AffineMap<$S,CS>
@at end
    proof {
        let (la, lb) = (self.linear_coeffs, rhs.linear_coeffs);
        $L::lemma_mm(la, lb, res.linear_coeffs);
        assert forall|p: Matrix<$S>| #[trigger] Matrix::<$S>::is_prod(la, rhs.shift.coords, p) implies p.wf() && p.ncols == 1 && p.nrows == la.nrows && $L::vv(p.data@) == $L::mv(self.lin(), rhs.sh()) by { $L::lemma_mv(la, rhs.shift.coords, p); }
        assert(res.sh() =~= $L::act(self.lin(), self.sh(), rhs.sh()));
    }
@endfn
}
impl<CS: Clone> VMul<AffineMap<$S, CS>> for &AffineMap<$S, CS> { type Out = AffineMap<$S, CS>;
    open spec fn mul_req(self, r: AffineMap<$S, CS>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: AffineMap<$S, CS>, o: AffineMap<$S, CS>) -> bool { comp_$L(*self, r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for &AffineMap<T, CS>::mul
    as vmul
    inst $S,AffineMap
    nopub
    sub T=$S S=AffineMap<$S,CS> Self::Output=AffineMap<$S,CS>
@endfn
}
impl<CS: Clone> VMul<&AffineMap<$S, CS>> for AffineMap<$S, CS> { type Out = AffineMap<$S, CS>;
    open spec fn mul_req(self, r: &AffineMap<$S, CS>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: &AffineMap<$S, CS>, o: AffineMap<$S, CS>) -> bool { comp_$L(self, *r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for AffineMap<T, CS>::mul
    as vmul
    inst $S,&AffineMap
    nopub
    sub T=$S S=&AffineMap<$S,CS> Self::Output=AffineMap<$S,CS>
@endfn
}
impl<CS: Clone> VMul<AffineMap<$S, CS>> for AffineMap<$S, CS> { type Out = AffineMap<$S, CS>;
    open spec fn mul_req(self, r: AffineMap<$S, CS>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: AffineMap<$S, CS>, o: AffineMap<$S, CS>) -> bool { comp_$L(self, r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for AffineMap<T, CS>::mul
    as vmul
    inst $S,AffineMap
    nopub
    sub T=$S S=AffineMap<$S,CS> Self::Output=AffineMap<$S,CS>
@endfn
}
impl<CS: Clone> VMul<&Point<$S, CS>> for &AffineMap<$S, CS> { type Out = Point<$S, CS>;
    open spec fn mul_req(self, r: &Point<$S, CS>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: &Point<$S, CS>, o: Point<$S, CS>) -> bool { imgp_$L(*self, *r, o) }
@fn arithmetic/geometry.rs :: Mul<&Point<T, CS>> for &AffineMap<T, CS>::mul
    as vmul
    inst $S
    nopub
    sub T=$S Self::Output=Point<$S,CS>
@at end
    proof {
        let la = self.linear_coeffs;
        assert forall|p: Matrix<$S>| #[trigger] Matrix::<$S>::is_prod(la, rhs.coords, p) implies p.wf() && p.ncols == 1 && p.nrows == la.nrows && $L::vv(p.data@) == $L::mv(self.lin(), rhs.xs()) by { $L::lemma_mv(la, rhs.coords, p); }
        assert(res.xs() =~= $L::act(self.lin(), self.sh(), rhs.xs()));
    }
@endfn
}
impl<CS: Clone> VMul<Point<$S, CS>> for &AffineMap<$S, CS> { type Out = Point<$S, CS>;
    open spec fn mul_req(self, r: Point<$S, CS>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: Point<$S, CS>, o: Point<$S, CS>) -> bool { imgp_$L(*self, r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for &AffineMap<T, CS>::mul
    as vmul
    inst $S,Point
    nopub
    sub T=$S S=Point<$S,CS> Self::Output=Point<$S,CS>
@endfn
}
impl<CS: Clone> VMul<&Point<$S, CS>> for AffineMap<$S, CS> { type Out = Point<$S, CS>;
    open spec fn mul_req(self, r: &Point<$S, CS>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: &Point<$S, CS>, o: Point<$S, CS>) -> bool { imgp_$L(self, *r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for AffineMap<T, CS>::mul
    as vmul
    inst $S,&Point
    nopub
    sub T=$S S=&Point<$S,CS> Self::Output=Point<$S,CS>
@endfn
}
impl<CS: Clone> VMul<Point<$S, CS>> for AffineMap<$S, CS> { type Out = Point<$S, CS>;
    open spec fn mul_req(self, r: Point<$S, CS>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: Point<$S, CS>, o: Point<$S, CS>) -> bool { imgp_$L(self, r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for AffineMap<T, CS>::mul
    as vmul
    inst $S,Point
    nopub
    sub T=$S S=Point<$S,CS> Self::Output=Point<$S,CS>
@endfn
}
impl<CS: Clone> VMul<&Vector<$S, CS>> for &AffineMap<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn mul_req(self, r: &Vector<$S, CS>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: &Vector<$S, CS>, o: Vector<$S, CS>) -> bool { imgv_$L(*self, *r, o) }
@fn arithmetic/geometry.rs :: Mul<&Vector<T, CS>> for &AffineMap<T, CS>::mul
    as vmul
    inst $S
    nopub
    sub T=$S Self::Output=Vector<$S,CS>
@at end
    proof { $L::lemma_mv(self.linear_coeffs, rhs.coords, res.coords); }
@endfn
}
impl<CS: Clone> VMul<Vector<$S, CS>> for &AffineMap<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn mul_req(self, r: Vector<$S, CS>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: Vector<$S, CS>, o: Vector<$S, CS>) -> bool { imgv_$L(*self, r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for &AffineMap<T, CS>::mul
    as vmul
    inst $S,Vector
    nopub
    sub T=$S S=Vector<$S,CS> Self::Output=Vector<$S,CS>
@endfn
}
impl<CS: Clone> VMul<&Vector<$S, CS>> for AffineMap<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn mul_req(self, r: &Vector<$S, CS>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: &Vector<$S, CS>, o: Vector<$S, CS>) -> bool { imgv_$L(self, *r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for AffineMap<T, CS>::mul
    as vmul
    inst $S,&Vector
    nopub
    sub T=$S S=&Vector<$S,CS> Self::Output=Vector<$S,CS>
@endfn
}
impl<CS: Clone> VMul<Vector<$S, CS>> for AffineMap<$S, CS> { type Out = Vector<$S, CS>;
    open spec fn mul_req(self, r: Vector<$S, CS>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: Vector<$S, CS>, o: Vector<$S, CS>) -> bool { imgv_$L(self, r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for AffineMap<T, CS>::mul
    as vmul
    inst $S,Vector
    nopub
    sub T=$S S=Vector<$S,CS> Self::Output=Vector<$S,CS>
@endfn
}

impl<CSIn, CSOut> CoordinateMap<$S, CSIn, CSOut> {
    pub open spec fn n(self) -> int { self.forward.n() }
    pub open spec fn wf(self) -> bool { self.forward.wf() && self.backward.wf() && self.backward.n() == self.n()
        && $L::inv_pair(self.forward.lin(), self.forward.sh(), self.backward.lin(), self.backward.sh(), self.n()) }
}
impl<CSIn: Clone, CSOut: Clone> CoordinateMap<$S, CSIn, CSOut> {
@fn arithmetic/geometry.rs :: CoordinateMap<T, CSIn, CSOut>::new
    inst $S
    sub T=$S
    unwrap
@spec
    requires forward.wf()
    ensures res.wf(), res.forward == *forward
@endfn
@fn arithmetic/geometry.rs :: CoordinateMap<T, CSIn, CSOut>::identity
    inst $S
    sub T=$S AffineMap::identity=AffineMap::<$S,CSIn>::identity
@spec
    ensures res.wf(), res.n() == dim, res.forward.lin() == $L::idrows(dim as int), res.forward.sh() == $L::zero(dim as int)
@endfn
@fn arithmetic/geometry.rs :: CoordinateMap<T, CSIn, CSOut>::is_identity
    inst $S
    sub T=$S
@spec
    requires self.wf()
    ensures res == (self.forward.lin() == $L::idrows(self.n()) && self.forward.sh() == $L::zero(self.n()))
@endfn
@fn arithmetic/geometry.rs :: CoordinateMap<T, CSIn, CSOut>::from_basis
    inst $S
    sub T=$S
    letty cols Vec<Matrix<$S>>
    collect 1 Vec<Matrix<$S>>
    call .into=vinto
@spec
    requires forall|i: int| 0 <= i < basis@.len() ==> (#[trigger] basis@[i]).wf()
    ensures res.wf(), res.forward.sh() == $L::zero(res.n()), basis@.len() > 0 ==> res.n() == basis@.len(),
        forall|i: int, j: int| 0 <= i < res.n() && 0 <= j < basis@.len() && res.n() == basis@.len() ==> #[trigger] res.forward.lin()[i][j] == basis@[j].xs()[i]
@loop 1
    acc1@.len() == it1, forall|i: int| 0 <= i < it1 ==> #[trigger] acc1@[i] == basis@[i].coords
@at end
    proof {
        $L::lemma_colsum1(cols@, cols@.len() as int);
        let c = res.forward.linear_coeffs;
        assert(hstacked(cols@, c));
        let n = res.n();
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < basis@.len() && n == basis@.len() implies #[trigger] res.forward.lin()[i][j] == basis@[j].xs()[i] by {
            $L::lemma_colsum1(cols@, j); assert(cols@[j].has(i, 0)); assert(res.forward.lin()[i] == $L::mrow(c, i)); assert(c.el(i, j) == cols@[j].el(i, 0));
        }
    }
@endfn
@fn arithmetic/geometry.rs :: CoordinateMap<T, CSIn, CSOut>::to_basis
    inst $S
    sub T=$S
@spec
    requires forall|i: int| 0 <= i < basis@.len() ==> (#[trigger] basis@[i]).wf()
    ensures res.wf(), res.backward.sh() == $L::zero(res.n()), basis@.len() > 0 ==> res.n() == basis@.len(),
        forall|i: int, j: int| 0 <= i < res.n() && 0 <= j < basis@.len() && res.n() == basis@.len() ==> #[trigger] res.backward.lin()[i][j] == basis@[j].xs()[i]
@endfn
@fn arithmetic/geometry.rs :: From<Matrix<T>> for CoordinateMap<T, CSIn, CSOut>::from
    inst $S
    sub T=$S
    call .into=vinto
@spec
    requires coords.wf()
    ensures res.wf(), res.forward.linear_coeffs == coords, res.forward.sh() == $L::zero(res.n())
@endfn
}
impl<CS: Clone> VInto<AffineMap<$S, CS>> for Matrix<$S> {
    open spec fn into_req(self) -> bool { self.wf() }
    open spec fn into_ens(self, o: AffineMap<$S, CS>) -> bool { o.wf() && o.linear_coeffs == self && o.sh() == $L::zero(self.nrows as int) }
    fn vinto(self) -> AffineMap<$S, CS> { AffineMap::<$S, CS>::from(self) }
}
impl<CSIn: Clone, CSOut: Clone, CSOther: Clone> VMul<&CoordinateMap<$S, CSIn, CSOut>> for &CoordinateMap<$S, CSOut, CSOther> { type Out = CoordinateMap<$S, CSIn, CSOther>;
    open spec fn mul_req(self, r: &CoordinateMap<$S, CSIn, CSOut>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: &CoordinateMap<$S, CSIn, CSOut>, o: CoordinateMap<$S, CSIn, CSOther>) -> bool {
        o.wf() && o.n() == self.n() && self.n() == r.n() && o.forward.lin() == $L::mm(self.forward.lin(), r.forward.lin(), o.n()) && o.forward.sh() == $L::act(self.forward.lin(), self.forward.sh(), r.forward.sh())
    }
@fn arithmetic/geometry.rs :: Mul<&CoordinateMap<T, CSIn, CSOut>> for &CoordinateMap<T, CSOut, CSOther>::mul
    as vmul
    inst $S
    nopub
    sub T=$S Self::Output=CoordinateMap<$S,CSIn,CSOther>
@at end
    proof {
        let (f, g) = (self.forward, rhs.forward);
        $L::lemma_inv_comp(f.lin(), f.sh(), self.backward.lin(), self.backward.sh(), g.lin(), g.sh(), rhs.backward.lin(), rhs.backward.sh(), self.n());
    }
@endfn
}
impl<CSIn: Clone, CSOut: Clone> VMul<&Point<$S, CSIn>> for &CoordinateMap<$S, CSIn, CSOut> { type Out = Point<$S, CSOut>;
    open spec fn mul_req(self, r: &Point<$S, CSIn>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: &Point<$S, CSIn>, o: Point<$S, CSOut>) -> bool { o.wf() && o.n() == self.n() && self.n() == r.n() && o.xs() == $L::act(self.forward.lin(), self.forward.sh(), r.xs()) }
@fn arithmetic/geometry.rs :: Mul<&Point<T, CSIn>> for &CoordinateMap<T, CSIn, CSOut>::mul
    as vmul
    inst $S
    nopub
    sub T=$S Self::Output=Point<$S,CSOut>
@endfn
}
impl<CSIn: Clone, CSOut: Clone> VMul<&Vector<$S, CSIn>> for &CoordinateMap<$S, CSIn, CSOut> { type Out = Vector<$S, CSOut>;
    open spec fn mul_req(self, r: &Vector<$S, CSIn>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: &Vector<$S, CSIn>, o: Vector<$S, CSOut>) -> bool { o.wf() && o.n() == self.n() && self.n() == r.n() && o.xs() == $L::mv(self.forward.lin(), r.xs()) }
@fn arithmetic/geometry.rs :: Mul<&Vector<T, CSIn>> for &CoordinateMap<T, CSIn, CSOut>::mul
    as vmul
    inst $S
    nopub
    sub T=$S Self::Output=Vector<$S,CSOut>
@endfn
}
impl<CSIn: Clone, CSOut: Clone> VMul<&AffineMap<$S, CSIn>> for &CoordinateMap<$S, CSIn, CSOut> { type Out = AffineMap<$S, CSOut>;
    open spec fn mul_req(self, r: &AffineMap<$S, CSIn>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: &AffineMap<$S, CSIn>, o: AffineMap<$S, CSOut>) -> bool {
        o.wf() && o.n() == self.n() && self.n() == r.n() && o.lin() == $L::mm($L::mm(self.forward.lin(), r.lin(), o.n()), self.backward.lin(), o.n())
        && o.sh() == $L::act($L::mm(self.forward.lin(), r.lin(), o.n()), $L::act(self.forward.lin(), self.forward.sh(), r.sh()), self.backward.sh())
    }
@fn arithmetic/geometry.rs :: Mul<&AffineMap<T, CSIn>> for &CoordinateMap<T, CSIn, CSOut>::mul
    as vmul
    inst $S
    nopub
    sub T=$S Self::Output=AffineMap<$S,CSOut>
@at end
    proof {
        let (f, s, m, u, b, t, n) = (self.forward.lin(), self.forward.sh(), rhs.lin(), rhs.sh(), self.backward.lin(), self.backward.sh(), self.n());
        $L::lemma_mm_assoc(f, m, b, n);
        $L::lemma_compose(f, s, m, u, t, n);
        $L::lemma_mm_mv(f, m, t, n);
    }
@endfn
}
impl VEq for Matrix<$S> {
    open spec fn eq_spec(&self, o: &Self) -> bool { self.nrows == o.nrows && self.ncols == o.ncols && self.data@.len() == o.data@.len() && forall|k: int| 0 <= k < self.data@.len() ==> (#[trigger] self.data@[k]).v() == o.data@[k].v() }
    #[verifier::external_body] fn veq(&self, o: &Self) -> bool { unimplemented!() }
}
impl<CS> ScalarProduct<$S, CS> {
    /// symmetric, with positive leading minors
    pub open spec fn posdef(g: Seq<Seq<$V>>, n: int) -> bool {
        g == $L::tr(g, n) && forall|i: int| 1 <= i <= n ==> #[trigger] $L::minor(g, i) > $Z
    }
@fn arithmetic/geometry.rs :: From<Matrix<T>> for ScalarProduct<T, CS>::from
    inst $S
    sub T=$S
    cmp
    call PhantomData::default=vphantom
@spec
    requires coeffs.wf()
    ensures res.coeffs == coeffs, res.wf(), Self::posdef(res.g(), res.n())
@at start
    let ghost g = $L::mrows(coeffs);
@at after assert_eq 1
    proof {
        let (r, c) = (coeffs.nrows as int, coeffs.ncols as int);
        assert(r * c == 0 ==> r == 0 || c == 0) by (nonlinear_arith);
        assert(r == c);
        assert(coeffs.data@.len() == r * c);
        assert(coeffs.data.len() == coeffs.data@.len());
        assert(r + 1 <= usize::MAX) by (nonlinear_arith) requires r * c <= usize::MAX, r == c, r >= 0, usize::MAX >= 0xffff;
        assert forall|t: Matrix<$S>| #[trigger] coeffs.eq_spec(&t) && b_transposed_$L(coeffs, t) implies $L::symm(coeffs) by {
            assert forall|i: int, j: int| coeffs.has(i, j) implies (#[trigger] coeffs.el(i, j)).v() == coeffs.el(j, i).v() by {
                lemma_idx(i, j, r, c);
                assert(coeffs.has(j, i));
                assert(t.el(i, j) == coeffs.el(j, i));
                assert(coeffs.data@[i * c + j].v() == t.data@[i * c + j].v());
            }
        }
        $L::lemma_sym(coeffs);
    }
@at loop 1 start
    proof {
        let k = it1 - 1;
        assert forall|s: Matrix<$S>| s.dims(k as int, k as int) && (forall|p: int, q: int| s.has(p, q) ==> #[trigger] s.el(p, q) == coeffs.el(p, q)) implies #[trigger] $L::mrows(s) == Seq::new(k as nat, |p: int| g[p].subrange(0, k as int)) by { $L::lemma_minor(coeffs, s, k as int); }
    }
@loop 1
    coeffs.wf(), coeffs.nrows == coeffs.ncols, forall|k: int| 1 <= k < it1 ==> #[trigger] $L::minor(g, k) > $Z
@endfn
}
impl<CSIn: Clone, CSOut: Clone> VMul<&ScalarProduct<$S, CSIn>> for &CoordinateMap<$S, CSIn, CSOut> { type Out = ScalarProduct<$S, CSOut>;
    open spec fn mul_req(self, r: &ScalarProduct<$S, CSIn>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: &ScalarProduct<$S, CSIn>, o: ScalarProduct<$S, CSOut>) -> bool {
        o.wf() && o.n() == self.n() && self.n() == r.n() && o.g() == $L::mm($L::mm($L::tr(self.backward.lin(), o.n()), r.g(), o.n()), self.backward.lin(), o.n())
    }
@fn arithmetic/geometry.rs :: Mul<&ScalarProduct<T, CSIn>> for &CoordinateMap<T, CSIn, CSOut>::mul
    as vmul
    inst $S
    nopub
    sub T=$S Self::Output=ScalarProduct<$S,CSOut> ScalarProduct::from=ScalarProduct::<$S,CSOut>::from
@at end
    proof {
        let (n, b, gm) = (self.n(), self.backward.linear_coeffs, rhs.coeffs);
        assert forall|t: Matrix<$S>, p: Matrix<$S>| b_transposed_$L(b, t) && #[trigger] Matrix::<$S>::is_prod(t, gm, p) && #[trigger] Matrix::<$S>::is_prod(p, b, res.coeffs) implies res.g() == $L::mm($L::mm($L::tr(self.backward.lin(), n), rhs.g(), n), self.backward.lin(), n) && res.n() == n && rhs.n() == n by {
            assert(n * n == 0 ==> n == 0) by (nonlinear_arith);
            $L::lemma_transpose(b, t);
            $L::lemma_mm(t, gm, p);
            $L::lemma_mm(p, b, res.coeffs);
        }
        assert forall|t: Matrix<$S>, p: Matrix<$S>| b_transposed_$L(b, t) && #[trigger] Matrix::<$S>::is_prod(gm, b, p) && #[trigger] Matrix::<$S>::is_prod(t, p, res.coeffs) implies res.g() == $L::mm($L::mm($L::tr(self.backward.lin(), n), rhs.g(), n), self.backward.lin(), n) && res.n() == n && rhs.n() == n by {
            assert(n * n == 0 ==> n == 0) by (nonlinear_arith);
            $L::lemma_transpose(b, t);
            $L::lemma_mm(gm, b, p);
            $L::lemma_mm(t, p, res.coeffs);
            $L::lemma_mm_assoc($L::tr(self.backward.lin(), n), rhs.g(), self.backward.lin(), n);
        }
    }
@endfn
}
pub open spec fn b_transposed_$L(a: Matrix<$S>, o: Matrix<$S>) -> bool { o.dims(a.ncols as int, a.nrows as int) && forall|i: int, j: int| a.has(i, j) ==> #[trigger] o.el(j, i) == a.el(i, j) }
impl<CSIn: Clone, CSOut: Clone> CoordinateMap<$S, CSIn, CSOut> {
@fn arithmetic/geometry.rs :: CoordinateMap<T, CSIn, CSOut>::determinant
    inst $S
    sub T=$S
@spec
    requires self.wf()
    ensures res.v() == $L::det(self.forward.lin(), 0)
@endfn
}
impl<CSIn: Clone, CSOut: Clone> VMul<Point<$S, CSIn>> for CoordinateMap<$S, CSIn, CSOut> { type Out = Point<$S, CSOut>;
    open spec fn mul_req(self, r: Point<$S, CSIn>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: Point<$S, CSIn>, o: Point<$S, CSOut>) -> bool { (&self).mul_ens(&r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for CoordinateMap<T, CSIn, CSOut>::mul
    as vmul
    inst $S,Point
    nopub
    sub T=$S S=Point<$S,CSIn> Self::Output=Point<$S,CSOut>
@endfn
}
impl<CSIn: Clone, CSOut: Clone> VMul<Vector<$S, CSIn>> for CoordinateMap<$S, CSIn, CSOut> { type Out = Vector<$S, CSOut>;
    open spec fn mul_req(self, r: Vector<$S, CSIn>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: Vector<$S, CSIn>, o: Vector<$S, CSOut>) -> bool { (&self).mul_ens(&r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for CoordinateMap<T, CSIn, CSOut>::mul
    as vmul
    inst $S,Vector
    nopub
    sub T=$S S=Vector<$S,CSIn> Self::Output=Vector<$S,CSOut>
@endfn
}
impl<CSIn: Clone, CSOut: Clone> VMul<AffineMap<$S, CSIn>> for CoordinateMap<$S, CSIn, CSOut> { type Out = AffineMap<$S, CSOut>;
    open spec fn mul_req(self, r: AffineMap<$S, CSIn>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: AffineMap<$S, CSIn>, o: AffineMap<$S, CSOut>) -> bool { (&self).mul_ens(&r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for CoordinateMap<T, CSIn, CSOut>::mul
    as vmul
    inst $S,AffineMap
    nopub
    sub T=$S S=AffineMap<$S,CSIn> Self::Output=AffineMap<$S,CSOut>
@endfn
}
impl<CSIn: Clone, CSOut: Clone> VMul<ScalarProduct<$S, CSIn>> for CoordinateMap<$S, CSIn, CSOut> { type Out = ScalarProduct<$S, CSOut>;
    open spec fn mul_req(self, r: ScalarProduct<$S, CSIn>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: ScalarProduct<$S, CSIn>, o: ScalarProduct<$S, CSOut>) -> bool { (&self).mul_ens(&r, o) }
@fn arithmetic/geometry.rs :: Mul<S> for CoordinateMap<T, CSIn, CSOut>::mul
    as vmul
    inst $S,ScalarProduct
    nopub
    sub T=$S S=ScalarProduct<$S,CSIn> Self::Output=ScalarProduct<$S,CSOut>
@endfn
}
/// operators carried to the other coordinates act like the originals
pub proof fn law_operator_$L<A: Clone, B: Clone>(c: CoordinateMap<$S, A, B>, m: AffineMap<$S, A>, o: AffineMap<$S, B>, x: Seq<$V>)
    requires c.wf(), m.wf(), (&c).mul_ens(&m, o), x.len() == c.n()
    ensures $L::act(o.lin(), o.sh(), $L::act(c.forward.lin(), c.forward.sh(), x)) == $L::act(c.forward.lin(), c.forward.sh(), $L::act(m.lin(), m.sh(), x)),
        $L::mv(o.lin(), $L::mv(c.forward.lin(), x)) == $L::mv(c.forward.lin(), $L::mv(m.lin(), x))
{
    let (f, s, b, t, n) = (c.forward.lin(), c.forward.sh(), c.backward.lin(), c.backward.sh(), c.n());
    let fm = $L::mm(f, m.lin(), n);
    let y = $L::act(f, s, x);
    $L::lemma_compose(fm, $L::act(f, s, m.sh()), b, t, y, n);
    $L::lemma_compose(f, s, m.lin(), m.sh(), $L::act(b, t, y), n);
    $L::lemma_undo(f, s, b, t, x, n);
    let z = $L::mv(f, x);
    $L::lemma_mm_mv(fm, b, z, n); $L::lemma_mm_mv(f, m.lin(), $L::mv(b, z), n);
}
/// scalar products of images are those of the originals
pub proof fn law_form_$L<A: Clone, B: Clone>(c: CoordinateMap<$S, A, B>, g: ScalarProduct<$S, A>, o: ScalarProduct<$S, B>, x: Seq<$V>, y: Seq<$V>)
    requires c.wf(), g.wf(), (&c).mul_ens(&g, o), x.len() == c.n(), y.len() == c.n()
    ensures $L::bil(o.g(), $L::mv(c.forward.lin(), x), $L::mv(c.forward.lin(), y)) == $L::bil(g.g(), x, y)
{
    let (f, b, n) = (c.forward.lin(), c.backward.lin(), c.n());
    $L::lemma_bil(g.g(), b, $L::mv(f, x), $L::mv(f, y), n);
    $L::lemma_undo(f, c.forward.sh(), b, c.backward.sh(), x, n);
    $L::lemma_undo(f, c.forward.sh(), b, c.backward.sh(), y, n);
}
/// compositions act one after the other
pub proof fn law_composition_$L<A>(a: AffineMap<$S, A>, b: AffineMap<$S, A>, o: AffineMap<$S, A>, p: Point<$S, A>, bp: Point<$S, A>, abp: Point<$S, A>, op: Point<$S, A>)
    requires a.wf(), b.wf(), p.wf(), comp_$L(a, b, o), imgp_$L(b, p, bp), imgp_$L(a, bp, abp), imgp_$L(o, p, op)
    ensures abp.xs() == op.xs()
{ $L::lemma_compose(a.lin(), a.sh(), b.lin(), b.sh(), p.xs(), a.n()); }
/// there and back is the identity
pub proof fn law_round_trip_$L<A: Clone, B: Clone>(c: CoordinateMap<$S, A, B>, p: Point<$S, A>, q: Point<$S, B>, r: Point<$S, A>, inv: CoordinateMap<$S, B, A>)
    requires c.wf(), p.wf(), q.wf(), (&c).mul_ens(&p, q), inv.forward == c.backward, inv.backward == c.forward, (&inv).mul_ens(&q, r)
    ensures inv.wf(), r.xs() == p.xs()
{ $L::lemma_undo(c.forward.lin(), c.forward.sh(), c.backward.lin(), c.backward.sh(), p.xs(), c.n()); }
@endtemplate
@expand GEOM L=LinR S=Rat V=real Z=0real O=1real div=rdiv
@expand GEOM L=LinZ S=Int V=int Z=0int O=1int div=tdiv
