@# Contracts of the arithmetic part of src/arithmetic/matrices.rs, for rational and integer entries.
/// equal data lengths and widths mean equal shapes
pub proof fn lemma_shape<T>(a: Matrix<T>, b: Matrix<T>)
    requires a.wf(), b.wf(), a.ncols == b.ncols, a.data@.len() == b.data@.len(), a.ncols > 0
    ensures a.nrows == b.nrows
{ assert(a.nrows == b.nrows) by (nonlinear_arith) requires a.nrows * a.ncols == b.nrows * a.ncols, a.ncols > 0; }
pub open spec fn same_shape<T>(a: Matrix<T>, b: Matrix<T>) -> bool { a.nrows == b.nrows && a.ncols == b.ncols && a.data@.len() == b.data@.len() }

@template MATOP S V Z O sum div
impl Matrix<$S> {
    /// sum over k < n of a(i,k) * b(k,j)
    pub open spec fn dot(a: Self, b: Self, i: int, j: int, n: int) -> $V decreases n {
        if n <= 0 { $Z } else { Self::dot(a, b, i, j, n - 1) + a.at(i, n - 1) * b.at(n - 1, j) }
    }
    pub open spec fn is_prod(a: Self, b: Self, o: Self) -> bool {
        &&& a.ncols == b.nrows
        &&& o.dims(a.nrows as int, b.ncols as int)
        &&& forall|i: int, j: int| o.has(i, j) ==> (#[trigger] o.el(i, j)).v() == Self::dot(a, b, i, j, a.ncols as int)
    }
}
impl VAddAssign<&Matrix<$S>> for Matrix<$S> {
    open spec fn adda_ens(self, r: &Matrix<$S>, o: Self) -> bool {
        self.ncols == r.ncols && self.data@.len() == r.data@.len() && same_shape(self, o) && forall|k: int| 0 <= k < o.data@.len() ==> (#[trigger] o.data@[k]).v() == self.data@[k].v() + r.data@[k].v()
    }
@fn arithmetic/matrices.rs :: AddAssign<&Matrix<T>> for Matrix<T>::add_assign
    as vadd_assign
    inst $S
    nopub
    sub T=$S
@loop 1
    self.nrows == old(self).nrows, self.ncols == old(self).ncols, self.data@.len() == old(self).data@.len(), end1 == self.data@.len(),
    
    forall|k: int| 0 <= k < it1 ==> (#[trigger] self.data@[k]).v() == old(self).data@[k].v() + rhs.data@[k].v(),
    forall|k: int| it1 <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],
@endfn
}
impl VAddAssign<Matrix<$S>> for Matrix<$S> {
    open spec fn adda_ens(self, r: Matrix<$S>, o: Self) -> bool {
        self.ncols == r.ncols && self.data@.len() == r.data@.len() && same_shape(self, o) && forall|k: int| 0 <= k < o.data@.len() ==> (#[trigger] o.data@[k]).v() == self.data@[k].v() + r.data@[k].v()
    }
@fn arithmetic/matrices.rs :: AddAssign<Matrix<T>> for Matrix<T>::add_assign
    as vadd_assign
    inst $S
    nopub
    sub T=$S
@loop 1
    self.nrows == old(self).nrows, self.ncols == old(self).ncols, self.data@.len() == old(self).data@.len(), end1 == self.data@.len(),
    
    forall|k: int| 0 <= k < it1 ==> (#[trigger] self.data@[k]).v() == old(self).data@[k].v() + rhs.data@[k].v(),
    forall|k: int| it1 <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],
@endfn
}
impl VAddAssign<&$S> for Matrix<$S> {
    open spec fn adda_ens(self, r: &$S, o: Self) -> bool {
         same_shape(self, o) && forall|k: int| 0 <= k < o.data@.len() ==> (#[trigger] o.data@[k]).v() == self.data@[k].v() + r.v()
    }
@fn arithmetic/matrices.rs :: AddAssign<&T> for Matrix<T>::add_assign
    as vadd_assign
    inst $S
    nopub
    sub T=$S
@loop 1
    self.nrows == old(self).nrows, self.ncols == old(self).ncols, self.data@.len() == old(self).data@.len(), end1 == self.data@.len(),
    
    forall|k: int| 0 <= k < it1 ==> (#[trigger] self.data@[k]).v() == old(self).data@[k].v() + rhs.v(),
    forall|k: int| it1 <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],
@endfn
}
impl VAddAssign<$S> for Matrix<$S> {
    open spec fn adda_ens(self, r: $S, o: Self) -> bool {
         same_shape(self, o) && forall|k: int| 0 <= k < o.data@.len() ==> (#[trigger] o.data@[k]).v() == self.data@[k].v() + r.v()
    }
@fn arithmetic/matrices.rs :: AddAssign<T> for Matrix<T>::add_assign
    as vadd_assign
    inst $S
    nopub
    sub T=$S
@loop 1
    self.nrows == old(self).nrows, self.ncols == old(self).ncols, self.data@.len() == old(self).data@.len(), end1 == self.data@.len(),
    
    forall|k: int| 0 <= k < it1 ==> (#[trigger] self.data@[k]).v() == old(self).data@[k].v() + rhs.v(),
    forall|k: int| it1 <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],
@endfn
}
impl VAdd<&Matrix<$S>> for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn add_ens(self, r: &Matrix<$S>, o: Matrix<$S>) -> bool { VAddAssign::adda_ens(*self, r, o) }
@fn arithmetic/matrices.rs :: Add<S> for &Matrix<T>::add
    as vadd
    inst $S,&Matrix<$S>
    nopub
    sub T=$S S=&Matrix<$S>
@endfn
}
impl VAdd<&Matrix<$S>> for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn add_ens(self, r: &Matrix<$S>, o: Matrix<$S>) -> bool { VAddAssign::adda_ens(self, r, o) }
@fn arithmetic/matrices.rs :: Add<S> for Matrix<T>::add
    as vadd
    inst $S,&Matrix<$S>
    nopub
    sub T=$S S=&Matrix<$S>
@endfn
}
impl VAdd<Matrix<$S>> for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn add_ens(self, r: Matrix<$S>, o: Matrix<$S>) -> bool { VAddAssign::adda_ens(*self, r, o) }
@fn arithmetic/matrices.rs :: Add<S> for &Matrix<T>::add
    as vadd
    inst $S,Matrix<$S>
    nopub
    sub T=$S S=Matrix<$S>
@endfn
}
impl VAdd<Matrix<$S>> for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn add_ens(self, r: Matrix<$S>, o: Matrix<$S>) -> bool { VAddAssign::adda_ens(self, r, o) }
@fn arithmetic/matrices.rs :: Add<S> for Matrix<T>::add
    as vadd
    inst $S,Matrix<$S>
    nopub
    sub T=$S S=Matrix<$S>
@endfn
}
impl VAdd<&$S> for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn add_ens(self, r: &$S, o: Matrix<$S>) -> bool { VAddAssign::adda_ens(*self, r, o) }
@fn arithmetic/matrices.rs :: Add<S> for &Matrix<T>::add
    as vadd
    inst $S,&$S
    nopub
    sub T=$S S=&$S
@endfn
}
impl VAdd<&$S> for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn add_ens(self, r: &$S, o: Matrix<$S>) -> bool { VAddAssign::adda_ens(self, r, o) }
@fn arithmetic/matrices.rs :: Add<S> for Matrix<T>::add
    as vadd
    inst $S,&$S
    nopub
    sub T=$S S=&$S
@endfn
}
impl VAdd<$S> for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn add_ens(self, r: $S, o: Matrix<$S>) -> bool { VAddAssign::adda_ens(*self, r, o) }
@fn arithmetic/matrices.rs :: Add<S> for &Matrix<T>::add
    as vadd
    inst $S,$S
    nopub
    sub T=$S S=$S
@endfn
}
impl VAdd<$S> for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn add_ens(self, r: $S, o: Matrix<$S>) -> bool { VAddAssign::adda_ens(self, r, o) }
@fn arithmetic/matrices.rs :: Add<S> for Matrix<T>::add
    as vadd
    inst $S,$S
    nopub
    sub T=$S S=$S
@endfn
}
impl VSubAssign<&Matrix<$S>> for Matrix<$S> {
    open spec fn suba_ens(self, r: &Matrix<$S>, o: Self) -> bool {
        self.ncols == r.ncols && self.data@.len() == r.data@.len() && same_shape(self, o) && forall|k: int| 0 <= k < o.data@.len() ==> (#[trigger] o.data@[k]).v() == self.data@[k].v() - r.data@[k].v()
    }
@fn arithmetic/matrices.rs :: SubAssign<&Matrix<T>> for Matrix<T>::sub_assign
    as vsub_assign
    inst $S
    nopub
    sub T=$S
@loop 1
    self.nrows == old(self).nrows, self.ncols == old(self).ncols, self.data@.len() == old(self).data@.len(), end1 == self.data@.len(),
    
    forall|k: int| 0 <= k < it1 ==> (#[trigger] self.data@[k]).v() == old(self).data@[k].v() - rhs.data@[k].v(),
    forall|k: int| it1 <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],
@endfn
}
impl VSubAssign<Matrix<$S>> for Matrix<$S> {
    open spec fn suba_ens(self, r: Matrix<$S>, o: Self) -> bool {
        self.ncols == r.ncols && self.data@.len() == r.data@.len() && same_shape(self, o) && forall|k: int| 0 <= k < o.data@.len() ==> (#[trigger] o.data@[k]).v() == self.data@[k].v() - r.data@[k].v()
    }
@fn arithmetic/matrices.rs :: SubAssign<Matrix<T>> for Matrix<T>::sub_assign
    as vsub_assign
    inst $S
    nopub
    sub T=$S
@loop 1
    self.nrows == old(self).nrows, self.ncols == old(self).ncols, self.data@.len() == old(self).data@.len(), end1 == self.data@.len(),
    
    forall|k: int| 0 <= k < it1 ==> (#[trigger] self.data@[k]).v() == old(self).data@[k].v() - rhs.data@[k].v(),
    forall|k: int| it1 <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],
@endfn
}
impl VSubAssign<&$S> for Matrix<$S> {
    open spec fn suba_ens(self, r: &$S, o: Self) -> bool {
         same_shape(self, o) && forall|k: int| 0 <= k < o.data@.len() ==> (#[trigger] o.data@[k]).v() == self.data@[k].v() - r.v()
    }
@fn arithmetic/matrices.rs :: SubAssign<&T> for Matrix<T>::sub_assign
    as vsub_assign
    inst $S
    nopub
    sub T=$S
@loop 1
    self.nrows == old(self).nrows, self.ncols == old(self).ncols, self.data@.len() == old(self).data@.len(), end1 == self.data@.len(),
    
    forall|k: int| 0 <= k < it1 ==> (#[trigger] self.data@[k]).v() == old(self).data@[k].v() - rhs.v(),
    forall|k: int| it1 <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],
@endfn
}
impl VSubAssign<$S> for Matrix<$S> {
    open spec fn suba_ens(self, r: $S, o: Self) -> bool {
         same_shape(self, o) && forall|k: int| 0 <= k < o.data@.len() ==> (#[trigger] o.data@[k]).v() == self.data@[k].v() - r.v()
    }
@fn arithmetic/matrices.rs :: SubAssign<T> for Matrix<T>::sub_assign
    as vsub_assign
    inst $S
    nopub
    sub T=$S
@loop 1
    self.nrows == old(self).nrows, self.ncols == old(self).ncols, self.data@.len() == old(self).data@.len(), end1 == self.data@.len(),
    
    forall|k: int| 0 <= k < it1 ==> (#[trigger] self.data@[k]).v() == old(self).data@[k].v() - rhs.v(),
    forall|k: int| it1 <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],
@endfn
}
impl VSub<&Matrix<$S>> for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn sub_ens(self, r: &Matrix<$S>, o: Matrix<$S>) -> bool { VSubAssign::suba_ens(*self, r, o) }
@fn arithmetic/matrices.rs :: Sub<S> for &Matrix<T>::sub
    as vsub
    inst $S,&Matrix<$S>
    nopub
    sub T=$S S=&Matrix<$S>
@endfn
}
impl VSub<&Matrix<$S>> for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn sub_ens(self, r: &Matrix<$S>, o: Matrix<$S>) -> bool { VSubAssign::suba_ens(self, r, o) }
@fn arithmetic/matrices.rs :: Sub<S> for Matrix<T>::sub
    as vsub
    inst $S,&Matrix<$S>
    nopub
    sub T=$S S=&Matrix<$S>
@endfn
}
impl VSub<Matrix<$S>> for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn sub_ens(self, r: Matrix<$S>, o: Matrix<$S>) -> bool { VSubAssign::suba_ens(*self, r, o) }
@fn arithmetic/matrices.rs :: Sub<S> for &Matrix<T>::sub
    as vsub
    inst $S,Matrix<$S>
    nopub
    sub T=$S S=Matrix<$S>
@endfn
}
impl VSub<Matrix<$S>> for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn sub_ens(self, r: Matrix<$S>, o: Matrix<$S>) -> bool { VSubAssign::suba_ens(self, r, o) }
@fn arithmetic/matrices.rs :: Sub<S> for Matrix<T>::sub
    as vsub
    inst $S,Matrix<$S>
    nopub
    sub T=$S S=Matrix<$S>
@endfn
}
impl VSub<&$S> for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn sub_ens(self, r: &$S, o: Matrix<$S>) -> bool { VSubAssign::suba_ens(*self, r, o) }
@fn arithmetic/matrices.rs :: Sub<S> for &Matrix<T>::sub
    as vsub
    inst $S,&$S
    nopub
    sub T=$S S=&$S
@endfn
}
impl VSub<&$S> for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn sub_ens(self, r: &$S, o: Matrix<$S>) -> bool { VSubAssign::suba_ens(self, r, o) }
@fn arithmetic/matrices.rs :: Sub<S> for Matrix<T>::sub
    as vsub
    inst $S,&$S
    nopub
    sub T=$S S=&$S
@endfn
}
impl VSub<$S> for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn sub_ens(self, r: $S, o: Matrix<$S>) -> bool { VSubAssign::suba_ens(*self, r, o) }
@fn arithmetic/matrices.rs :: Sub<S> for &Matrix<T>::sub
    as vsub
    inst $S,$S
    nopub
    sub T=$S S=$S
@endfn
}
impl VSub<$S> for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn sub_ens(self, r: $S, o: Matrix<$S>) -> bool { VSubAssign::suba_ens(self, r, o) }
@fn arithmetic/matrices.rs :: Sub<S> for Matrix<T>::sub
    as vsub
    inst $S,$S
    nopub
    sub T=$S S=$S
@endfn
}
impl VMulAssign<&$S> for Matrix<$S> {
    open spec fn mula_ens(self, r: &$S, o: Self) -> bool {
         same_shape(self, o) && forall|k: int| 0 <= k < o.data@.len() ==> (#[trigger] o.data@[k]).v() == self.data@[k].v() * r.v()
    }
@fn arithmetic/matrices.rs :: MulAssign<&T> for Matrix<T>::mul_assign
    as vmul_assign
    inst $S
    nopub
    sub T=$S
@loop 1
    self.nrows == old(self).nrows, self.ncols == old(self).ncols, self.data@.len() == old(self).data@.len(), end1 == self.data@.len(),
    
    forall|k: int| 0 <= k < it1 ==> (#[trigger] self.data@[k]).v() == old(self).data@[k].v() * rhs.v(),
    forall|k: int| it1 <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],
@endfn
}
impl VMulAssign<$S> for Matrix<$S> {
    open spec fn mula_ens(self, r: $S, o: Self) -> bool {
         same_shape(self, o) && forall|k: int| 0 <= k < o.data@.len() ==> (#[trigger] o.data@[k]).v() == self.data@[k].v() * r.v()
    }
@fn arithmetic/matrices.rs :: MulAssign<T> for Matrix<T>::mul_assign
    as vmul_assign
    inst $S
    nopub
    sub T=$S
@loop 1
    self.nrows == old(self).nrows, self.ncols == old(self).ncols, self.data@.len() == old(self).data@.len(), end1 == self.data@.len(),
    
    forall|k: int| 0 <= k < it1 ==> (#[trigger] self.data@[k]).v() == old(self).data@[k].v() * rhs.v(),
    forall|k: int| it1 <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],
@endfn
}
impl VMul<&$S> for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn mul_req(self, r: &$S) -> bool { true }
    open spec fn mul_ens(self, r: &$S, o: Matrix<$S>) -> bool { VMulAssign::mula_ens(*self, r, o) }
@fn arithmetic/matrices.rs :: Mul<S> for &Matrix<T>::mul
    as vmul
    inst $S,&$S
    nopub
    sub T=$S S=&$S
@endfn
}
impl VMul<&$S> for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn mul_req(self, r: &$S) -> bool { true }
    open spec fn mul_ens(self, r: &$S, o: Matrix<$S>) -> bool { VMulAssign::mula_ens(self, r, o) }
@fn arithmetic/matrices.rs :: Mul<S> for Matrix<T>::mul
    as vmul
    inst $S,&$S
    nopub
    sub T=$S S=&$S
@endfn
}
impl VMul<$S> for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn mul_req(self, r: $S) -> bool { true }
    open spec fn mul_ens(self, r: $S, o: Matrix<$S>) -> bool { VMulAssign::mula_ens(*self, r, o) }
@fn arithmetic/matrices.rs :: Mul<S> for &Matrix<T>::mul
    as vmul
    inst $S,$S
    nopub
    sub T=$S S=$S
@endfn
}
impl VMul<$S> for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn mul_req(self, r: $S) -> bool { true }
    open spec fn mul_ens(self, r: $S, o: Matrix<$S>) -> bool { VMulAssign::mula_ens(self, r, o) }
@fn arithmetic/matrices.rs :: Mul<S> for Matrix<T>::mul
    as vmul
    inst $S,$S
    nopub
    sub T=$S S=$S
@endfn
}
impl VDivAssign<&$S> for Matrix<$S> {
    open spec fn diva_ens(self, r: &$S, o: Self) -> bool {
        (self.data@.len() > 0 ==> r.v() != $Z) && same_shape(self, o) && forall|k: int| 0 <= k < o.data@.len() ==> (#[trigger] o.data@[k]).v() == $div(self.data@[k].v(), r.v())
    }
@fn arithmetic/matrices.rs :: DivAssign<&T> for Matrix<T>::div_assign
    as vdiv_assign
    inst $S
    nopub
    sub T=$S
@loop 1
    self.nrows == old(self).nrows, self.ncols == old(self).ncols, self.data@.len() == old(self).data@.len(), end1 == self.data@.len(),
    it1 > 0 ==> rhs.v() != $Z,
    forall|k: int| 0 <= k < it1 ==> (#[trigger] self.data@[k]).v() == $div(old(self).data@[k].v(), rhs.v()),
    forall|k: int| it1 <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],
@endfn
}
impl VDivAssign<$S> for Matrix<$S> {
    open spec fn diva_ens(self, r: $S, o: Self) -> bool {
        (self.data@.len() > 0 ==> r.v() != $Z) && same_shape(self, o) && forall|k: int| 0 <= k < o.data@.len() ==> (#[trigger] o.data@[k]).v() == $div(self.data@[k].v(), r.v())
    }
@fn arithmetic/matrices.rs :: DivAssign<T> for Matrix<T>::div_assign
    as vdiv_assign
    inst $S
    nopub
    sub T=$S
@loop 1
    self.nrows == old(self).nrows, self.ncols == old(self).ncols, self.data@.len() == old(self).data@.len(), end1 == self.data@.len(),
    it1 > 0 ==> rhs.v() != $Z,
    forall|k: int| 0 <= k < it1 ==> (#[trigger] self.data@[k]).v() == $div(old(self).data@[k].v(), rhs.v()),
    forall|k: int| it1 <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],
@endfn
}
impl VDiv<&$S> for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn div_ens(self, r: &$S, o: Matrix<$S>) -> bool { VDivAssign::diva_ens(*self, r, o) }
@fn arithmetic/matrices.rs :: Div<S> for &Matrix<T>::div
    as vdiv
    inst $S,&$S
    nopub
    sub T=$S S=&$S
@endfn
}
impl VDiv<&$S> for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn div_ens(self, r: &$S, o: Matrix<$S>) -> bool { VDivAssign::diva_ens(self, r, o) }
@fn arithmetic/matrices.rs :: Div<S> for Matrix<T>::div
    as vdiv
    inst $S,&$S
    nopub
    sub T=$S S=&$S
@endfn
}
impl VDiv<$S> for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn div_ens(self, r: $S, o: Matrix<$S>) -> bool { VDivAssign::diva_ens(*self, r, o) }
@fn arithmetic/matrices.rs :: Div<S> for &Matrix<T>::div
    as vdiv
    inst $S,$S
    nopub
    sub T=$S S=$S
@endfn
}
impl VDiv<$S> for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn div_ens(self, r: $S, o: Matrix<$S>) -> bool { VDivAssign::diva_ens(self, r, o) }
@fn arithmetic/matrices.rs :: Div<S> for Matrix<T>::div
    as vdiv
    inst $S,$S
    nopub
    sub T=$S S=$S
@endfn
}
impl VMul<&Matrix<$S>> for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn mul_req(self, r: &Matrix<$S>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: &Matrix<$S>, o: Matrix<$S>) -> bool { Matrix::<$S>::is_prod(*self, *r, o) }
@fn arithmetic/matrices.rs :: Mul<&Matrix<T>> for &Matrix<T>::mul
    as vmul
    inst $S
    nopub
    sub T=$S Matrix::zero=Matrix::<$S>::zero
@loop 1
    rowslft == self.nrows, colslft == self.ncols, rowsrgt == rhs.nrows, colsrgt == rhs.ncols, colslft == rowsrgt,
    result.dims(rowslft as int, colsrgt as int), it1 <= self.nrows,
    forall|p: int, q: int| result.has(p, q) && p < it1 ==> (#[trigger] result.el(p, q)).v() == Matrix::<$S>::dot(*self, *rhs, p, q, self.ncols as int),
@loop 2
    result.dims(rowslft as int, colsrgt as int), it2 <= rhs.ncols,
    forall|p: int, q: int| result.has(p, q) && (p < i || p == i && q < it2) ==> (#[trigger] result.el(p, q)).v() == Matrix::<$S>::dot(*self, *rhs, p, q, self.ncols as int),
@loop 3
    s.v() == Matrix::<$S>::dot(*self, *rhs, i as int, j as int, it3 as int), it3 <= self.ncols
@at after loop 3
    let ghost res0 = result;
@at loop 2 end
    proof { lemma_update_el(res0, result, i as int, j as int); }
@endfn
}
impl VMul<Matrix<$S>> for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn mul_req(self, r: Matrix<$S>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: Matrix<$S>, o: Matrix<$S>) -> bool { Matrix::<$S>::is_prod(*self, r, o) }
@fn arithmetic/matrices.rs :: Mul<Matrix<T>> for &Matrix<T>::mul
    as vmul
    inst $S
    nopub
    sub T=$S Matrix::zero=Matrix::<$S>::zero
@endfn
}
impl VMul<&Matrix<$S>> for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn mul_req(self, r: &Matrix<$S>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: &Matrix<$S>, o: Matrix<$S>) -> bool { Matrix::<$S>::is_prod(self, *r, o) }
@fn arithmetic/matrices.rs :: Mul<&Matrix<T>> for Matrix<T>::mul
    as vmul
    inst $S
    nopub
    sub T=$S Matrix::zero=Matrix::<$S>::zero
@endfn
}
impl VMul<Matrix<$S>> for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn mul_req(self, r: Matrix<$S>) -> bool { self.wf() && r.wf() }
    open spec fn mul_ens(self, r: Matrix<$S>, o: Matrix<$S>) -> bool { Matrix::<$S>::is_prod(self, r, o) }
@fn arithmetic/matrices.rs :: Mul<Matrix<T>> for Matrix<T>::mul
    as vmul
    inst $S
    nopub
    sub T=$S Matrix::zero=Matrix::<$S>::zero
@endfn
}
impl VNeg for &Matrix<$S> { type Out = Matrix<$S>;
    open spec fn neg_ens(self, o: Matrix<$S>) -> bool {
        self.ncols == o.ncols && self.data@.len() == o.data@.len() && o.wf() && (self.wf() && self.data@.len() > 0 ==> o.nrows == self.nrows)
        && forall|k: int| 0 <= k < o.data@.len() ==> (#[trigger] o.data@[k]).v() == $Z - self.data@[k].v()
    }
@fn arithmetic/matrices.rs :: Neg for &Matrix<T>::neg
    as vneg
    inst $S
    nopub
    accty 1 Vec<$S>
    sub T=$S Self::Output=Matrix<$S>
@loop 1
    acc1@.len() == it1, forall|k: int| 0 <= k < it1 ==> (#[trigger] acc1@[k]).v() == $Z - self.data@[k].v()
@at end
    proof { if self.wf() && self.data@.len() > 0 {
        if self.ncols == 0 { assert(self.nrows * self.ncols == 0) by (nonlinear_arith) requires self.ncols == 0; }
        lemma_shape(*self, Matrix { nrows: self.nrows, ncols: self.ncols, data: data });
        assert(res.nrows == self.nrows) by (nonlinear_arith) requires res.nrows * self.ncols == self.nrows * self.ncols, self.ncols > 0;
    } }
@endfn
}
impl VNeg for Matrix<$S> { type Out = Matrix<$S>;
    open spec fn neg_ens(self, o: Matrix<$S>) -> bool {
        self.ncols == o.ncols && self.data@.len() == o.data@.len() && o.wf() && (self.wf() && self.data@.len() > 0 ==> o.nrows == self.nrows)
        && forall|k: int| 0 <= k < o.data@.len() ==> (#[trigger] o.data@[k]).v() == $Z - self.data@[k].v()
    }
@fn arithmetic/matrices.rs :: Neg for Matrix<T>::neg
    as vneg
    inst $S
    nopub
    accty 1 Vec<$S>
    sub T=$S Self::Output=Matrix<$S>
@endfn
}
@endtemplate
pub open spec fn rdiv(a: real, b: real) -> real { a / b }
@expand MATOP S=Rat V=real Z=0real O=1real sum=rsum div=rdiv
@expand MATOP S=Int V=int Z=0int O=1int sum=isum div=tdiv
