@# Trusted base: scalars, operators, and the few library functions the extracted code calls.
#![allow(unused_imports, unused_variables, dead_code, non_snake_case, unused_mut, unused_parens, non_shorthand_field_patterns, unused_assignments, unused_braces, unreachable_code, private_interfaces)]
use vstd::prelude::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
use std::ops::Range;
verus! {

broadcast use {vstd::std_specs::vec::group_vec_axioms, vstd::std_specs::hash::group_hash_axioms};

// ---- panics: these return only if nothing is wrong
#[verifier::external_body]
pub fn vassert(b: bool) ensures b { assert!(b) }
#[verifier::external_body]
pub fn vpanic() -> ! { panic!() }
#[verifier::external_body]
pub fn vunwrap<T>(x: Option<T>) -> (r: T) ensures x == Some(r) { x.unwrap() }

// ---- Clone yields an equal value
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { self.clone() } }
#[verifier::external_body]
pub fn vto_vec<T: Clone>(x: &Vec<T>) -> (r: Vec<T>) ensures r@ == x@, r == *x { x.to_vec() }
#[verifier::external_body]
pub fn vrep<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { vec![x; n] }
#[verifier::external_body]
pub fn vslice<T: Clone>(x: &Vec<T>, a: usize, b: usize) -> (r: &Vec<T>) ensures a <= b <= x@.len(), r@ == x@.subrange(a as int, b as int) { unimplemented!() }
pub fn vident<T>(x: T) -> (r: T) ensures r == x { x }
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub assume_specification<T: Default>[ std::mem::take ](x: &mut T) -> (r: T) ensures r == *old(x);
pub assume_specification<T>[ std::mem::replace ](x: &mut T, y: T) -> (r: T) ensures r == *old(x), *final(x) == y;
pub fn take<T: Default>(x: &mut T) -> (r: T) ensures r == *old(x) { std::mem::take(x) }
pub fn replace<T>(x: &mut T, y: T) -> (r: T) ensures r == *old(x), *final(x) == y { std::mem::replace(x, y) }

// ---- truncating division of machine integers
pub open spec fn tdiv(a: int, b: int) -> int {
    if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } }
    else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } }
}
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }
pub open spec fn trunc(x: real) -> int { if x >= 0real { x.floor() } else { -((0real - x).floor()) } }

// ---- operators as traits, so that Rust's own resolution picks the implementation
pub trait VAdd<R>: Sized { type Out; spec fn add_ens(self, r: R, o: Self::Out) -> bool;
    fn vadd(self, r: R) -> (o: Self::Out) ensures self.add_ens(r, o); }
pub trait VAddAssign<R>: Sized { spec fn adda_ens(self, r: R, o: Self) -> bool;
    fn vadd_assign(&mut self, r: R) ensures old(self).adda_ens(r, *final(self)); }
pub trait VSub<R>: Sized { type Out; spec fn sub_ens(self, r: R, o: Self::Out) -> bool;
    fn vsub(self, r: R) -> (o: Self::Out) ensures self.sub_ens(r, o); }
pub trait VSubAssign<R>: Sized { spec fn suba_ens(self, r: R, o: Self) -> bool;
    fn vsub_assign(&mut self, r: R) ensures old(self).suba_ens(r, *final(self)); }
pub trait VMul<R>: Sized { type Out; spec fn mul_req(self, r: R) -> bool; spec fn mul_ens(self, r: R, o: Self::Out) -> bool;
    fn vmul(self, r: R) -> (o: Self::Out) requires self.mul_req(r) ensures self.mul_ens(r, o); }
pub trait VMulAssign<R>: Sized { spec fn mula_ens(self, r: R, o: Self) -> bool;
    fn vmul_assign(&mut self, r: R) ensures old(self).mula_ens(r, *final(self)); }
pub trait VDiv<R>: Sized { type Out; spec fn div_ens(self, r: R, o: Self::Out) -> bool;
    fn vdiv(self, r: R) -> (o: Self::Out) ensures self.div_ens(r, o); }
pub trait VDivAssign<R>: Sized { spec fn diva_ens(self, r: R, o: Self) -> bool;
    fn vdiv_assign(&mut self, r: R) ensures old(self).diva_ens(r, *final(self)); }
pub trait VRem<R>: Sized { type Out; spec fn rem_ens(self, r: R, o: Self::Out) -> bool;
    fn vrem(self, r: R) -> (o: Self::Out) ensures self.rem_ens(r, o); }
pub trait VRemAssign<R>: Sized { spec fn rema_ens(self, r: R, o: Self) -> bool;
    fn vrem_assign(&mut self, r: R) ensures old(self).rema_ens(r, *final(self)); }
pub trait VNeg: Sized { type Out; spec fn neg_ens(self, o: Self::Out) -> bool;
    fn vneg(self) -> (o: Self::Out) ensures self.neg_ens(o); }
pub trait VEq { spec fn eq_spec(&self, o: &Self) -> bool; fn veq(&self, o: &Self) -> (r: bool) ensures r == self.eq_spec(o); }
pub trait VLt { spec fn lt_spec(&self, o: &Self) -> bool; fn vlt(&self, o: &Self) -> (r: bool) ensures r == self.lt_spec(o); }
pub trait VSeq { type Item; spec fn vseq_spec(&self) -> Seq<Self::Item>; fn vseq(&self) -> (r: &Vec<Self::Item>) ensures r@ == self.vseq_spec(); }
impl<T> VSeq for Vec<T> { type Item = T; open spec fn vseq_spec(&self) -> Seq<T> { self@ } fn vseq(&self) -> (r: &Vec<T>) { self } }

// ---- Rat: BigRational as an exact real number
/// rounds to the nearest integer, half-way cases away from zero
pub open spec fn rround(x: real) -> int { if x >= 0real { (x + 0.5real).floor() } else { -((-x + 0.5real).floor()) } }
pub struct Rat { pub r: Ghost<real> }
impl Clone for Rat { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Rat {
    pub open spec fn v(self) -> real { self.r@ }
    pub open spec fn mk(x: real) -> Rat { Rat { r: Ghost(x) } }
    #[verifier::external_body] pub fn zero() -> (r: Rat) ensures r.v() == 0real { unimplemented!() }
    #[verifier::external_body] pub fn vzero() -> (r: Rat) ensures r.v() == 0real { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: Rat) ensures r.v() == 1real { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0real) { unimplemented!() }
    #[verifier::external_body] pub fn is_one(&self) -> (r: bool) ensures r == (self.v() == 1real) { unimplemented!() }
    #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures r == (self.v() < 0real) { unimplemented!() }
    #[verifier::external_body] pub fn is_positive(&self) -> (r: bool) ensures r == (self.v() > 0real) { unimplemented!() }
    #[verifier::external_body] pub fn floor(&self) -> (r: Rat) ensures r.v() == self.v().floor() as real { unimplemented!() }
    #[verifier::external_body] pub fn trunc(&self) -> (r: Rat) ensures r.v() == trunc(self.v()) as real { unimplemented!() }
    #[verifier::external_body] pub fn ceil(&self) -> (r: Rat) ensures r.v() == -((0real - self.v()).floor()) as real { unimplemented!() }
    #[verifier::external_body] pub fn is_integer(&self) -> (r: bool) ensures r == (self.v() == self.v().floor() as real) { unimplemented!() }
    #[verifier::external_body] pub fn round(&self) -> (r: Rat) ensures r.v() == rround(self.v()) as real { unimplemented!() }
    #[verifier::external_body] pub fn to_integer(&self) -> (r: Int) ensures r.v() == trunc(self.v()) { unimplemented!() }
}
impl VAdd<Rat> for Rat { type Out = Rat; open spec fn add_ens(self, r: Rat, o: Rat) -> bool { o.v() == self.v() + r.v() }
    #[verifier::external_body] fn vadd(self, r: Rat) -> Rat { unimplemented!() } }
impl VAdd<&Rat> for Rat { type Out = Rat; open spec fn add_ens(self, r: &Rat, o: Rat) -> bool { o.v() == self.v() + r.v() }
    #[verifier::external_body] fn vadd(self, r: &Rat) -> Rat { unimplemented!() } }
impl VAdd<Rat> for &Rat { type Out = Rat; open spec fn add_ens(self, r: Rat, o: Rat) -> bool { o.v() == self.v() + r.v() }
    #[verifier::external_body] fn vadd(self, r: Rat) -> Rat { unimplemented!() } }
impl VAdd<&Rat> for &Rat { type Out = Rat; open spec fn add_ens(self, r: &Rat, o: Rat) -> bool { o.v() == self.v() + r.v() }
    #[verifier::external_body] fn vadd(self, r: &Rat) -> Rat { unimplemented!() } }
impl VAddAssign<Rat> for Rat { open spec fn adda_ens(self, r: Rat, o: Rat) -> bool { o.v() == self.v() + r.v() }
    #[verifier::external_body] fn vadd_assign(&mut self, r: Rat) { unimplemented!() } }
impl VAddAssign<&Rat> for Rat { open spec fn adda_ens(self, r: &Rat, o: Rat) -> bool { o.v() == self.v() + r.v() }
    #[verifier::external_body] fn vadd_assign(&mut self, r: &Rat) { unimplemented!() } }
impl VAddAssign<&&Rat> for Rat { open spec fn adda_ens(self, r: &&Rat, o: Rat) -> bool { o.v() == self.v() + r.v() }
    #[verifier::external_body] fn vadd_assign(&mut self, r: &&Rat) { unimplemented!() } }
impl VSub<Rat> for Rat { type Out = Rat; open spec fn sub_ens(self, r: Rat, o: Rat) -> bool { o.v() == self.v() - r.v() }
    #[verifier::external_body] fn vsub(self, r: Rat) -> Rat { unimplemented!() } }
impl VSub<&Rat> for Rat { type Out = Rat; open spec fn sub_ens(self, r: &Rat, o: Rat) -> bool { o.v() == self.v() - r.v() }
    #[verifier::external_body] fn vsub(self, r: &Rat) -> Rat { unimplemented!() } }
impl VSub<Rat> for &Rat { type Out = Rat; open spec fn sub_ens(self, r: Rat, o: Rat) -> bool { o.v() == self.v() - r.v() }
    #[verifier::external_body] fn vsub(self, r: Rat) -> Rat { unimplemented!() } }
impl VSub<&Rat> for &Rat { type Out = Rat; open spec fn sub_ens(self, r: &Rat, o: Rat) -> bool { o.v() == self.v() - r.v() }
    #[verifier::external_body] fn vsub(self, r: &Rat) -> Rat { unimplemented!() } }
impl VSubAssign<Rat> for Rat { open spec fn suba_ens(self, r: Rat, o: Rat) -> bool { o.v() == self.v() - r.v() }
    #[verifier::external_body] fn vsub_assign(&mut self, r: Rat) { unimplemented!() } }
impl VSubAssign<&Rat> for Rat { open spec fn suba_ens(self, r: &Rat, o: Rat) -> bool { o.v() == self.v() - r.v() }
    #[verifier::external_body] fn vsub_assign(&mut self, r: &Rat) { unimplemented!() } }
impl VSubAssign<&&Rat> for Rat { open spec fn suba_ens(self, r: &&Rat, o: Rat) -> bool { o.v() == self.v() - r.v() }
    #[verifier::external_body] fn vsub_assign(&mut self, r: &&Rat) { unimplemented!() } }
impl VMul<Rat> for Rat { type Out = Rat; open spec fn mul_req(self, r: Rat) -> bool { true } open spec fn mul_ens(self, r: Rat, o: Rat) -> bool { o.v() == self.v() * r.v() }
    #[verifier::external_body] fn vmul(self, r: Rat) -> Rat { unimplemented!() } }
impl VMul<&Rat> for Rat { type Out = Rat; open spec fn mul_req(self, r: &Rat) -> bool { true } open spec fn mul_ens(self, r: &Rat, o: Rat) -> bool { o.v() == self.v() * r.v() }
    #[verifier::external_body] fn vmul(self, r: &Rat) -> Rat { unimplemented!() } }
impl VMul<Rat> for &Rat { type Out = Rat; open spec fn mul_req(self, r: Rat) -> bool { true } open spec fn mul_ens(self, r: Rat, o: Rat) -> bool { o.v() == self.v() * r.v() }
    #[verifier::external_body] fn vmul(self, r: Rat) -> Rat { unimplemented!() } }
impl VMul<&Rat> for &Rat { type Out = Rat; open spec fn mul_req(self, r: &Rat) -> bool { true } open spec fn mul_ens(self, r: &Rat, o: Rat) -> bool { o.v() == self.v() * r.v() }
    #[verifier::external_body] fn vmul(self, r: &Rat) -> Rat { unimplemented!() } }
impl VMulAssign<Rat> for Rat { open spec fn mula_ens(self, r: Rat, o: Rat) -> bool { o.v() == self.v() * r.v() }
    #[verifier::external_body] fn vmul_assign(&mut self, r: Rat) { unimplemented!() } }
impl VMulAssign<&Rat> for Rat { open spec fn mula_ens(self, r: &Rat, o: Rat) -> bool { o.v() == self.v() * r.v() }
    #[verifier::external_body] fn vmul_assign(&mut self, r: &Rat) { unimplemented!() } }
impl VMulAssign<&&Rat> for Rat { open spec fn mula_ens(self, r: &&Rat, o: Rat) -> bool { o.v() == self.v() * r.v() }
    #[verifier::external_body] fn vmul_assign(&mut self, r: &&Rat) { unimplemented!() } }
impl VDiv<Rat> for Rat { type Out = Rat; open spec fn div_ens(self, r: Rat, o: Rat) -> bool { r.v() != 0real && o.v() == self.v() / r.v() }
    #[verifier::external_body] fn vdiv(self, r: Rat) -> Rat { unimplemented!() } }
impl VDiv<&Rat> for Rat { type Out = Rat; open spec fn div_ens(self, r: &Rat, o: Rat) -> bool { r.v() != 0real && o.v() == self.v() / r.v() }
    #[verifier::external_body] fn vdiv(self, r: &Rat) -> Rat { unimplemented!() } }
impl VDiv<Rat> for &Rat { type Out = Rat; open spec fn div_ens(self, r: Rat, o: Rat) -> bool { r.v() != 0real && o.v() == self.v() / r.v() }
    #[verifier::external_body] fn vdiv(self, r: Rat) -> Rat { unimplemented!() } }
impl VDiv<&Rat> for &Rat { type Out = Rat; open spec fn div_ens(self, r: &Rat, o: Rat) -> bool { r.v() != 0real && o.v() == self.v() / r.v() }
    #[verifier::external_body] fn vdiv(self, r: &Rat) -> Rat { unimplemented!() } }
impl VDivAssign<Rat> for Rat { open spec fn diva_ens(self, r: Rat, o: Rat) -> bool { r.v() != 0real && o.v() == self.v() / r.v() }
    #[verifier::external_body] fn vdiv_assign(&mut self, r: Rat) { unimplemented!() } }
impl VDivAssign<&Rat> for Rat { open spec fn diva_ens(self, r: &Rat, o: Rat) -> bool { r.v() != 0real && o.v() == self.v() / r.v() }
    #[verifier::external_body] fn vdiv_assign(&mut self, r: &Rat) { unimplemented!() } }
impl VDivAssign<&&Rat> for Rat { open spec fn diva_ens(self, r: &&Rat, o: Rat) -> bool { r.v() != 0real && o.v() == self.v() / r.v() }
    #[verifier::external_body] fn vdiv_assign(&mut self, r: &&Rat) { unimplemented!() } }
impl VRem<Rat> for Rat { type Out = Rat; open spec fn rem_ens(self, r: Rat, o: Rat) -> bool { r.v() != 0real && o.v() == self.v() - r.v() * (trunc(self.v() / r.v()) as real) }
    #[verifier::external_body] fn vrem(self, r: Rat) -> Rat { unimplemented!() } }
impl VRem<&Rat> for Rat { type Out = Rat; open spec fn rem_ens(self, r: &Rat, o: Rat) -> bool { r.v() != 0real && o.v() == self.v() - r.v() * (trunc(self.v() / r.v()) as real) }
    #[verifier::external_body] fn vrem(self, r: &Rat) -> Rat { unimplemented!() } }
impl VRem<Rat> for &Rat { type Out = Rat; open spec fn rem_ens(self, r: Rat, o: Rat) -> bool { r.v() != 0real && o.v() == self.v() - r.v() * (trunc(self.v() / r.v()) as real) }
    #[verifier::external_body] fn vrem(self, r: Rat) -> Rat { unimplemented!() } }
impl VRem<&Rat> for &Rat { type Out = Rat; open spec fn rem_ens(self, r: &Rat, o: Rat) -> bool { r.v() != 0real && o.v() == self.v() - r.v() * (trunc(self.v() / r.v()) as real) }
    #[verifier::external_body] fn vrem(self, r: &Rat) -> Rat { unimplemented!() } }
impl VRemAssign<Rat> for Rat { open spec fn rema_ens(self, r: Rat, o: Rat) -> bool { r.v() != 0real && o.v() == self.v() - r.v() * (trunc(self.v() / r.v()) as real) }
    #[verifier::external_body] fn vrem_assign(&mut self, r: Rat) { unimplemented!() } }
impl VRemAssign<&Rat> for Rat { open spec fn rema_ens(self, r: &Rat, o: Rat) -> bool { r.v() != 0real && o.v() == self.v() - r.v() * (trunc(self.v() / r.v()) as real) }
    #[verifier::external_body] fn vrem_assign(&mut self, r: &Rat) { unimplemented!() } }
impl VRemAssign<&&Rat> for Rat { open spec fn rema_ens(self, r: &&Rat, o: Rat) -> bool { r.v() != 0real && o.v() == self.v() - r.v() * (trunc(self.v() / r.v()) as real) }
    #[verifier::external_body] fn vrem_assign(&mut self, r: &&Rat) { unimplemented!() } }
impl VNeg for Rat { type Out = Rat; open spec fn neg_ens(self, o: Rat) -> bool { o.v() == 0real - self.v() }
    #[verifier::external_body] fn vneg(self) -> Rat { unimplemented!() } }
impl VNeg for &Rat { type Out = Rat; open spec fn neg_ens(self, o: Rat) -> bool { o.v() == 0real - self.v() }
    #[verifier::external_body] fn vneg(self) -> Rat { unimplemented!() } }
impl VEq for Rat { open spec fn eq_spec(&self, o: &Rat) -> bool { self.v() == o.v() }
    #[verifier::external_body] fn veq(&self, o: &Rat) -> bool { unimplemented!() } }
impl VLt for Rat { open spec fn lt_spec(&self, o: &Rat) -> bool { self.v() < o.v() }
    #[verifier::external_body] fn vlt(&self, o: &Rat) -> bool { unimplemented!() } }
// ---- Int: i32, i64 or BigInt; every operation is exact or (for machine integers that overflow) does not return
pub struct Int { pub r: Ghost<int> }
impl Clone for Int { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Int {}
impl Int {
    pub open spec fn v(self) -> int { self.r@ }
    pub open spec fn mk(x: int) -> Int { Int { r: Ghost(x) } }
    #[verifier::external_body] pub fn zero() -> (r: Int) ensures r.v() == 0int { unimplemented!() }
    #[verifier::external_body] pub fn vzero() -> (r: Int) ensures r.v() == 0int { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: Int) ensures r.v() == 1int { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0int) { unimplemented!() }
    #[verifier::external_body] pub fn is_one(&self) -> (r: bool) ensures r == (self.v() == 1int) { unimplemented!() }
    #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures r == (self.v() < 0int) { unimplemented!() }
    #[verifier::external_body] pub fn is_positive(&self) -> (r: bool) ensures r == (self.v() > 0int) { unimplemented!() }
    #[verifier::external_body] pub fn lit(x: i64) -> (r: Int) ensures r.v() == x as int { unimplemented!() }
    #[verifier::external_body] pub fn rem_euclid(self, m: Int) -> (r: Int) ensures m.v() != 0, m.v() > 0 ==> r.v() == self.v() % m.v() { unimplemented!() }
}
impl VAdd<Int> for Int { type Out = Int; open spec fn add_ens(self, r: Int, o: Int) -> bool { o.v() == self.v() + r.v() }
    #[verifier::external_body] fn vadd(self, r: Int) -> Int { unimplemented!() } }
impl VAdd<&Int> for Int { type Out = Int; open spec fn add_ens(self, r: &Int, o: Int) -> bool { o.v() == self.v() + r.v() }
    #[verifier::external_body] fn vadd(self, r: &Int) -> Int { unimplemented!() } }
impl VAdd<Int> for &Int { type Out = Int; open spec fn add_ens(self, r: Int, o: Int) -> bool { o.v() == self.v() + r.v() }
    #[verifier::external_body] fn vadd(self, r: Int) -> Int { unimplemented!() } }
impl VAdd<&Int> for &Int { type Out = Int; open spec fn add_ens(self, r: &Int, o: Int) -> bool { o.v() == self.v() + r.v() }
    #[verifier::external_body] fn vadd(self, r: &Int) -> Int { unimplemented!() } }
impl VAddAssign<Int> for Int { open spec fn adda_ens(self, r: Int, o: Int) -> bool { o.v() == self.v() + r.v() }
    #[verifier::external_body] fn vadd_assign(&mut self, r: Int) { unimplemented!() } }
impl VAddAssign<&Int> for Int { open spec fn adda_ens(self, r: &Int, o: Int) -> bool { o.v() == self.v() + r.v() }
    #[verifier::external_body] fn vadd_assign(&mut self, r: &Int) { unimplemented!() } }
impl VAddAssign<&&Int> for Int { open spec fn adda_ens(self, r: &&Int, o: Int) -> bool { o.v() == self.v() + r.v() }
    #[verifier::external_body] fn vadd_assign(&mut self, r: &&Int) { unimplemented!() } }
impl VSub<Int> for Int { type Out = Int; open spec fn sub_ens(self, r: Int, o: Int) -> bool { o.v() == self.v() - r.v() }
    #[verifier::external_body] fn vsub(self, r: Int) -> Int { unimplemented!() } }
impl VSub<&Int> for Int { type Out = Int; open spec fn sub_ens(self, r: &Int, o: Int) -> bool { o.v() == self.v() - r.v() }
    #[verifier::external_body] fn vsub(self, r: &Int) -> Int { unimplemented!() } }
impl VSub<Int> for &Int { type Out = Int; open spec fn sub_ens(self, r: Int, o: Int) -> bool { o.v() == self.v() - r.v() }
    #[verifier::external_body] fn vsub(self, r: Int) -> Int { unimplemented!() } }
impl VSub<&Int> for &Int { type Out = Int; open spec fn sub_ens(self, r: &Int, o: Int) -> bool { o.v() == self.v() - r.v() }
    #[verifier::external_body] fn vsub(self, r: &Int) -> Int { unimplemented!() } }
impl VSubAssign<Int> for Int { open spec fn suba_ens(self, r: Int, o: Int) -> bool { o.v() == self.v() - r.v() }
    #[verifier::external_body] fn vsub_assign(&mut self, r: Int) { unimplemented!() } }
impl VSubAssign<&Int> for Int { open spec fn suba_ens(self, r: &Int, o: Int) -> bool { o.v() == self.v() - r.v() }
    #[verifier::external_body] fn vsub_assign(&mut self, r: &Int) { unimplemented!() } }
impl VSubAssign<&&Int> for Int { open spec fn suba_ens(self, r: &&Int, o: Int) -> bool { o.v() == self.v() - r.v() }
    #[verifier::external_body] fn vsub_assign(&mut self, r: &&Int) { unimplemented!() } }
impl VMul<Int> for Int { type Out = Int; open spec fn mul_req(self, r: Int) -> bool { true } open spec fn mul_ens(self, r: Int, o: Int) -> bool { o.v() == self.v() * r.v() }
    #[verifier::external_body] fn vmul(self, r: Int) -> Int { unimplemented!() } }
impl VMul<&Int> for Int { type Out = Int; open spec fn mul_req(self, r: &Int) -> bool { true } open spec fn mul_ens(self, r: &Int, o: Int) -> bool { o.v() == self.v() * r.v() }
    #[verifier::external_body] fn vmul(self, r: &Int) -> Int { unimplemented!() } }
impl VMul<Int> for &Int { type Out = Int; open spec fn mul_req(self, r: Int) -> bool { true } open spec fn mul_ens(self, r: Int, o: Int) -> bool { o.v() == self.v() * r.v() }
    #[verifier::external_body] fn vmul(self, r: Int) -> Int { unimplemented!() } }
impl VMul<&Int> for &Int { type Out = Int; open spec fn mul_req(self, r: &Int) -> bool { true } open spec fn mul_ens(self, r: &Int, o: Int) -> bool { o.v() == self.v() * r.v() }
    #[verifier::external_body] fn vmul(self, r: &Int) -> Int { unimplemented!() } }
impl VMulAssign<Int> for Int { open spec fn mula_ens(self, r: Int, o: Int) -> bool { o.v() == self.v() * r.v() }
    #[verifier::external_body] fn vmul_assign(&mut self, r: Int) { unimplemented!() } }
impl VMulAssign<&Int> for Int { open spec fn mula_ens(self, r: &Int, o: Int) -> bool { o.v() == self.v() * r.v() }
    #[verifier::external_body] fn vmul_assign(&mut self, r: &Int) { unimplemented!() } }
impl VMulAssign<&&Int> for Int { open spec fn mula_ens(self, r: &&Int, o: Int) -> bool { o.v() == self.v() * r.v() }
    #[verifier::external_body] fn vmul_assign(&mut self, r: &&Int) { unimplemented!() } }
impl VDiv<Int> for Int { type Out = Int; open spec fn div_ens(self, r: Int, o: Int) -> bool { r.v() != 0int && o.v() == tdiv(self.v(), r.v()) }
    #[verifier::external_body] fn vdiv(self, r: Int) -> Int { unimplemented!() } }
impl VDiv<&Int> for Int { type Out = Int; open spec fn div_ens(self, r: &Int, o: Int) -> bool { r.v() != 0int && o.v() == tdiv(self.v(), r.v()) }
    #[verifier::external_body] fn vdiv(self, r: &Int) -> Int { unimplemented!() } }
impl VDiv<Int> for &Int { type Out = Int; open spec fn div_ens(self, r: Int, o: Int) -> bool { r.v() != 0int && o.v() == tdiv(self.v(), r.v()) }
    #[verifier::external_body] fn vdiv(self, r: Int) -> Int { unimplemented!() } }
impl VDiv<&Int> for &Int { type Out = Int; open spec fn div_ens(self, r: &Int, o: Int) -> bool { r.v() != 0int && o.v() == tdiv(self.v(), r.v()) }
    #[verifier::external_body] fn vdiv(self, r: &Int) -> Int { unimplemented!() } }
impl VDivAssign<Int> for Int { open spec fn diva_ens(self, r: Int, o: Int) -> bool { r.v() != 0int && o.v() == tdiv(self.v(), r.v()) }
    #[verifier::external_body] fn vdiv_assign(&mut self, r: Int) { unimplemented!() } }
impl VDivAssign<&Int> for Int { open spec fn diva_ens(self, r: &Int, o: Int) -> bool { r.v() != 0int && o.v() == tdiv(self.v(), r.v()) }
    #[verifier::external_body] fn vdiv_assign(&mut self, r: &Int) { unimplemented!() } }
impl VDivAssign<&&Int> for Int { open spec fn diva_ens(self, r: &&Int, o: Int) -> bool { r.v() != 0int && o.v() == tdiv(self.v(), r.v()) }
    #[verifier::external_body] fn vdiv_assign(&mut self, r: &&Int) { unimplemented!() } }
impl VRem<Int> for Int { type Out = Int; open spec fn rem_ens(self, r: Int, o: Int) -> bool { r.v() != 0int && o.v() == trem(self.v(), r.v()) }
    #[verifier::external_body] fn vrem(self, r: Int) -> Int { unimplemented!() } }
impl VRem<&Int> for Int { type Out = Int; open spec fn rem_ens(self, r: &Int, o: Int) -> bool { r.v() != 0int && o.v() == trem(self.v(), r.v()) }
    #[verifier::external_body] fn vrem(self, r: &Int) -> Int { unimplemented!() } }
impl VRem<Int> for &Int { type Out = Int; open spec fn rem_ens(self, r: Int, o: Int) -> bool { r.v() != 0int && o.v() == trem(self.v(), r.v()) }
    #[verifier::external_body] fn vrem(self, r: Int) -> Int { unimplemented!() } }
impl VRem<&Int> for &Int { type Out = Int; open spec fn rem_ens(self, r: &Int, o: Int) -> bool { r.v() != 0int && o.v() == trem(self.v(), r.v()) }
    #[verifier::external_body] fn vrem(self, r: &Int) -> Int { unimplemented!() } }
impl VRemAssign<Int> for Int { open spec fn rema_ens(self, r: Int, o: Int) -> bool { r.v() != 0int && o.v() == trem(self.v(), r.v()) }
    #[verifier::external_body] fn vrem_assign(&mut self, r: Int) { unimplemented!() } }
impl VRemAssign<&Int> for Int { open spec fn rema_ens(self, r: &Int, o: Int) -> bool { r.v() != 0int && o.v() == trem(self.v(), r.v()) }
    #[verifier::external_body] fn vrem_assign(&mut self, r: &Int) { unimplemented!() } }
impl VRemAssign<&&Int> for Int { open spec fn rema_ens(self, r: &&Int, o: Int) -> bool { r.v() != 0int && o.v() == trem(self.v(), r.v()) }
    #[verifier::external_body] fn vrem_assign(&mut self, r: &&Int) { unimplemented!() } }
impl VNeg for Int { type Out = Int; open spec fn neg_ens(self, o: Int) -> bool { o.v() == -self.v() }
    #[verifier::external_body] fn vneg(self) -> Int { unimplemented!() } }
impl VNeg for &Int { type Out = Int; open spec fn neg_ens(self, o: Int) -> bool { o.v() == -self.v() }
    #[verifier::external_body] fn vneg(self) -> Int { unimplemented!() } }
impl VEq for Int { open spec fn eq_spec(&self, o: &Int) -> bool { self.v() == o.v() }
    #[verifier::external_body] fn veq(&self, o: &Int) -> bool { unimplemented!() } }
impl VLt for Int { open spec fn lt_spec(&self, o: &Int) -> bool { self.v() < o.v() }
    #[verifier::external_body] fn vlt(&self, o: &Int) -> bool { unimplemented!() } }
// ---- usize: exact, or no return (overflow panics)
impl VAdd<usize> for usize { type Out = usize; open spec fn add_ens(self, r: usize, o: usize) -> bool { o == self + r }
    #[verifier::external_body] fn vadd(self, r: usize) -> usize { self + r } }
impl VAddAssign<usize> for usize { open spec fn adda_ens(self, r: usize, o: usize) -> bool { o == self + r }
    #[verifier::external_body] fn vadd_assign(&mut self, r: usize) { *self += r } }
impl VSub<usize> for usize { type Out = usize; open spec fn sub_ens(self, r: usize, o: usize) -> bool { o == self - r }
    #[verifier::external_body] fn vsub(self, r: usize) -> usize { self - r } }
impl VSubAssign<usize> for usize { open spec fn suba_ens(self, r: usize, o: usize) -> bool { o == self - r }
    #[verifier::external_body] fn vsub_assign(&mut self, r: usize) { *self -= r } }
impl VMul<usize> for usize { type Out = usize; open spec fn mul_req(self, r: usize) -> bool { true } open spec fn mul_ens(self, r: usize, o: usize) -> bool { o == self * r }
    #[verifier::external_body] fn vmul(self, r: usize) -> usize { self * r } }
impl VMulAssign<usize> for usize { open spec fn mula_ens(self, r: usize, o: usize) -> bool { o == self * r }
    #[verifier::external_body] fn vmul_assign(&mut self, r: usize) { *self *= r } }
impl VDiv<usize> for usize { type Out = usize; open spec fn div_ens(self, r: usize, o: usize) -> bool { r != 0 && o == self as int / r as int }
    #[verifier::external_body] fn vdiv(self, r: usize) -> usize { self / r } }
impl VDivAssign<usize> for usize { open spec fn diva_ens(self, r: usize, o: usize) -> bool { r != 0 && o == self as int / r as int }
    #[verifier::external_body] fn vdiv_assign(&mut self, r: usize) { *self /= r } }
impl VRem<usize> for usize { type Out = usize; open spec fn rem_ens(self, r: usize, o: usize) -> bool { r != 0 && o == self as int % r as int }
    #[verifier::external_body] fn vrem(self, r: usize) -> usize { self % r } }
impl VRemAssign<usize> for usize { open spec fn rema_ens(self, r: usize, o: usize) -> bool { r != 0 && o == self as int % r as int }
    #[verifier::external_body] fn vrem_assign(&mut self, r: usize) { *self %= r } }
impl VEq for usize { open spec fn eq_spec(&self, o: &usize) -> bool { *self == *o }
    fn veq(&self, o: &usize) -> bool { *self == *o } }
impl VLt for usize { open spec fn lt_spec(&self, o: &usize) -> bool { *self < *o }
    fn vlt(&self, o: &usize) -> bool { *self < *o } }
// ---- i64: exact, or no return (overflow panics)
impl VAdd<i64> for i64 { type Out = i64; open spec fn add_ens(self, r: i64, o: i64) -> bool { o == self + r }
    #[verifier::external_body] fn vadd(self, r: i64) -> i64 { self + r } }
impl VAddAssign<i64> for i64 { open spec fn adda_ens(self, r: i64, o: i64) -> bool { o == self + r }
    #[verifier::external_body] fn vadd_assign(&mut self, r: i64) { *self += r } }
impl VSub<i64> for i64 { type Out = i64; open spec fn sub_ens(self, r: i64, o: i64) -> bool { o == self - r }
    #[verifier::external_body] fn vsub(self, r: i64) -> i64 { self - r } }
impl VSubAssign<i64> for i64 { open spec fn suba_ens(self, r: i64, o: i64) -> bool { o == self - r }
    #[verifier::external_body] fn vsub_assign(&mut self, r: i64) { *self -= r } }
impl VMul<i64> for i64 { type Out = i64; open spec fn mul_req(self, r: i64) -> bool { true } open spec fn mul_ens(self, r: i64, o: i64) -> bool { o == self * r }
    #[verifier::external_body] fn vmul(self, r: i64) -> i64 { self * r } }
impl VMulAssign<i64> for i64 { open spec fn mula_ens(self, r: i64, o: i64) -> bool { o == self * r }
    #[verifier::external_body] fn vmul_assign(&mut self, r: i64) { *self *= r } }
impl VDiv<i64> for i64 { type Out = i64; open spec fn div_ens(self, r: i64, o: i64) -> bool { r != 0 && o as int == tdiv(self as int, r as int) }
    #[verifier::external_body] fn vdiv(self, r: i64) -> i64 { self / r } }
impl VDivAssign<i64> for i64 { open spec fn diva_ens(self, r: i64, o: i64) -> bool { r != 0 && o as int == tdiv(self as int, r as int) }
    #[verifier::external_body] fn vdiv_assign(&mut self, r: i64) { *self /= r } }
impl VRem<i64> for i64 { type Out = i64; open spec fn rem_ens(self, r: i64, o: i64) -> bool { r != 0 && o as int == trem(self as int, r as int) }
    #[verifier::external_body] fn vrem(self, r: i64) -> i64 { self % r } }
impl VRemAssign<i64> for i64 { open spec fn rema_ens(self, r: i64, o: i64) -> bool { r != 0 && o as int == trem(self as int, r as int) }
    #[verifier::external_body] fn vrem_assign(&mut self, r: i64) { *self %= r } }
impl VNeg for i64 { type Out = i64; open spec fn neg_ens(self, o: i64) -> bool { o == -self }
    #[verifier::external_body] fn vneg(self) -> i64 { -self } }
impl VEq for i64 { open spec fn eq_spec(&self, o: &i64) -> bool { *self == *o }
    fn veq(&self, o: &i64) -> bool { *self == *o } }
impl VLt for i64 { open spec fn lt_spec(&self, o: &i64) -> bool { *self < *o }
    fn vlt(&self, o: &i64) -> bool { *self < *o } }
// ---- i32: exact, or no return (overflow panics)
impl VAdd<i32> for i32 { type Out = i32; open spec fn add_ens(self, r: i32, o: i32) -> bool { o == self + r }
    #[verifier::external_body] fn vadd(self, r: i32) -> i32 { self + r } }
impl VAddAssign<i32> for i32 { open spec fn adda_ens(self, r: i32, o: i32) -> bool { o == self + r }
    #[verifier::external_body] fn vadd_assign(&mut self, r: i32) { *self += r } }
impl VSub<i32> for i32 { type Out = i32; open spec fn sub_ens(self, r: i32, o: i32) -> bool { o == self - r }
    #[verifier::external_body] fn vsub(self, r: i32) -> i32 { self - r } }
impl VSubAssign<i32> for i32 { open spec fn suba_ens(self, r: i32, o: i32) -> bool { o == self - r }
    #[verifier::external_body] fn vsub_assign(&mut self, r: i32) { *self -= r } }
impl VMul<i32> for i32 { type Out = i32; open spec fn mul_req(self, r: i32) -> bool { true } open spec fn mul_ens(self, r: i32, o: i32) -> bool { o == self * r }
    #[verifier::external_body] fn vmul(self, r: i32) -> i32 { self * r } }
impl VMulAssign<i32> for i32 { open spec fn mula_ens(self, r: i32, o: i32) -> bool { o == self * r }
    #[verifier::external_body] fn vmul_assign(&mut self, r: i32) { *self *= r } }
impl VDiv<i32> for i32 { type Out = i32; open spec fn div_ens(self, r: i32, o: i32) -> bool { r != 0 && o as int == tdiv(self as int, r as int) }
    #[verifier::external_body] fn vdiv(self, r: i32) -> i32 { self / r } }
impl VDivAssign<i32> for i32 { open spec fn diva_ens(self, r: i32, o: i32) -> bool { r != 0 && o as int == tdiv(self as int, r as int) }
    #[verifier::external_body] fn vdiv_assign(&mut self, r: i32) { *self /= r } }
impl VRem<i32> for i32 { type Out = i32; open spec fn rem_ens(self, r: i32, o: i32) -> bool { r != 0 && o as int == trem(self as int, r as int) }
    #[verifier::external_body] fn vrem(self, r: i32) -> i32 { self % r } }
impl VRemAssign<i32> for i32 { open spec fn rema_ens(self, r: i32, o: i32) -> bool { r != 0 && o as int == trem(self as int, r as int) }
    #[verifier::external_body] fn vrem_assign(&mut self, r: i32) { *self %= r } }
impl VNeg for i32 { type Out = i32; open spec fn neg_ens(self, o: i32) -> bool { o == -self }
    #[verifier::external_body] fn vneg(self) -> i32 { -self } }
impl VEq for i32 { open spec fn eq_spec(&self, o: &i32) -> bool { *self == *o }
    fn veq(&self, o: &i32) -> bool { *self == *o } }
impl VLt for i32 { open spec fn lt_spec(&self, o: &i32) -> bool { *self < *o }
    fn vlt(&self, o: &i32) -> bool { *self < *o } }
pub trait VZero: Sized { spec fn zero_spec() -> Self; fn vzero() -> (r: Self) ensures r == Self::zero_spec(); }
impl VZero for usize { open spec fn zero_spec() -> usize { 0 } fn vzero() -> usize { 0 } }
impl VZero for i64 { open spec fn zero_spec() -> i64 { 0 } fn vzero() -> i64 { 0 } }
// ---- values of machine integers, and exact integers combined with i64
pub trait VVal: Sized { spec fn v(self) -> int; }
impl VVal for i64 { open spec fn v(self) -> int { self as int } }
pub trait VLit: Sized { fn lit(x: i64) -> (r: Self) ensures Self::lit_is(r, x); spec fn lit_is(r: Self, x: i64) -> bool; }
impl VLit for i64 { open spec fn lit_is(r: i64, x: i64) -> bool { r == x } fn lit(x: i64) -> i64 { x } }
pub trait VRemEuclid: Sized { spec fn reme_ens(self, m: Self, r: Self) -> bool; fn vrem_euclid(self, m: Self) -> (r: Self) ensures self.reme_ens(m, r); }
impl VRemEuclid for i64 { open spec fn reme_ens(self, m: i64, r: i64) -> bool { m != 0 && (m > 0 ==> r as int == (self as int) % (m as int)) }
    #[verifier::external_body] fn vrem_euclid(self, m: i64) -> i64 { self.rem_euclid(m) } }
impl VMul<i64> for &Int { type Out = Int; open spec fn mul_req(self, r: i64) -> bool { true } open spec fn mul_ens(self, r: i64, o: Int) -> bool { o.v() == self.v() * r }
    #[verifier::external_body] fn vmul(self, r: i64) -> Int { unimplemented!() } }
impl VMulAssign<i64> for Int { open spec fn mula_ens(self, r: i64, o: Int) -> bool { o.v() == self.v() * r }
    #[verifier::external_body] fn vmul_assign(&mut self, r: i64) { unimplemented!() } }
impl Int {
    #[verifier::external_body] pub fn from(x: i64) -> (r: Int) ensures r.v() == x { unimplemented!() }
    #[verifier::external_body] pub fn pow(&self, n: i64) -> (r: Int) ensures n == 2 ==> r.v() == self.v() * self.v() { unimplemented!() }
}
impl Rat {
    /// a quotient of integers; the real one panics for a zero denominator
    #[verifier::external_body] pub fn new(n: Int, d: Int) -> (r: Rat) ensures d.v() != 0, r.v() == n.v() as real / d.v() as real { unimplemented!() }
}
impl VMul<&i64> for i64 { type Out = i64; open spec fn mul_req(self, r: &i64) -> bool { true } open spec fn mul_ens(self, r: &i64, o: i64) -> bool { o == self * *r }
    #[verifier::external_body] fn vmul(self, r: &i64) -> i64 { self * *r } }
impl VMul<&i64> for &i64 { type Out = i64; open spec fn mul_req(self, r: &i64) -> bool { true } open spec fn mul_ens(self, r: &i64, o: i64) -> bool { o == *self * *r }
    #[verifier::external_body] fn vmul(self, r: &i64) -> i64 { *self * *r } }
