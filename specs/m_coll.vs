@# stand-ins for the collections of the standard library: contents by key, equality and order of the keys
/// what equality, hashing and ordering of a type look at
pub trait VKey: Sized { type K; spec fn key(&self) -> Self::K; spec fn klt(a: Self::K, b: Self::K) -> bool; }
impl<S: VKey, T: VKey> VKey for (S, T) { type K = (S::K, T::K); open spec fn key(&self) -> (S::K, T::K) { (self.0.key(), self.1.key()) } open spec fn klt(a: (S::K, T::K), b: (S::K, T::K)) -> bool { S::klt(a.0, b.0) || a.0 == b.0 && T::klt(a.1, b.1) } }
impl VKey for u32 { type K = u32; open spec fn key(&self) -> u32 { *self } open spec fn klt(a: u32, b: u32) -> bool { a < b } }
impl<T: VKey> VKey for &T { type K = T::K; open spec fn key(&self) -> T::K { (**self).key() } open spec fn klt(a: T::K, b: T::K) -> bool { T::klt(a, b) } }
pub open spec fn keys<T: VKey>(s: Seq<T>) -> Seq<T::K> { Seq::new(s.len(), |i: int| s[i].key()) }
pub open spec fn has<K>(s: Seq<K>, x: K) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x }
pub open spec fn kset<K>(s: Seq<K>) -> Set<K> { s.to_set() }
pub open spec fn ascending<T: VKey>(s: Seq<T::K>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> T::klt(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn distinct<K>(s: Seq<K>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
/// HashSet and BTreeSet
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VSet<T: VKey> { p: std::marker::PhantomData<T> }
impl<T: VKey> VSet<T> {
    pub uninterp spec fn s(&self) -> Set<T::K>;
    #[verifier::external_body] pub fn new() -> (r: VSet<T>) ensures r.s() == Set::<T::K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: &T) -> (r: bool) ensures r == self.s().contains(x.key()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self).s() == old(self).s().insert(x.key()), r == !old(self).s().contains(x.key()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures self.s().finite(), r == self.s().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.s() == Set::<T::K>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, x: &T) -> (r: bool) ensures final(self).s() == old(self).s().remove(x.key()), r == old(self).s().contains(x.key()) { unimplemented!() }
    #[verifier::external_body] pub fn from(v: Vec<T>) -> (r: VSet<T>) ensures r.s() == kset(keys(v@)) { unimplemented!() }
    #[verifier::external_body] pub fn from_iter_vec(v: Vec<T>) -> (r: VSet<T>) ensures r.s() == kset(keys(v@)) { unimplemented!() }
}
impl<T: VKey> VSeq for VSet<T> { type Item = T; uninterp spec fn vseq_spec(&self) -> Seq<T>; #[verifier::external_body] fn vseq(&self) -> (r: &Vec<T>) { unimplemented!() } }
pub broadcast axiom fn axiom_set<T: VKey>(x: &VSet<T>) ensures kset(keys(#[trigger] x.vseq_spec())) == x.s(), distinct(keys(x.vseq_spec()));
/// the elements of a set, sorted
#[verifier::external_body] pub fn vsorted<T: VKey>(x: VSet<T>) -> (r: Vec<T>) ensures ascending::<T>(keys(r@)), kset(keys(r@)) == x.s() { unimplemented!() }
/// BTreeSet, turned into a list at once
pub struct VSorted { }
impl VSorted {
    #[verifier::external_body] pub fn from_iter_vec<T: VKey>(v: Vec<T>) -> (r: Vec<T>) ensures ascending::<T>(keys(r@)), kset(keys(r@)) == kset(keys(v@)) { unimplemented!() }
}
pub open spec fn map_from<K: VKey, V>(s: Seq<(K, V)>, k: int) -> Map<K::K, V> decreases k { if k <= 0 { Map::<K::K, V>::empty() } else { map_from(s, k - 1).insert(s[k - 1].0.key(), s[k - 1].1) } }
/// VecDeque
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VDeque<T> { p: std::marker::PhantomData<T> }
impl<T> VDeque<T> {
    pub uninterp spec fn q(&self) -> Seq<T>;
    #[verifier::external_body] pub fn new() -> (r: VDeque<T>) ensures r.q() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from(v: Vec<T>) -> (r: VDeque<T>) ensures r.q() == v@ { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, x: T) ensures final(self).q() == old(self).q().push(x) { unimplemented!() }
    #[verifier::external_body] pub fn push_front(&mut self, x: T) ensures final(self).q() == seq![x] + old(self).q() { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures r.is_some() == (old(self).q().len() > 0), r matches Some(x) ==> x == old(self).q()[0] && final(self).q() == old(self).q().skip(1), r.is_none() ==> final(self).q() == old(self).q() { unimplemented!() }
    #[verifier::external_body] pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures r.is_some() == (old(self).q().len() > 0), r matches Some(x) ==> x == old(self).q().last() && final(self).q() == old(self).q().drop_last(), r.is_none() ==> final(self).q() == old(self).q() { unimplemented!() }
}
/// BTreeMap and HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VMap<K: VKey, V> { p: std::marker::PhantomData<(K, V)> }
impl<K: VKey, V> VMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K::K, V>;
    #[verifier::external_body] pub fn new() -> (r: VMap<K, V>) ensures r.m() == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from(v: Vec<(K, V)>) -> (r: VMap<K, V>) ensures r.m() == map_from(v@, v@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn from_iter_vec(v: Vec<(K, V)>) -> (r: VMap<K, V>) ensures r.m() == map_from(v@, v@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.m().dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.m() == Map::<K::K, V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m().dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k.key(), v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self).m() == old(self).m().remove(k.key()) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r.is_some() == self.m().dom().contains(k.key()), r matches Some(x) ==> *x == self.m()[k.key()] { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures r.is_some() == old(self).m().dom().contains(k.key()), r matches Some(x) ==> *x == old(self).m()[k.key()] && final(self).m() == old(self).m().insert(k.key(), *final(x)),
            r.is_none() ==> final(self).m() == old(self).m() { unimplemented!() }
    #[verifier::external_body] pub fn index(&self, k: &K) -> (r: &V) requires self.m().dom().contains(k.key()) ensures *r == self.m()[k.key()] { unimplemented!() }
}
/// UnsafeCell, with get() read as exclusive access
pub struct VCell<T> { pub c: T }
impl<T> VCell<T> {
    #[verifier::external_body] pub fn new(x: T) -> (r: VCell<T>) ensures r.c == x { unimplemented!() }
    #[verifier::external_body] pub fn get(&mut self) -> (r: &mut T) ensures *r == old(self).c, final(self).c == *final(r) { unimplemented!() }
}
