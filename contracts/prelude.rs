#![allow(unused, unused_imports, deprecated, non_snake_case, non_camel_case_types)]
#![cfg_attr(verus_keep_ghost, allow(internal_features))]
use vstd::prelude::*;
use std::rc::Rc;
verus! {
pub mod vp { use super::*;
// Assumed contracts of the standard library types /repo uses.  Each external_body function below and each
// axiom is an assumption; the list is reported in the evidence.

pub uninterp spec fn arb(n: int) -> bool;   // used by the vacuity canaries only

// ---------- strings: a String is determined by its characters
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub broadcast axiom fn axiom_string_ext(a: String)
    ensures string_of(#[trigger] a@) == a;
pub broadcast axiom fn axiom_string_obeys_eq()
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn axiom_string_eq(a: String, b: String)
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn axiom_string_of(s: Seq<char>)
    ensures #[trigger] string_of(s)@ == s;

#[verifier::external_body]
pub fn vpanic<T>() -> T requires false { panic!() }
#[verifier::external_body]
pub fn vassert(b: bool) requires b { }

pub trait VInto<T>: Sized {
    spec fn vinto_spec(self) -> T;
    fn vinto(self) -> (r: T) ensures r == self.vinto_spec();
}
impl VInto<String> for &String {
    open spec fn vinto_spec(self) -> String { *self }
    #[verifier::external_body]
    fn vinto(self) -> (r: String) { self.clone() }
}
impl VInto<String> for &str {
    open spec fn vinto_spec(self) -> String { string_of(self@) }
    #[verifier::external_body]
    fn vinto(self) -> (r: String) { self.to_owned() }
}
impl VInto<String> for String {
    open spec fn vinto_spec(self) -> String { self }
    #[verifier::external_body]
    fn vinto(self) -> (r: String) { self }
}
pub trait VRcFrom<T>: Sized { spec fn boxed(self) -> T; }
impl<T> VRcFrom<T> for Box<T> { open spec fn boxed(self) -> T { *self } }
impl<T> VRcFrom<T> for T { open spec fn boxed(self) -> T { self } }
#[verifier::external_body]
pub fn rc_from<T, B: VRcFrom<T>>(b: B) -> (r: Rc<T>) ensures *r == b.boxed() { unimplemented!() }
// `no other owner`: Verus does not count the owners of an Rc
#[verifier::external_body]
pub fn rc_get_mut<T>(x: &mut Rc<T>) -> (r: Option<&mut T>) ensures match r { Some(y) => *y == **old(x) && **final(x) == *final(y), None => false } { unimplemented!() }
pub trait VLast<T> { spec fn items(&self) -> Seq<T>;
    fn vlast(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.items().len() > 0 && *x == self.items().last(), None => self.items().len() == 0 };
    fn vlast_mut(&mut self) -> (r: Option<&mut T>) ensures match r {
        Some(x) => old(self).items().len() > 0 && *x == old(self).items().last() && final(self).items() == old(self).items().drop_last().push(*final(x)),
        None => old(self).items().len() == 0 && final(self).items() == old(self).items() };
    fn vpop(&mut self) -> (r: Option<T>) ensures match r { Some(x) => old(self).items().len() > 0 && x == old(self).items().last() && final(self).items() == old(self).items().drop_last(),
        None => old(self).items().len() == 0 && final(self).items() == old(self).items() };
}
impl<T> VLast<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vlast(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vlast_mut(&mut self) -> (r: Option<&mut T>) { unimplemented!() }
    #[verifier::external_body] fn vpop(&mut self) -> (r: Option<T>) { unimplemented!() } }
pub assume_specification<T> [std::option::Option::<T>::replace] (o: &mut std::option::Option<T>, x: T) -> (r: std::option::Option<T>) ensures *final(o) == Some(x), r == *old(o);
pub trait VCloned { type T; spec fn cloned_spec(self) -> Self::T; fn vcloned(self) -> (r: Self::T) ensures r == self.cloned_spec(); }
impl<'a, X> VCloned for Option<&'a X> { type T = Option<X>; open spec fn cloned_spec(self) -> Option<X> { match self { Some(x) => Some(*x), None => None } } #[verifier::external_body] fn vcloned(self) -> Option<X> { unimplemented!() } }
// a vector is determined by its items, a map by its entries
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub axiom fn axiom_vec_of<T>(v: Vec<T>) ensures vec_of(v@) == v;
pub uninterp spec fn map_of<K, V>(m: Map<K, V>) -> BTreeMap<K, V>;
pub axiom fn axiom_map_of<K, V>(m: BTreeMap<K, V>) ensures map_of(m@) == m;
// ---------- snapshots of iterators: the finite sequence of items an iteration goes through
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Snap<T> { v: std::vec::IntoIter<T> }
impl<T> Snap<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool)
        requires 0 <= self.pos() <= self.seq().len(),
        ensures r == (self.pos() < self.seq().len())
    { self.v.len() > 0 }
    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: T)
        requires 0 <= old(self).pos() < old(self).seq().len(),
        ensures r == old(self).seq()[old(self).pos()], final(self).seq() == old(self).seq(), final(self).pos() == old(self).pos() + 1,
    { self.v.next().unwrap() }
}
impl<T> Snap<T> {
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: Snap<(usize, T)>) requires self.pos() == 0, self.seq().len() <= usize::MAX
        ensures r.pos() == 0, r.seq() == Seq::new(self.seq().len(), |i: int| (i as usize, self.seq()[i])) { unimplemented!() }
}
impl<T> Snap<T> {
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: Snap<T>) ensures r.pos() == 0, r.seq() == self.snap_seq().take(if n <= self.snap_seq().len() { n as int } else { self.snap_seq().len() as int }) { unimplemented!() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: Snap<T>) ensures r.pos() == 0, r.seq() == self.snap_seq().skip(if n <= self.snap_seq().len() { n as int } else { self.snap_seq().len() as int }) { unimplemented!() }
}
pub trait IntoSnap: Sized {
    type Item;
    spec fn snap_seq(self) -> Seq<Self::Item>;
    fn into_snap(self) -> (r: Snap<Self::Item>)
        ensures r.seq() == self.snap_seq(), r.pos() == 0;
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<T> IntoSnap for Snap<T> {
    type Item = T;
    open spec fn snap_seq(self) -> Seq<T> { if self.pos() == 0 { self.seq() } else { self.seq().skip(self.pos()) } }
    #[verifier::external_body]
    fn into_snap(self) -> Snap<T> { self }
}
impl<'a, T> IntoSnap for &'a Vec<T> {
    type Item = &'a T;
    open spec fn snap_seq(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn into_snap(self) -> Snap<&'a T> { unimplemented!() }
}
impl<'a, T> IntoSnap for &'a [T] {
    type Item = &'a T;
    open spec fn snap_seq(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn into_snap(self) -> Snap<&'a T> { unimplemented!() }
}
impl<T> IntoSnap for Vec<T> {
    type Item = T;
    open spec fn snap_seq(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_snap(self) -> Snap<T> { unimplemented!() }
}
impl<'a, T> IntoSnap for &'a BTreeSet<T> {
    type Item = &'a T;
    open spec fn snap_seq(self) -> Seq<&'a T> { refs(sorted_seq(self@)) }
    #[verifier::external_body]
    fn into_snap(self) -> Snap<&'a T> { unimplemented!() }
}
impl<T> IntoSnap for BTreeSet<T> {
    type Item = T;
    open spec fn snap_seq(self) -> Seq<T> { sorted_seq(self@) }
    #[verifier::external_body]
    fn into_snap(self) -> Snap<T> { unimplemented!() }
}
impl<K, W> IntoSnap for BTreeMap<K, W> {
    type Item = (K, W);
    open spec fn snap_seq(self) -> Seq<(K, W)> { Seq::new(self.keyseq().len(), |i: int| (self.keyseq()[i], self@[self.keyseq()[i]])) }
    #[verifier::external_body]
    fn into_snap(self) -> Snap<(K, W)> { unimplemented!() }
}
impl<'a, K, W> IntoSnap for &'a BTreeMap<K, W> {
    type Item = (&'a K, &'a W);
    open spec fn snap_seq(self) -> Seq<(&'a K, &'a W)> { Seq::new(self.keyseq().len(), |i: int| (&self.keyseq()[i], &self@[self.keyseq()[i]])) }
    #[verifier::external_body]
    fn into_snap(self) -> Snap<(&'a K, &'a W)> { unimplemented!() }
}
pub trait VIter<'a> { type It; fn viter(&'a self) -> (r: Self::It) ensures self.viter_spec(r); spec fn viter_spec(&self, r: Self::It) -> bool; }
impl<'a, T: 'a> VIter<'a> for Vec<T> {
    type It = Snap<&'a T>;
    open spec fn viter_spec(&self, r: Snap<&'a T>) -> bool { r.seq() == refs(self@) && r.pos() == 0 }
    #[verifier::external_body]
    fn viter(&'a self) -> Snap<&'a T> { unimplemented!() }
}
impl<'a, T: 'a> VIter<'a> for [T] {
    type It = Snap<&'a T>;
    open spec fn viter_spec(&self, r: Snap<&'a T>) -> bool { r.seq() == refs(self@) && r.pos() == 0 }
    #[verifier::external_body]
    fn viter(&'a self) -> Snap<&'a T> { unimplemented!() }
}
impl<'a, T: 'a> VIter<'a> for BTreeSet<T> {
    type It = Snap<&'a T>;
    open spec fn viter_spec(&self, r: Snap<&'a T>) -> bool { r.seq() == refs(sorted_seq(self@)) && r.pos() == 0 }
    #[verifier::external_body]
    fn viter(&'a self) -> Snap<&'a T> { unimplemented!() }
}
impl<'a, K: 'a, W: 'a> VIter<'a> for BTreeMap<K, W> {
    type It = Snap<(&'a K, &'a W)>;
    open spec fn viter_spec(&self, r: Snap<(&'a K, &'a W)>) -> bool { r.seq() == (&*self).snap_seq() && r.pos() == 0 }
    #[verifier::external_body]
    fn viter(&'a self) -> Snap<(&'a K, &'a W)> { unimplemented!() }
}
// ---------- collecting
pub trait VCollect<T>: Sized {
    spec fn vempty(self) -> bool;
    spec fn vadded(self, old: Self, x: T) -> bool;
    fn vnew() -> (r: Self) ensures r.vempty();
    fn vadd(&mut self, x: T) ensures final(self).vadded(*old(self), x);
}
impl<T> VCollect<T> for Vec<T> {
    open spec fn vempty(self) -> bool { self@ == Seq::<T>::empty() }
    open spec fn vadded(self, old: Self, x: T) -> bool { self@ == old@.push(x) }
    #[verifier::external_body]
    fn vnew() -> Self { unimplemented!() }
    #[verifier::external_body]
    fn vadd(&mut self, x: T) { unimplemented!() }
}
impl<T> VCollect<T> for BTreeSet<T> {
    open spec fn vempty(self) -> bool { self@ == Set::<T>::empty() }
    open spec fn vadded(self, old: Self, x: T) -> bool { self@ == old@.insert(x) }
    #[verifier::external_body]
    fn vnew() -> Self { unimplemented!() }
    #[verifier::external_body]
    fn vadd(&mut self, x: T) { unimplemented!() }
}
impl<K, W> VCollect<(K, W)> for BTreeMap<K, W> {
    open spec fn vempty(self) -> bool { self@ == Map::<K, W>::empty() }
    open spec fn vadded(self, old: Self, x: (K, W)) -> bool { self@ == old@.insert(x.0, x.1) }
    #[verifier::external_body]
    fn vnew() -> Self { unimplemented!() }
    #[verifier::external_body]
    fn vadd(&mut self, x: (K, W)) { unimplemented!() }
}
// ---------- maps and sets: ordered, iterated in ascending order of keys
pub uninterp spec fn sorted_seq<K>(s: Set<K>) -> Seq<K>;
pub broadcast axiom fn axiom_sorted_seq<K>(s: Set<K>)
    ensures (#[trigger] sorted_seq(s)).no_duplicates(), sorted_seq(s).to_set() == s;

pub trait VKey<Q: ?Sized>: Sized { spec fn key_of(q: &Q) -> Self; }
impl<K> VKey<K> for K { open spec fn key_of(q: &K) -> K { *q } }
impl<'a, K> VKey<K> for &'a K { open spec fn key_of(q: &K) -> &'a K { &*q } }
impl VKey<str> for String { open spec fn key_of(q: &str) -> String { string_of(q@) } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { m: std::collections::BTreeMap<K, V> }
impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    pub open spec fn keyseq(&self) -> Seq<K> { sorted_seq(self@.dom()) }
    pub open spec fn valseq(&self) -> Seq<V> { Seq::new(self.keyseq().len(), |i: int| self@[self.keyseq()[i]]) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: Snap<&V>) ensures r.seq() == refs(self.valseq()), r.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Snap<&K>) ensures r.seq() == refs(self.keyseq()), r.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: ?Sized>(&self, k: &Q) -> (r: bool) where K: VKey<Q>
        ensures r == self@.contains_key(K::key_of(k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: ?Sized>(&self, k: &Q) -> (r: Option<&V>) where K: VKey<Q>
        ensures match r { Some(v) => self@.contains_key(K::key_of(k)) && *v == self@[K::key_of(k)], None => !self@.contains_key(K::key_of(k)) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vidx<Q: ?Sized>(&self, k: &Q) -> (r: &V) where K: VKey<Q>
        requires self@.contains_key(K::key_of(k))
        ensures *r == self@[K::key_of(k)]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vat<Q: ?Sized>(&self, k: &Q) -> (r: &V) where K: VKey<Q>
        requires self@.contains_key(K::key_of(k))
        ensures *r == self@[K::key_of(k)]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vat_mut(&mut self, k: &K) -> (r: &mut V)
        requires old(self)@.contains_key(*k)
        ensures *r == old(self)@[*k], final(self)@ == old(self)@.insert(*k, *final(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vset(&mut self, k: &K, v: V) -> (r: V)
        requires old(self)@.contains_key(*k)
        ensures r == old(self)@[*k], final(self)@ == old(self)@.insert(*k, v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>) where K: VKey<Q>
        ensures match r {
            Some(v) => old(self)@.contains_key(K::key_of(k)) && *v == old(self)@[K::key_of(k)] && final(self)@ == old(self)@.insert(K::key_of(k), *final(v)),
            None => !old(self)@.contains_key(K::key_of(k)) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            match r { Some(o) => old(self)@.contains_key(k) && o == old(self)@[k], None => !old(self)@.contains_key(k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: ?Sized>(&mut self, k: &Q) -> (r: Option<V>) where K: VKey<Q>
        ensures final(self)@ == old(self)@.remove(K::key_of(k)),
            match r { Some(o) => old(self)@.contains_key(K::key_of(k)) && o == old(self)@[K::key_of(k)], None => !old(self)@.contains_key(K::key_of(k)) }
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { m: std::collections::BTreeSet<K> }
impl<K> BTreeSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: ?Sized>(&mut self, k: &Q) -> (r: bool) where K: VKey<Q>
        ensures final(self)@ == old(self)@.remove(K::key_of(k)), r == old(self)@.contains(K::key_of(k))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: ?Sized>(&self, k: &Q) -> (r: bool) where K: VKey<Q>
        ensures r == self@.contains(K::key_of(k))
    { unimplemented!() }
}
// ---------- operators on bool
pub fn vbitor(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub fn vbitand(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn vbitxor(a: bool, b: bool) -> (r: bool) ensures r == (a != b) { a != b }
// ---------- further operations of vectors and maps
pub trait VIndex<T> { fn vidx(&self, i: usize) -> (r: &T) requires i < self.vseq().len() ensures *r == self.vseq()[i as int]; spec fn vseq(&self) -> Seq<T>; }
impl<T> VIndex<T> for Vec<T> { open spec fn vseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vidx(&self, i: usize) -> (r: &T) { unimplemented!() } }
impl<T> VIndex<T> for [T] { open spec fn vseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vidx(&self, i: usize) -> (r: &T) { unimplemented!() } }
pub trait VExtend<T>: Sized { spec fn added(self, s: Seq<T>) -> Seq<T>; }
impl<T> VExtend<T> for Vec<T> { open spec fn added(self, s: Seq<T>) -> Seq<T> { s + self@ } }
impl<T> VExtend<T> for Option<T> { open spec fn added(self, s: Seq<T>) -> Seq<T> { match self { Some(t) => s.push(t), None => s } } }
pub trait VExtendTo<T>: Sized { spec fn had(self) -> Seq<T>; fn vextend<E: VExtend<T>>(&mut self, e: E) ensures final(self).had() == e.added(old(self).had()); }
impl<T> VExtendTo<T> for Vec<T> { open spec fn had(self) -> Seq<T> { self@ } #[verifier::external_body] fn vextend<E: VExtend<T>>(&mut self, e: E) { unimplemented!() } }
pub trait VEmpty { spec fn no_items(&self) -> bool; fn vis_empty(&self) -> (r: bool) ensures r == self.no_items(); }
impl<T> VEmpty for Vec<T> { open spec fn no_items(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vis_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VEmpty for [T] { open spec fn no_items(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vis_empty(&self) -> (r: bool) { unimplemented!() } }
impl<K, W> VEmpty for BTreeMap<K, W> { open spec fn no_items(&self) -> bool { self@.dom().len() == 0 } #[verifier::external_body] fn vis_empty(&self) -> (r: bool) { unimplemented!() } }
impl<K> VEmpty for BTreeSet<K> { open spec fn no_items(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vis_empty(&self) -> (r: bool) { unimplemented!() } }
impl<'a, T> VExtend<T> for Snap<T> { open spec fn added(self, s: Seq<T>) -> Seq<T> { s + self.snap_seq() } }
pub trait VDefault: Sized { spec fn is_default(self) -> bool; fn vdefault() -> (r: Self) ensures r.is_default(); }
impl<T> VDefault for Vec<T> { open spec fn is_default(self) -> bool { self@ == Seq::<T>::empty() } #[verifier::external_body] fn vdefault() -> Self { unimplemented!() } }
impl VDefault for String { open spec fn is_default(self) -> bool { self@ == Seq::<char>::empty() } #[verifier::external_body] fn vdefault() -> Self { unimplemented!() } }
impl VDefault for bool { open spec fn is_default(self) -> bool { self == false } #[verifier::external_body] fn vdefault() -> Self { unimplemented!() } }
impl VDefault for usize { open spec fn is_default(self) -> bool { self == 0 } #[verifier::external_body] fn vdefault() -> Self { unimplemented!() } }
impl<K, W> VDefault for BTreeMap<K, W> { open spec fn is_default(self) -> bool { self@ == Map::<K, W>::empty() } #[verifier::external_body] fn vdefault() -> Self { unimplemented!() } }
impl<K> VDefault for BTreeSet<K> { open spec fn is_default(self) -> bool { self@ == Set::<K>::empty() } #[verifier::external_body] fn vdefault() -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn vmem_take<T: VDefault>(x: &mut T) -> (r: T) ensures r == *old(x), final(x).is_default() { unimplemented!() }
#[verifier::external_body]
pub fn vmem_replace<T>(x: &mut T, y: T) -> (r: T) ensures r == *old(x), *final(x) == y { unimplemented!() }
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn vor_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { v }), final(self)@ == old(self)@.insert(k, *final(r))
    { unimplemented!() }
}
impl<T> Snap<T> { #[verifier::external_body] pub fn zip<U>(self, o: Snap<U>) -> (r: Snap<(T, U)>) requires self.pos() == 0, o.pos() == 0
    ensures r.pos() == 0, r.seq() == Seq::new(if self.seq().len() <= o.seq().len() { self.seq().len() } else { o.seq().len() }, |i: int| (self.seq()[i], o.seq()[i])) { unimplemented!() } }
pub fn vonce<T>(x: T) -> (r: Snap<T>) ensures r.pos() == 0, r.seq() == seq![x] { vonce_(x) }
#[verifier::external_body] fn vonce_<T>(x: T) -> (r: Snap<T>) ensures r.pos() == 0, r.seq() == seq![x] { unimplemented!() }
impl<T> Snap<T> { #[verifier::external_body] pub fn chain(self, o: Snap<T>) -> (r: Snap<T>) ensures r.pos() == 0, r.seq() == self.snap_seq() + o.snap_seq() { unimplemented!() } }
impl<T> Snap<T> { #[verifier::external_body] pub fn rev(self) -> (r: Snap<T>) ensures r.pos() == 0, r.seq() == self.snap_seq().reverse() { unimplemented!() } }
pub broadcast proof fn sorted_in<K>(s: Set<K>, i: int) requires 0 <= i < sorted_seq(s).len() ensures s.contains(#[trigger] sorted_seq(s)[i])
{ broadcast use axiom_sorted_seq; assert(sorted_seq(s).to_set().contains(sorted_seq(s)[i])); }
pub broadcast group group_prelude { sorted_in, axiom_string_ext, axiom_string_obeys_eq, axiom_string_eq, axiom_string_of, axiom_sorted_seq }
}
use vp::*;
