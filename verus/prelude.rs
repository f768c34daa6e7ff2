// Contracts of what the exposition code uses from std and its dependencies.
// Every #[verifier::external_body] function and every axiom in this file is
// trusted; the code under verification is appended below it on every run.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {

// ---------------------------------------------------------------- strings
pub type Str = Seq<char>;
pub type SMap = Map<Str, Str>;

pub assume_specification[String::with_capacity](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub assume_specification<T: core::default::Default> [std::mem::take::<T>] (r: &mut T) -> (x: T)
    ensures x == *old(r);

pub assume_specification<T> [bool::then_some::<T>] (b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None });
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T> [Option::<T>::replace] (a: &mut Option<T>, t: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(t);

/// Anything that is text: its characters.
pub trait Text { spec fn txt(&self) -> Str; }
impl Text for String { open spec fn txt(&self) -> Str { self@ } }
impl Text for str { open spec fn txt(&self) -> Str { self@ } }
impl<T: Text + ?Sized> Text for &T { open spec fn txt(&self) -> Str { (**self).txt() } }

pub trait ToStr { spec fn shown(&self) -> Str;
    fn to_string_v(&self) -> (r: String) ensures r@ == self.shown();
    fn to_owned_v(&self) -> (r: String) ensures r@ == self.shown();
}
impl ToStr for String { open spec fn shown(&self) -> Str { self@ }
    #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn to_owned_v(&self) -> (r: String) { unimplemented!() } }
impl ToStr for str { open spec fn shown(&self) -> Str { self@ }
    #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn to_owned_v(&self) -> (r: String) { unimplemented!() } }

/// A number in decimal.
pub uninterp spec fn decimal(n: int) -> Str;
impl ToStr for u8 { open spec fn shown(&self) -> Str { decimal(*self as int) }
    #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn to_owned_v(&self) -> (r: String) { unimplemented!() } }

/// `String + &str`, and the pieces of a `format!`.
#[verifier::external_body]
pub fn str_add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }

/// One more piece of a `format!`: `{}` of a text is the text.
#[verifier::external_body]
pub fn fmt_v<T: Text + ?Sized>(a: String, b: &T) -> (r: String) ensures r@ == a@ + b.txt() { unimplemented!() }

pub broadcast proof fn empty_add(a: Str) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }

pub trait StrV { fn chars_v(&self) -> (r: Iter<char>) ensures r@ == self.chars_of(); spec fn chars_of(&self) -> Str; }
impl StrV for str { open spec fn chars_of(&self) -> Str { self@ }
    #[verifier::external_body] fn chars_v(&self) -> (r: Iter<char>) { unimplemented!() } }

// -------------------------------------------------------------- iterators
/// An iterator is the sequence of what it still yields.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Iter<T> { v: Vec<T> }
impl<T> View for Iter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Iter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: Iter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<B: FromIt<T>>(self) -> (r: B)
        ensures B::from_it(self@, r)
    { unimplemented!() }
}
impl<T> Iter<T> {
    #[verifier::external_body] pub fn rev(self) -> (r: Iter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: Iter<T>) ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: Iter<T>) ensures r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn chain(self, o: Iter<T>) -> (r: Iter<T>) ensures r@ == self@ + o@ { unimplemented!() }
    #[verifier::external_body] pub fn last(self) -> (r: Option<T>) ensures r == (if self@.len() == 0 { None } else { Some(self@.last()) }) { unimplemented!() }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub trait FromIt<T>: Sized { spec fn from_it(s: Seq<T>, r: Self) -> bool; }
impl<T> FromIt<T> for Vec<T> { open spec fn from_it(s: Seq<T>, r: Self) -> bool { r@ == s } }

pub trait IntoIt: Sized { type Item;
    spec fn enumerates(self, s: Seq<Self::Item>) -> bool;
    fn into_iter_v(self) -> (r: Iter<Self::Item>) ensures self.enumerates(r@);
}
impl<T> IntoIt for Iter<T> { type Item = T; open spec fn enumerates(self, s: Seq<T>) -> bool { self@ == s }
    fn into_iter_v(self) -> (r: Iter<T>) { self } }
impl<T> IntoIt for Vec<T> { type Item = T; open spec fn enumerates(self, s: Seq<T>) -> bool { self@ == s }
    #[verifier::external_body] fn into_iter_v(self) -> (r: Iter<T>) { unimplemented!() } }
impl<T, const N: usize> IntoIt for [T; N] { type Item = T; open spec fn enumerates(self, s: Seq<T>) -> bool { self@ == s }
    #[verifier::external_body] fn into_iter_v(self) -> (r: Iter<T>) { unimplemented!() } }
impl<'a, T> IntoIt for &'a Vec<T> { type Item = &'a T;
    open spec fn enumerates(self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == self@[i] }
    #[verifier::external_body] fn into_iter_v(self) -> (r: Iter<&'a T>) { unimplemented!() } }

/// `vec![..]`
#[verifier::external_body]
pub fn vec_v<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }

/// `iter_mut` is given as references that cannot be written through (code that
/// writes through them is not accepted), so the vector stays as it is.
pub trait VecItMut<T> { spec fn mitems(&self) -> Seq<T>;
    fn iter_mut_v(&mut self) -> (r: Iter<&T>)
        ensures final(self).mitems() == old(self).mitems(), r@.len() == old(self).mitems().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == old(self).mitems()[i];
}
impl<T> VecItMut<T> for Vec<T> { open spec fn mitems(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn iter_mut_v(&mut self) -> (r: Iter<&T>) { unimplemented!() } }
pub trait VecIt<T> { spec fn items(&self) -> Seq<T>;
    fn iter_v(&self) -> (r: Iter<&T>)
        ensures r@.len() == self.items().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.items()[i];
}
impl<T> VecIt<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn iter_v(&self) -> (r: Iter<&T>) { unimplemented!() } }
impl<T> VecIt<T> for [T] { open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn iter_v(&self) -> (r: Iter<&T>) { unimplemented!() } }

/// Text pieces with a separator between them.
pub open spec fn joined(s: Seq<Str>, sep: Str) -> Str decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), sep) + sep + s.last() }
}
pub trait JoinV { spec fn pieces(&self) -> Seq<Str>; fn join_v(&self, sep: &str) -> (r: String) ensures r@ == joined(self.pieces(), sep@); }
impl JoinV for Vec<String> { open spec fn pieces(&self) -> Seq<Str> { self@.map_values(|s: String| s@) }
    #[verifier::external_body] fn join_v(&self, sep: &str) -> (r: String) { unimplemented!() } }

// ------------------------------------------------------------------- maps
/// Keys in the order of an ordered map: a function of the key set alone.
pub uninterp spec fn ascending(s: Set<Str>) -> Seq<Str>;
pub axiom fn ascending_lists(s: Set<Str>)
    ensures ascending(s).no_duplicates(), ascending(s).to_set() == s;

/// The map that inserting these pairs one after the other gives.
pub open spec fn map_of<K: Text, V>(s: Seq<(K, V)>) -> Map<Str, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0.txt(), s.last().1) }
}
/// The values of a string map as text.
pub open spec fn text_map(m: Map<Str, String>) -> SMap { m.map_values(|v: String| v@) }
/// `s` lists the entries of `m`, each once.
pub open spec fn lists<K: Text, V>(m: Map<Str, V>, s: Seq<(&K, &V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0.txt()) && m[s[i].0.txt()] == *s[i].1
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0.txt() != (#[trigger] s[j]).0.txt()
    &&& forall|k: Str| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.txt() == k
}
pub open spec fn in_order<K: Text, V>(m: Map<Str, V>, s: Seq<(&K, &V)>) -> bool {
    &&& s.len() == ascending(m.dom()).len()
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.txt() == ascending(m.dom())[i] && m.contains_key(s[i].0.txt()) && m[s[i].0.txt()] == *s[i].1
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> View for HashMap<K, V> { type V = Map<Str, V>; uninterp spec fn view(&self) -> Map<Str, V>; }
impl<K: Text, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Str, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Str, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: Text + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures self@.contains_key(k.txt()) ==> r == Some(&self@[k.txt()]), !self@.contains_key(k.txt()) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: Text + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.txt()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.txt(), v) { unimplemented!() }
    /// `entry(k).or_insert(v)`
    #[verifier::external_body]
    pub fn entry_or_insert(&mut self, k: K, v: V)
        ensures final(self)@ == (if old(self)@.contains_key(k.txt()) { old(self)@ } else { old(self)@.insert(k.txt(), v) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: Text + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.txt()),
            old(self)@.contains_key(k.txt()) ==> r == Some(old(self)@[k.txt()]), !old(self)@.contains_key(k.txt()) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_v(&self) -> (r: Iter<(&K, &V)>) ensures lists(self@, r@) { unimplemented!() }
}

impl<K: Text, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn from<const N: usize>(a: [(K, V); N]) -> (r: Self) ensures r@ == map_of(a@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter(a: Iter<(K, V)>) -> (r: Self) ensures r@ == map_of(a@) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, m: HashMap<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(m@) { unimplemented!() }
}
impl<K: Text + Clone, V: Clone> Clone for HashMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
/// `s` lists the entries of `m` by value, each once.
pub open spec fn owned_lists<K: Text, V>(m: Map<Str, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0.txt()) && m[s[i].0.txt()] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0.txt() != (#[trigger] s[j]).0.txt()
    &&& forall|k: Str| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.txt() == k
}
impl<K: Text, V> IntoIt for HashMap<K, V> { type Item = (K, V);
    open spec fn enumerates(self, s: Seq<(K, V)>) -> bool { owned_lists(self@, s) }
    #[verifier::external_body] fn into_iter_v(self) -> (r: Iter<(K, V)>) { unimplemented!() } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<Str, V>; uninterp spec fn view(&self) -> Map<Str, V>; }
impl<K: Text, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Str, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: Text + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures self@.contains_key(k.txt()) ==> r == Some(&self@[k.txt()]), !self@.contains_key(k.txt()) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: Text + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.txt()) { unimplemented!() }
}
impl<K: Text, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Str, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.txt(), v) { unimplemented!() }
    /// `entry(k).or_insert(v)`
    #[verifier::external_body]
    pub fn entry_or_insert(&mut self, k: K, v: V)
        ensures final(self)@ == (if old(self)@.contains_key(k.txt()) { old(self)@ } else { old(self)@.insert(k.txt(), v) }) { unimplemented!() }
}
impl<K: Text, V> FromIt<(K, V)> for BTreeMap<K, V> { open spec fn from_it(s: Seq<(K, V)>, r: Self) -> bool { r@ == map_of(s) } }
/// By value, in order.
pub open spec fn owned_in_order<K: Text, V>(m: Map<Str, V>, s: Seq<(K, V)>) -> bool {
    &&& s.len() == ascending(m.dom()).len()
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.txt() == ascending(m.dom())[i] && m.contains_key(s[i].0.txt()) && m[s[i].0.txt()] == s[i].1
}
impl<K: Text, V> IntoIt for BTreeMap<K, V> { type Item = (K, V);
    open spec fn enumerates(self, s: Seq<(K, V)>) -> bool { owned_in_order(self@, s) }
    #[verifier::external_body] fn into_iter_v(self) -> (r: Iter<(K, V)>) { unimplemented!() } }
impl<'a, K: Text, V> IntoIt for &'a BTreeMap<K, V> { type Item = (&'a K, &'a V);
    open spec fn enumerates(self, s: Seq<(&'a K, &'a V)>) -> bool { in_order(self@, s) }
    #[verifier::external_body] fn into_iter_v(self) -> (r: Iter<(&'a K, &'a V)>) { unimplemented!() } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: Vec<K> }
impl<K> View for HashSet<K> { type V = Set<Str>; uninterp spec fn view(&self) -> Set<Str>; }
pub open spec fn set_of<K: Text>(s: Seq<K>) -> Set<Str> decreases s.len() {
    if s.len() == 0 { Set::empty() } else { set_of(s.drop_last()).insert(s.last().txt()) }
}
impl<K: Text> HashSet<K> {
    #[verifier::external_body]
    pub fn contains<Q: Text + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.txt()) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<const N: usize>(&mut self, k: [K; N]) ensures final(self)@ == old(self)@.union(set_of(k@)) { unimplemented!() }
}
pub trait IntoV<R> { spec fn into_ok(self, r: R) -> bool; fn into_v(self) -> (r: R) ensures self.into_ok(r); }
impl<K: Text, const N: usize> IntoV<HashSet<K>> for [K; N] { open spec fn into_ok(self, r: HashSet<K>) -> bool { r@ == set_of(self@) }
    #[verifier::external_body] fn into_v(self) -> (r: HashSet<K>) { unimplemented!() } }

impl<K: Text, V> Default for HashMap<K, V> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Map::<Str, V>::empty() { unimplemented!() }
}
