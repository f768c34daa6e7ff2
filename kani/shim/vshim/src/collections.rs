//! Association-list stand-ins for the map types with the contract of the real
//! ones (`BTreeMap` iterates in ascending key order, `HashMap` in insertion
//! order, which is one of the orders the real one may use). They hold at most
//! `CAP` keys; a harness that needs more fails rather than passes. For
//! iteration over maps of arbitrary size a map can instead be `symbolic`: it
//! then denotes opaque memory of any length and only supports operations that
//! need no element (iteration by address, length).
pub use ::std::collections::*;
use ::std::borrow::Borrow;
use ::std::marker::PhantomData;
use ::std::mem::MaybeUninit;

pub const CAP: usize = 3;

/// Operations on a whole map (as opposed to one key of it, or iteration): with
/// these at zero the entries a harness does not track are untouched, so its
/// result holds for maps with any number of further entries.
pub static mut WHOLE_MAP_OPS: u32 = 0;

fn whole() {
    unsafe { WHOLE_MAP_OPS = WHOLE_MAP_OPS.wrapping_add(1) }
}

/// Elements of symbolic maps: the address of the element at a position.
pub static mut ELEMENT: Option<fn(usize) -> *const u8> = None;
/// Lookups in symbolic maps: the position found, and a log of the lookup
/// (address and size of the key asked for).
pub static mut FOUND: Option<usize> = None;
pub static mut ASKED: Option<(*const u8, usize)> = None;
pub static mut LOOKUPS: u32 = 0;

/// A lookup in a symbolic map.
pub fn symbolic_lookup<Q: ?Sized>(k: &Q) -> Option<usize> {
    unsafe {
        ASKED = Some((k as *const Q as *const u8, ::std::mem::size_of_val(k)));
        LOOKUPS = LOOKUPS.wrapping_add(1);
        FOUND
    }
}

/// The element of a symbolic map.
pub fn symbolic_element<'a, T>(i: usize) -> &'a T {
    unsafe {
        match ELEMENT {
            Some(f) => &*(f(i) as *const T),
            None => panic!("[shim] no elements"),
        }
    }
}

/// If set, every BTreeMap iterates over this memory: (pointer, length).
pub static mut BTREE_OVERRIDE: Option<(*const u8, usize)> = None;

pub struct Raw<K, V> {
    len: usize,
    slots: [MaybeUninit<(K, V)>; CAP],
    ext: Option<(*const (K, V), usize)>,
}

unsafe impl<K: Send, V: Send> Send for Raw<K, V> {}
unsafe impl<K: Sync, V: Sync> Sync for Raw<K, V> {}

impl<K, V> Raw<K, V> {
    pub const fn new() -> Self {
        Self {
            len: 0,
            slots: [const { MaybeUninit::uninit() }; CAP],
            ext: None,
        }
    }
    fn at(&self, i: usize) -> &(K, V) {
        unsafe { self.slots[i].assume_init_ref() }
    }
    fn at_mut(&mut self, i: usize) -> &mut (K, V) {
        unsafe { self.slots[i].assume_init_mut() }
    }
    fn is_lazy(&self) -> bool {
        matches!(self.ext, Some((p, _)) if p.is_null())
    }
    fn concrete(&self) {
        assert!(self.ext.is_none(), "[shim] symbolic map used concretely");
    }
    fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        self.concrete();
        let mut i = 0;
        while i < CAP {
            if i < self.len && self.at(i).0.borrow() == k {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    fn insert_at(&mut self, pos: usize, k: K, v: V) {
        assert!(self.len < CAP, "[shim] map stand-in too small");
        let mut i = CAP - 1;
        while i > 0 {
            if i <= self.len && i > pos {
                let x = ::std::mem::replace(&mut self.slots[i - 1], MaybeUninit::uninit());
                self.slots[i] = x;
            }
            i -= 1;
        }
        self.slots[pos] = MaybeUninit::new((k, v));
        self.len += 1;
    }
    fn remove_at(&mut self, pos: usize) -> (K, V) {
        let out = ::std::mem::replace(&mut self.slots[pos], MaybeUninit::uninit());
        let mut i = 0;
        while i + 1 < CAP {
            if i >= pos && i + 1 < self.len {
                let x = ::std::mem::replace(&mut self.slots[i + 1], MaybeUninit::uninit());
                self.slots[i] = x;
            }
            i += 1;
        }
        self.len -= 1;
        unsafe { out.assume_init() }
    }
    fn range(&self) -> (*const (K, V), usize) {
        match self.ext {
            Some((p, n)) => (p, n),
            None => (self.slots.as_ptr() as *const (K, V), self.len),
        }
    }
    fn size(&self) -> usize {
        self.range().1
    }
}

// Contents of a dropped map are leaked: their destructors are not part of any
// contract here and would cost the verifier a dispatch over all types.

/// An iterator over the elements at positions lo..hi.
pub struct RawIter<'a, K, V> {
    ptr: *const (K, V),
    lo: usize,
    hi: usize,
    life: PhantomData<&'a (K, V)>,
}

unsafe impl<'a, K: Sync, V: Sync> Send for RawIter<'a, K, V> {}
unsafe impl<'a, K: Sync, V: Sync> Sync for RawIter<'a, K, V> {}

impl<'a, K, V> Clone for RawIter<'a, K, V> {
    fn clone(&self) -> Self {
        Self { ..*self }
    }
}

impl<'a, K, V> RawIter<'a, K, V> {
    pub fn new(r: (*const (K, V), usize)) -> Self {
        Self {
            ptr: r.0,
            lo: 0,
            hi: r.1,
            life: PhantomData,
        }
    }
    fn get(&self, i: usize) -> &'a (K, V) {
        if self.ptr.is_null() {
            return symbolic_element(i);
        }
        unsafe { &*self.ptr.add(i) }
    }
    pub fn front(&mut self, n: usize) -> Option<&'a (K, V)> {
        if n < self.hi - self.lo {
            let r = self.get(self.lo + n);
            self.lo += n + 1;
            Some(r)
        } else {
            self.lo = self.hi;
            None
        }
    }
    pub fn back(&mut self, n: usize) -> Option<&'a (K, V)> {
        if n < self.hi - self.lo {
            self.hi -= n + 1;
            Some(self.get(self.hi))
        } else {
            self.hi = self.lo;
            None
        }
    }
    pub fn len(&self) -> usize {
        self.hi - self.lo
    }
    pub fn ghost(&self) -> (*const (K, V), usize, usize) {
        (self.ptr, self.lo, self.hi)
    }
}

macro_rules! view_iter {
    ($name:ident, $item:ty, |$e:ident| $proj:expr) => {
        pub struct $name<'a, K, V>(pub RawIter<'a, K, V>);
        impl<'a, K, V> Clone for $name<'a, K, V> {
            fn clone(&self) -> Self {
                Self(self.0.clone())
            }
        }
        impl<'a, K, V> ::std::fmt::Debug for $name<'a, K, V> {
            fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                Ok(())
            }
        }
        impl<'a, K, V> Iterator for $name<'a, K, V> {
            type Item = $item;
            fn next(&mut self) -> Option<$item> {
                self.0.front(0).map(|$e| $proj)
            }
            fn nth(&mut self, n: usize) -> Option<$item> {
                self.0.front(n).map(|$e| $proj)
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.0.len(), Some(self.0.len()))
            }
            fn count(self) -> usize {
                self.0.len()
            }
            fn last(mut self) -> Option<$item> {
                self.0.back(0).map(|$e| $proj)
            }
        }
        impl<'a, K, V> DoubleEndedIterator for $name<'a, K, V> {
            fn next_back(&mut self) -> Option<$item> {
                self.0.back(0).map(|$e| $proj)
            }
            fn nth_back(&mut self, n: usize) -> Option<$item> {
                self.0.back(n).map(|$e| $proj)
            }
        }
        impl<'a, K, V> ExactSizeIterator for $name<'a, K, V> {}
        impl<'a, K, V> ::std::iter::FusedIterator for $name<'a, K, V> {}
    };
}
view_iter!(Iter, (&'a K, &'a V), |e| (&e.0, &e.1));
view_iter!(Values, &'a V, |e| &e.1);
view_iter!(Keys, &'a K, |e| &e.0);

pub struct IntoIter<K, V>(Raw<K, V>);
impl<K, V> Iterator for IntoIter<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        self.0.concrete();
        if self.0.len == 0 {
            None
        } else {
            Some(self.0.remove_at(0))
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0.len, Some(self.0.len))
    }
}
impl<K, V> ExactSizeIterator for IntoIter<K, V> {}

pub struct OccupiedEntry<'a, K, V> {
    raw: &'a mut Raw<K, V>,
    pos: usize,
    key: K,
}
pub struct VacantEntry<'a, K, V> {
    raw: &'a mut Raw<K, V>,
    pos: usize,
    key: K,
}
pub enum Entry<'a, K, V> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> &V {
        &self.raw.at(self.pos).1
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.raw.at_mut(self.pos).1
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.raw.at_mut(self.pos).1
    }
    pub fn insert(&mut self, v: V) -> V {
        ::std::mem::replace(self.get_mut(), v)
    }
    pub fn key(&self) -> &K {
        &self.key
    }
    pub fn remove(self) -> V {
        self.raw.remove_at(self.pos).1
    }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(self, v: V) -> &'a mut V {
        self.raw.insert_at(self.pos, self.key, v);
        &mut self.raw.at_mut(self.pos).1
    }
    pub fn key(&self) -> &K {
        &self.key
    }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => e.insert(v),
        }
    }
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => e.insert(f()),
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self {
        if let Entry::Occupied(e) = &mut self {
            f(e.get_mut())
        }
        self
    }
}

macro_rules! map {
    ($map:ident, [$($bound:tt)*], $module:ident, |$raw:ident, $key:ident| $place:expr, |$r2:ident| $range:expr) => {
        pub struct $map<K, V>(Raw<K, V>);

        pub mod $module {
            pub use super::{Entry, IntoIter, Iter, Keys, OccupiedEntry, VacantEntry, Values};
            pub use super::$map;
        }

        impl<K, V> Default for $map<K, V> {
            fn default() -> Self {
                Self::new()
            }
        }
        impl<K: Clone, V: Clone> Clone for $map<K, V> {
            fn clone(&self) -> Self {
                let mut out = Self::new();
                out.0.ext = self.0.ext;
                let mut i = 0;
                while i < CAP {
                    if i < self.0.len {
                        let (k, v) = self.0.at(i);
                        out.0.insert_at(i, k.clone(), v.clone());
                    }
                    i += 1;
                }
                out
            }
        }
        impl<K, V> ::std::fmt::Debug for $map<K, V> {
            fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                Ok(())
            }
        }
        impl<K, V> $map<K, V> {
            pub const fn new() -> Self {
                Self(Raw::new())
            }
            pub fn with_capacity(_: usize) -> Self {
                Self::new()
            }
            /// A map of `n` elements in opaque memory (if `ptr` is null: given by
            /// the hooks `ELEMENT` and `FOUND`).
            pub fn symbolic(ptr: *const (K, V), n: usize) -> Self {
                let mut s = Self::new();
                s.0.ext = Some((ptr, n));
                s
            }
            pub fn ghost_range(&self) -> (*const (K, V), usize) {
                self.rng()
            }
            fn rng(&self) -> (*const (K, V), usize) {
                let $r2 = &self.0;
                $range
            }
            pub fn len(&self) -> usize {
                self.rng().1
            }
            pub fn is_empty(&self) -> bool {
                self.len() == 0
            }
            pub fn iter(&self) -> Iter<'_, K, V> {
                Iter(RawIter::new(self.rng()))
            }
            pub fn values(&self) -> Values<'_, K, V> {
                Values(RawIter::new(self.rng()))
            }
            pub fn keys(&self) -> Keys<'_, K, V> {
                Keys(RawIter::new(self.rng()))
            }
            pub fn clear(&mut self) {
                whole();
                self.0 = Raw::new();
            }
            pub fn reserve(&mut self, _: usize) {}
        }
        impl<K: $($bound)*, V> $map<K, V> {
            pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                match self.0.find(&k) {
                    Some(i) => Some(::std::mem::replace(&mut self.0.at_mut(i).1, v)),
                    None => {
                        let pos = {
                            let $raw = &self.0;
                            let $key = &k;
                            $place
                        };
                        self.0.insert_at(pos, k, v);
                        None
                    }
                }
            }
            pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V>
            where
                K: Borrow<Q>,
            {
                self.remove_entry(k).map(|e| e.1)
            }
            pub fn remove_entry<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<(K, V)>
            where
                K: Borrow<Q>,
            {
                self.0.find(k).map(|i| self.0.remove_at(i))
            }
            pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V>
            where
                K: Borrow<Q>,
            {
                if self.0.is_lazy() {
                    return symbolic_lookup(k).map(|i| &symbolic_element::<(K, V)>(i).1);
                }
                self.0.find(k).map(|i| &self.0.at(i).1)
            }
            pub fn get_key_value<Q: ?Sized + Eq>(&self, k: &Q) -> Option<(&K, &V)>
            where
                K: Borrow<Q>,
            {
                if self.0.is_lazy() {
                    return symbolic_lookup(k).map(|i| {
                        let e = symbolic_element::<(K, V)>(i);
                        (&e.0, &e.1)
                    });
                }
                self.0.find(k).map(|i| (&self.0.at(i).0, &self.0.at(i).1))
            }
            pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V>
            where
                K: Borrow<Q>,
            {
                self.0.find(k).map(|i| &mut self.0.at_mut(i).1)
            }
            pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool
            where
                K: Borrow<Q>,
            {
                if self.0.is_lazy() {
                    return symbolic_lookup(k).is_some();
                }
                self.0.find(k).is_some()
            }
            pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
                match self.0.find(&key) {
                    Some(pos) => Entry::Occupied(OccupiedEntry { raw: &mut self.0, pos, key }),
                    None => {
                        let pos = {
                            let $raw = &self.0;
                            let $key = &key;
                            $place
                        };
                        Entry::Vacant(VacantEntry { raw: &mut self.0, pos, key })
                    }
                }
            }
            pub fn retain(&mut self, mut f: impl FnMut(&K, &mut V) -> bool) {
                self.0.concrete();
                let mut i = CAP;
                while i > 0 {
                    i -= 1;
                    if i < self.0.len {
                        let e = self.0.at_mut(i);
                        if !f(&e.0, &mut e.1) {
                            self.0.remove_at(i);
                        }
                    }
                }
            }
        }
        impl<K: $($bound)*, V> Extend<(K, V)> for $map<K, V> {
            fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
                for (k, v) in it {
                    self.insert(k, v);
                }
            }
        }
        impl<K: $($bound)*, V> FromIterator<(K, V)> for $map<K, V> {
            fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
                let mut s = Self::new();
                s.extend(it);
                s
            }
        }
        impl<K: $($bound)*, V, const N: usize> From<[(K, V); N]> for $map<K, V> {
            fn from(a: [(K, V); N]) -> Self {
                a.into_iter().collect()
            }
        }
        impl<K, V> IntoIterator for $map<K, V> {
            type Item = (K, V);
            type IntoIter = IntoIter<K, V>;
            fn into_iter(self) -> IntoIter<K, V> {
                whole();
                IntoIter(self.0)
            }
        }
        impl<'a, K, V> IntoIterator for &'a $map<K, V> {
            type Item = (&'a K, &'a V);
            type IntoIter = Iter<'a, K, V>;
            fn into_iter(self) -> Iter<'a, K, V> {
                self.iter()
            }
        }
    };
}

map!(HashMap, [Eq], hash_map, |raw, key| { let _ = key; raw.len }, |raw| raw.range());
map!(BTreeMap, [Ord], btree_map, |raw, key| {
    let mut pos = 0;
    let mut i = 0;
    while i < CAP {
        if i < raw.len && raw.at(i).0 < *key {
            pos = i + 1;
        }
        i += 1;
    }
    pos
}, |raw| match unsafe { BTREE_OVERRIDE } {
    Some((p, n)) => (p as *const (K, V), n),
    None => raw.range(),
});
