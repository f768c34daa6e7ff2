//! Contract stand-in for `phf::Map`: a fixed list of key-value pairs with
//! distinct keys. Lookup is by key equality; iteration visits every pair once.
use std::borrow::Borrow;

use vshim::collections::{symbolic_element, symbolic_lookup, RawIter};

pub struct Map<K: 'static, V: 'static> {
    entries: &'static [(K, V)],
    /// A map of this many elements given by the hooks of vshim::collections.
    symbolic: Option<usize>,
}

unsafe impl<K: Sync, V: Sync> Sync for Map<K, V> {}

impl<K, V> std::fmt::Debug for Map<K, V> {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}

impl<K, V> Map<K, V> {
    pub const fn new() -> Self {
        Self { entries: &[], symbolic: None }
    }
    pub const fn from_entries(entries: &'static [(K, V)]) -> Self {
        Self { entries, symbolic: None }
    }
    pub const fn symbolic(n: usize) -> Self {
        Self { entries: &[], symbolic: Some(n) }
    }
    pub const fn len(&self) -> usize {
        match self.symbolic {
            Some(n) => n,
            None => self.entries.len(),
        }
    }
    pub const fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&(K, V)>
    where
        K: Borrow<Q>,
    {
        if self.symbolic.is_some() {
            return symbolic_lookup(k).map(symbolic_element);
        }
        let mut i = 0;
        while i < self.entries.len() {
            if self.entries[i].0.borrow() == k {
                return Some(&self.entries[i]);
            }
            i += 1;
        }
        None
    }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|e| &e.1)
    }
    pub fn get_entry<Q: ?Sized + Eq>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|e| (&e.0, &e.1))
    }
    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.find(k).is_some()
    }
    pub fn entries(&self) -> map::Entries<'_, K, V> {
        match self.symbolic {
            Some(n) => map::Entries(RawIter::new((std::ptr::null(), n))),
            None => map::Entries(RawIter::new((self.entries.as_ptr(), self.entries.len()))),
        }
    }
}

pub mod map {
    pub use super::Map;

    pub struct Entries<'a, K, V>(pub(crate) super::RawIter<'a, K, V>);

    impl<'a, K, V> Clone for Entries<'a, K, V> {
        fn clone(&self) -> Self {
            Self(self.0.clone())
        }
    }
    impl<'a, K, V> std::fmt::Debug for Entries<'a, K, V> {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            Ok(())
        }
    }
    impl<'a, K, V> Iterator for Entries<'a, K, V> {
        type Item = (&'a K, &'a V);
        fn next(&mut self) -> Option<Self::Item> {
            self.0.front(0).map(|e| (&e.0, &e.1))
        }
        fn nth(&mut self, n: usize) -> Option<Self::Item> {
            self.0.front(n).map(|e| (&e.0, &e.1))
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.0.len(), Some(self.0.len()))
        }
        fn count(self) -> usize {
            self.0.len()
        }
    }
    impl<'a, K, V> DoubleEndedIterator for Entries<'a, K, V> {
        fn next_back(&mut self) -> Option<Self::Item> {
            self.0.back(0).map(|e| (&e.0, &e.1))
        }
    }
    impl<'a, K, V> ExactSizeIterator for Entries<'a, K, V> {}
    impl<'a, K, V> std::iter::FusedIterator for Entries<'a, K, V> {}
}

#[macro_export]
macro_rules! phf_map {
    ($($k:expr => $v:expr),* $(,)?) => {
        $crate::Map::from_entries(&[ $( ($k, $v) ),* ])
    };
}
