//! C10: metadata as a map. The static and the dynamic map are contract
//! stand-ins: symbolic ones of any length whose element at position i is
//! recognisable by its addresses (iteration, lengths, lookups), and exact small
//! ones with real strings (keys and values end to end).
#![allow(static_mut_refs)]
use metriken_core::{export, Metadata, MetadataIter};
use vshim::collections::{self, HashMap};

const KEYS: usize = 1 << 41;
const VALS: usize = 1 << 42;
pub const MAX: usize = 1 << 40;

pub unsafe fn text(addr: usize) -> &'static str {
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(addr as *const u8, 0))
}

pub fn static_pair(i: usize) -> *const u8 {
    let p: (&'static str, &'static str) = unsafe { (text(KEYS + i), text(VALS + i)) };
    Box::leak(Box::new(p)) as *const _ as *const u8
}

pub fn dynamic_pair(i: usize) -> *const u8 {
    let p: (String, String) = unsafe {
        (
            String::from_raw_parts((KEYS + i) as *mut u8, 0, 0),
            String::from_raw_parts((VALS + i) as *mut u8, 0, 0),
        )
    };
    Box::leak(Box::new(p)) as *const _ as *const u8
}

pub fn is_pair(item: Option<(&str, &str)>, i: usize) -> bool {
    match item {
        Some((k, v)) => {
            k.as_ptr() as usize == KEYS + i && v.as_ptr() as usize == VALS + i && k.len() == 0 && v.len() == 0
        }
        None => false,
    }
}

#[cfg(kani)]
mod proofs {
    use super::*;

    #[derive(Clone, Copy)]
    enum Kind {
        Static,
        New,
        From,
    }

    fn symbolic(kind: Kind, n: usize) -> Metadata {
        unsafe {
            match kind {
                Kind::Static => {
                    collections::ELEMENT = Some(static_pair);
                    export::metadata(Box::leak(Box::new(phf::Map::symbolic(n))))
                }
                Kind::New => {
                    collections::ELEMENT = Some(dynamic_pair);
                    Metadata::new(HashMap::symbolic(std::ptr::null(), n))
                }
                Kind::From => {
                    collections::ELEMENT = Some(dynamic_pair);
                    Metadata::from(HashMap::symbolic(std::ptr::null(), n))
                }
            }
        }
    }

    fn size() -> usize {
        let n: usize = kani::any();
        kani::assume(n <= MAX);
        n
    }

    /// An iterator that has yielded the first `p` of `n` entries.
    fn at<'a>(m: &'a Metadata, p: usize) -> MetadataIter<'a> {
        let mut it = if kani::any() { m.iter() } else { m.into_iter() };
        if p > 0 {
            assert!(is_pair(it.nth(p - 1), p - 1), "[C10] skipping ahead yields another entry");
        }
        it
    }

    /// Everything that can be asked of an iterator at position `p`, without
    /// consuming it.
    fn lengths(it: &MetadataIter<'_>, left: usize) {
        let (lo, hi) = it.size_hint();
        assert!(lo == left && hi == Some(left), "[C10] wrong size hint");
        assert!(it.len() == left, "[C10] wrong length");
    }

    macro_rules! for_kind {
        ($name:ident, $kind:expr) => {
            mod $name {
                use super::*;

                #[kani::proof]
                #[kani::unwind(3)]
                fn lookups() {
                    let n = size();
                    let m = symbolic($kind, n);
                    let found: Option<usize> = kani::any();
                    if let Some(i) = found {
                        kani::assume(i < n);
                    }
                    unsafe { collections::FOUND = found };
                    let key = "key";
                    match found {
                        Some(i) => match m.get(key) {
                            Some(v) => assert!(v.as_ptr() as usize == VALS + i && v.len() == 0, "[C10] lookup gives another value"),
                            None => assert!(false, "[C10] contained key not found"),
                        },
                        None => assert!(m.get(key).is_none(), "[C10] lookup of a missing key gives a value"),
                    }
                    assert!(m.contains_key(key) == found.is_some(), "[C10] contains_key disagrees");
                    assert!(m.len() == n, "[C10] wrong number of entries");
                    assert!(m.is_empty() == (n == 0), "[C10] wrong emptiness");
                    kani::cover!(found.is_some());
                    kani::cover!(n == 0);
                }

                #[kani::proof]
                #[kani::unwind(3)]
                fn next() {
                    let n = size();
                    let m = symbolic($kind, n);
                    let p: usize = kani::any();
                    kani::assume(p <= n);
                    let mut it = at(&m, p);
                    lengths(&it, n - p);
                    let got = it.next();
                    if p < n {
                        assert!(is_pair(got, p), "[C10] stepping yields another entry");
                        lengths(&it, n - p - 1);
                    } else {
                        assert!(got.is_none(), "[C10] an entry after the end");
                        lengths(&it, 0);
                        assert!(it.next().is_none(), "[C10] an entry after the end");
                        assert!(it.nth(kani::any()).is_none(), "[C10] an entry after the end");
                    }
                    kani::cover!(p < n && p > 0);
                    kani::cover!(p == n);
                }

                #[kani::proof]
                #[kani::unwind(3)]
                fn nth() {
                    let n = size();
                    let m = symbolic($kind, n);
                    let p: usize = kani::any();
                    kani::assume(p <= n);
                    let k: usize = kani::any();
                    let mut it = at(&m, p);
                    let got = it.nth(k);
                    if k < n - p {
                        assert!(is_pair(got, p + k), "[C10] skipping ahead yields another entry");
                        lengths(&it, n - p - k - 1);
                        let next = it.next();
                        if p + k + 1 < n {
                            assert!(is_pair(next, p + k + 1), "[C10] wrong entry after skipping ahead");
                        } else {
                            assert!(next.is_none(), "[C10] an entry after the end");
                        }
                    } else {
                        assert!(got.is_none(), "[C10] an entry after the end");
                        lengths(&it, 0);
                        assert!(it.next().is_none(), "[C10] an entry after the end");
                    }
                    kani::cover!(p > 0 && k > 0 && k < n - p);
                    kani::cover!(k >= n - p);
                }

                #[kani::proof]
                #[kani::unwind(3)]
                fn count_and_clone() {
                    let n = size();
                    let m = symbolic($kind, n);
                    let p: usize = kani::any();
                    kani::assume(p <= n);
                    let mut it = at(&m, p);
                    let mut other = it.clone();
                    lengths(&other, n - p);
                    let k: usize = kani::any();
                    let _ = it.nth(k);
                    lengths(&other, n - p);
                    if p < n {
                        assert!(is_pair(other.next(), p), "[C10] clone yields another entry");
                        assert!(other.count() == n - p - 1, "[C10] wrong count");
                    } else {
                        assert!(other.next().is_none(), "[C10] an entry after the end");
                        assert!(other.count() == 0, "[C10] wrong count");
                    }
                    let left = if k < n - p { n - p - k - 1 } else { 0 };
                    assert!(it.count() == left, "[C10] wrong count");
                    kani::cover!(left > 0);
                }

                /// The default ways of consuming an iterator, from any
                /// position of a map of at most 3 entries.
                #[kani::proof]
                #[kani::unwind(5)]
                fn bounded_fold() {
                    let n: usize = kani::any();
                    kani::assume(n <= 3);
                    let m = symbolic($kind, n);
                    let p: usize = kani::any();
                    kani::assume(p <= n);
                    let it = at(&m, p);
                    let end = it.fold(p, |i, e| {
                        assert!(is_pair(Some(e), i), "[C10] folding yields another entry");
                        i + 1
                    });
                    assert!(end == n, "[C10] folding misses entries");
                    let it = at(&m, p);
                    let last = it.last();
                    if p < n {
                        assert!(is_pair(last, n - 1), "[C10] wrong last entry");
                    } else {
                        assert!(last.is_none(), "[C10] an entry after the end");
                    }
                    kani::cover!(p == 1 && n == 3);
                }
            }
        };
    }
    for_kind!(of_static, Kind::Static);
    for_kind!(of_new, Kind::New);
    for_kind!(of_from, Kind::From);

    #[kani::proof]
    #[kani::unwind(5)]
    fn defaults() {
        let m = Metadata::default();
        assert!(m.is_empty() && m.len() == 0, "[C10] default metadata is not empty");
        assert!(m.iter().next().is_none(), "[C10] default metadata is not empty");
        assert!(m.get("a").is_none() && !m.contains_key("a") && m.get("").is_none(), "[C10] default metadata is not empty");
    }

    const TEXTS: [&str; 3] = ["", "a", "b"];

    fn pick() -> usize {
        let i: usize = kani::any();
        kani::assume(i < 3);
        i
    }

    /// A string in static memory that is never freed.
    fn owned(s: &'static str) -> String {
        unsafe { String::from_raw_parts(s.as_ptr() as *mut u8, s.len(), 0) }
    }

    /// Real strings end to end: two entries, any key looked up. The keys not
    /// tracked are untouched (no operation on the whole map occurs).
    fn small(m: &Metadata, k: [usize; 2], v: [usize; 2]) {
        let q = pick();
        let want = if k[0] == q {
            Some(TEXTS[v[0]])
        } else if k[1] == q {
            Some(TEXTS[v[1]])
        } else {
            None
        };
        assert!(m.get(TEXTS[q]) == want, "[C10] lookup disagrees with the map");
        assert!(m.contains_key(TEXTS[q]) == want.is_some(), "[C10] contains_key disagrees with the map");
        assert!(m.len() == 2 && !m.is_empty(), "[C10] wrong number of entries");
        let mut it = m.iter();
        let mut i = 0;
        while i < 2 {
            match it.next() {
                Some((a, b)) => assert!(a == TEXTS[k[i]] && b == TEXTS[v[i]], "[C10] iteration yields another entry"),
                None => assert!(false, "[C10] iteration misses an entry"),
            }
            i += 1;
        }
        assert!(it.next().is_none(), "[C10] iteration yields an entry too many");
        kani::cover!(want.is_some());
        kani::cover!(want.is_none());
    }

    #[kani::proof]
    #[kani::unwind(5)]
    fn strings_dynamic() {
        let k = [pick(), pick()];
        let v = [pick(), pick()];
        kani::assume(k[0] != k[1]);
        let mut map = HashMap::new();
        map.insert(owned(TEXTS[k[0]]), owned(TEXTS[v[0]]));
        map.insert(owned(TEXTS[k[1]]), owned(TEXTS[v[1]]));
        unsafe { collections::WHOLE_MAP_OPS = 0 };
        let m = if kani::any() { Metadata::new(map) } else { Metadata::from(map) };
        small(&m, k, v);
        std::mem::forget(m);
    }

    #[kani::proof]
    #[kani::unwind(5)]
    fn strings_static() {
        let k = [pick(), pick()];
        let v = [pick(), pick()];
        kani::assume(k[0] != k[1]);
        let entries: &'static [(&'static str, &'static str)] =
            Box::leak(Box::new([(TEXTS[k[0]], TEXTS[v[0]]), (TEXTS[k[1]], TEXTS[v[1]])]));
        let m = export::metadata(Box::leak(Box::new(phf::Map::from_entries(entries))));
        small(&m, k, v);
    }
}
