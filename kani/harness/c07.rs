//! C07: the iterators over the metrics, for any number of static and dynamic
//! entries. Entries are opaque memory: only their addresses matter. An arbitrary
//! state of an iterator is reached by two arbitrary steps (of any size, from
//! either end) whose results are themselves checked.
#![allow(static_mut_refs)]
use metriken::{metrics, MetricEntry};
use vshim::collections::BTREE_OVERRIDE;

type Pair = (usize, MetricEntry);

/// The list an iterator walks: static entries then dynamic entries.
#[derive(Clone, Copy)]
pub struct List {
    s: *const MetricEntry,
    ns: usize,
    d: *const Pair,
    nd: usize,
}
impl List {
    fn len(&self) -> usize {
        self.ns + self.nd
    }
    fn at(&self, i: usize) -> *const MetricEntry {
        if i < self.ns {
            unsafe { self.s.add(i) }
        } else {
            unsafe { &raw const (*self.d.add(i - self.ns)).1 }
        }
    }
}

#[cfg(kani)]
mod proofs {
    use super::*;

    const MAX: usize = 1 << 20;

    fn list(ns: usize, nd: usize) -> List {
        kani::assume(ns <= MAX && nd <= MAX);
        let l = List { s: vshim::opaque_slice(ns), ns, d: vshim::opaque_slice(nd), nd };
        unsafe {
            vshim::DIST_SLICE = Some((l.s as *const u8, ns));
            BTREE_OVERRIDE = Some((l.d as *const u8, nd));
        }
        l
    }

    /// The abstract position: entries lo..hi are left.
    struct Pos {
        lo: usize,
        hi: usize,
    }

    fn eq(got: Option<&MetricEntry>, want: Option<*const MetricEntry>) -> bool {
        match (got, want) {
            (None, None) => true,
            (Some(g), Some(w)) => std::ptr::eq(g, w),
            _ => false,
        }
    }

    fn front(l: &List, p: &mut Pos, n: usize) -> Option<*const MetricEntry> {
        if n < p.hi - p.lo {
            p.lo += n + 1;
            Some(l.at(p.lo - 1))
        } else {
            p.lo = p.hi;
            None
        }
    }
    fn back(l: &List, p: &mut Pos, n: usize) -> Option<*const MetricEntry> {
        if n < p.hi - p.lo {
            p.hi -= n + 1;
            Some(l.at(p.hi))
        } else {
            p.hi = p.lo;
            None
        }
    }

    /// One arbitrary step, checked.
    fn step<'a>(it: &mut impl DoubleEndedIterator<Item = &'a MetricEntry>, l: &List, p: &mut Pos) {
        let n: usize = kani::any();
        match kani::any::<u8>() % 4 {
            0 => {
                let g = it.next();
                assert!(eq(g, front(l, p, 0)), "[C07] next yields another entry");
            }
            1 => {
                let g = it.next_back();
                assert!(eq(g, back(l, p, 0)), "[C07] next_back yields another entry");
            }
            2 => {
                let g = it.nth(n);
                assert!(eq(g, front(l, p, n)), "[C07] nth yields another entry");
            }
            _ => {
                let g = it.nth_back(n);
                assert!(eq(g, back(l, p, n)), "[C07] nth_back yields another entry");
            }
        }
    }

    fn hint<'a>(it: &impl Iterator<Item = &'a MetricEntry>, p: &Pos) {
        let left = p.hi - p.lo;
        let (lo, hi) = it.size_hint();
        assert!(lo <= left, "[C07] size hint too large");
        if let Some(hi) = hi {
            assert!(hi >= left, "[C07] size hint too small");
        }
    }

    /// Reach any position: skip from the front, skip from the back. Both
    /// results are checked, so this is also the contract of nth and nth_back.
    fn reach<'a>(it: &mut impl DoubleEndedIterator<Item = &'a MetricEntry>, l: &List, p: &mut Pos) {
        if kani::any() {
            let n: usize = kani::any();
            let g = it.nth(n);
            assert!(eq(g, front(l, p, n)), "[C07] nth yields another entry");
        }
        if kani::any() {
            let n: usize = kani::any();
            let g = it.nth_back(n);
            assert!(eq(g, back(l, p, n)), "[C07] nth_back yields another entry");
        }
    }

    macro_rules! then {
        ($name:ident, $list:expr, |$m:ident| $make:expr, |$it:ident, $l:ident, $p:ident| $op:expr) => {
            #[kani::proof]
            #[kani::unwind(4)]
            fn $name() {
                let $l = $list;
                let $m = metrics();
                let mut $p = Pos { lo: 0, hi: $l.len() };
                let mut $it = $make;
                reach(&mut $it, &$l, &mut $p);
                kani::cover!($p.lo > $l.ns + 1 && $p.hi > $p.lo + 1);
                kani::cover!($p.hi < $l.len() && $p.lo + 1 < $p.hi);
                kani::cover!($p.lo == $p.hi && $l.nd > 3);
                $op
            }
        };
    }
    then!(all_next, list(kani::any(), kani::any()), |m| m.iter(), |it, l, p| {
        let g = it.next();
        assert!(eq(g, front(&l, &mut p, 0)), "[C07] next yields another entry");
    });
    then!(all_next_back, list(kani::any(), kani::any()), |m| (&m).into_iter(), |it, l, p| {
        let g = it.next_back();
        assert!(eq(g, back(&l, &mut p, 0)), "[C07] next_back yields another entry");
    });
    then!(all_nth, list(kani::any(), kani::any()), |m| m.iter(), |it, l, p| {
        let n: usize = kani::any();
        let g = it.nth(n);
        assert!(eq(g, front(&l, &mut p, n)), "[C07] nth yields another entry");
    });
    then!(all_nth_back, list(kani::any(), kani::any()), |m| m.iter(), |it, l, p| {
        let n: usize = kani::any();
        let g = it.nth_back(n);
        assert!(eq(g, back(&l, &mut p, n)), "[C07] nth_back yields another entry");
    });
    then!(all_hint, list(kani::any(), kani::any()), |m| m.iter(), |it, l, p| {
        let _ = &l;
        hint(&it, &p);
    });

    #[kani::proof]
    #[kani::unwind(4)]
    fn all_exhausted() {
        let l = list(kani::any(), kani::any());
        let m = metrics();
        let mut p = Pos { lo: 0, hi: l.len() };
        let mut it = m.iter();
        step(&mut it, &l, &mut p);
        let n: usize = kani::any();
        kani::assume(n >= p.hi - p.lo);
        let g = if kani::any() { it.nth(n) } else { it.nth_back(n) };
        assert!(g.is_none(), "[C07] skipping past the end yields an entry");
        assert!(it.next().is_none() && it.next_back().is_none() && it.next().is_none(), "[C07] continues after its end");
        hint(&it, &Pos { lo: 0, hi: 0 });
        kani::cover!(l.ns > 0 && l.nd > 0);
    }

    #[kani::proof]
    #[kani::unwind(4)]
    fn all_count_last() {
        let l = list(kani::any(), kani::any());
        let m = metrics();
        let mut p = Pos { lo: 0, hi: l.len() };
        let mut it = m.iter();
        step(&mut it, &l, &mut p);
        assert!(it.count() == p.hi - p.lo, "[C07] wrong count");
        kani::cover!(p.lo > l.ns);
        kani::cover!(p.hi < l.ns);
    }

    then!(dynamic_next, list(0, kani::any()), |m| m.dynamic_metrics(), |it, l, p| {
        let g = it.next();
        assert!(eq(g, front(&l, &mut p, 0)), "[C07] next yields another entry");
    });
    then!(dynamic_next_back, list(0, kani::any()), |m| m.dynamic_metrics(), |it, l, p| {
        let g = it.next_back();
        assert!(eq(g, back(&l, &mut p, 0)), "[C07] next_back yields another entry");
    });
    then!(dynamic_nth, list(0, kani::any()), |m| m.dynamic_metrics(), |it, l, p| {
        let n: usize = kani::any();
        let g = it.nth(n);
        assert!(eq(g, front(&l, &mut p, n)), "[C07] nth yields another entry");
    });
    then!(dynamic_nth_back, list(0, kani::any()), |m| m.dynamic_metrics(), |it, l, p| {
        let n: usize = kani::any();
        let g = it.nth_back(n);
        assert!(eq(g, back(&l, &mut p, n)), "[C07] nth_back yields another entry");
    });
    then!(dynamic_hint, list(0, kani::any()), |m| m.dynamic_metrics(), |it, l, p| {
        let _ = &l;
        hint(&it, &p);
        let left = p.hi - p.lo;
        assert!(it.size_hint() == (left, Some(left)) && it.len() == left, "[C07] wrong length");
    });

    #[kani::proof]
    #[kani::unwind(4)]
    fn dynamic_count() {
        let l = list(0, kani::any());
        let m = metrics();
        let mut p = Pos { lo: 0, hi: l.len() };
        let mut it = m.dynamic_metrics();
        step(&mut it, &l, &mut p);
        assert!(it.count() == p.hi - p.lo, "[C07] wrong count");
        kani::cover!(p.hi - p.lo > 2);
    }

    #[kani::proof]
    #[kani::unwind(4)]
    fn parts() {
        let l = list(kani::any(), kani::any());
        let m = metrics();
        assert!(m.static_metrics().len() == l.ns && m.static_metrics().as_ptr() == l.s, "[C07] static metrics");
        assert!(m.dynamic_metrics().len() == l.nd, "[C07] dynamic metrics");
        kani::cover!(l.ns == 0 && l.nd == 0);
        kani::cover!(l.ns == MAX && l.nd == MAX);
    }

    // ---- consumers that loop: bounded list lengths ---------------------------

    const B: usize = 3;

    fn folds<'a>(it: impl DoubleEndedIterator<Item = &'a MetricEntry>, l: &List, p: &Pos) {
        // what is visited, in order
        let mut seen: usize = 0;
        let left = p.hi - p.lo;
        let back: bool = kani::any();
        let f = |acc: usize, e: &'a MetricEntry| {
            assert!(acc == seen && seen < left, "[C07] fold visits too much or loses the accumulator");
            let want = if back { l.at(p.hi - 1 - seen) } else { l.at(p.lo + seen) };
            assert!(std::ptr::eq(e, want), "[C07] fold visits another entry");
            seen += 1;
            acc + 1
        };
        let r = if back { it.rfold(0, f) } else { it.fold(0, f) };
        assert!(r == left, "[C07] fold does not visit every entry");
        kani::cover!(back && left > 2);
        kani::cover!(!back && left > 2);
    }

    #[kani::proof]
    #[kani::unwind(6)]
    fn bounded_all_folds() {
        let (ns, nd): (usize, usize) = (kani::any(), kani::any());
        kani::assume(ns <= 2 && nd <= 2);
        let l = list(ns, nd);
        let m = metrics();
        let mut p = Pos { lo: 0, hi: l.len() };
        let mut it = m.iter();
        if kani::any() {
            let _ = front(&l, &mut p, 0);
            let _ = it.next();
        }
        if kani::any() {
            let _ = back(&l, &mut p, 0);
            let _ = it.next_back();
        }
        folds(it, &l, &p);
    }

    #[kani::proof]
    #[kani::unwind(6)]
    fn bounded_dynamic_folds() {
        let nd: usize = kani::any();
        kani::assume(nd <= B);
        let l = list(0, nd);
        let m = metrics();
        let mut p = Pos { lo: 0, hi: l.len() };
        let mut it = m.dynamic_metrics();
        if kani::any() {
            let _ = front(&l, &mut p, 0);
            let _ = it.next();
        }
        folds(it, &l, &p);
    }

    #[kani::proof]
    #[kani::unwind(6)]
    fn bounded_last() {
        let (ns, nd): (usize, usize) = (kani::any(), kani::any());
        kani::assume(ns <= 2 && nd <= 2);
        let l = list(ns, nd);
        let m = metrics();
        let mut p = Pos { lo: 0, hi: l.len() };
        let mut it = m.iter();
        step(&mut it, &l, &mut p);
        let want = if p.lo < p.hi { Some(l.at(p.hi - 1)) } else { None };
        assert!(eq(it.last(), want), "[C07] last is another entry");
        kani::cover!(want.is_some() && p.hi < l.len());
    }
}
