//! C07: the metric iterators against a plain list.
use crate::ctx::{set_case, Ctx};
use crate::{check, same};
use metriken::{metrics, Counter, DynBoxedMetric, Gauge, MetricBuilder, MetricEntry};

// Static metrics: registered in this binary together with those of C09.
#[metriken::metric(name = "it.a")]
static A: Counter = Counter::new();
#[metriken::metric(name = "it.b")]
static B: Gauge = Gauge::new();

type E = *const MetricEntry;

fn p(e: &MetricEntry) -> E {
    e
}

/// Drive `make()` and the model list with the same random calls.
fn drive<'a, I, F>(c: &mut Ctx, make: F, list: &[E], what: &str, exact: bool)
where
    I: DoubleEndedIterator<Item = &'a MetricEntry>,
    F: Fn() -> I,
{
    let n = list.len();
    // whole-iterator consumers
    set_case(format!("{what}: whole iteration over {n} entries"));
    same!(make().map(p).collect::<Vec<_>>(), list.to_vec(), "{what} forward");
    let mut rev = list.to_vec();
    rev.reverse();
    same!(make().rev().map(p).collect::<Vec<_>>(), rev, "{what} backward");
    // every position reached by `front` and `back` single steps, then every consumer
    let fronts: Vec<usize> = (0..=n + 1).filter(|i| *i < 5 || n - (*i).min(n) < 5 || i % 7 == 0).collect();
    for &f in &fronts {
        for &b in &fronts {
            if f + b > n + 2 {
                continue;
            }
            let at = || {
                let mut it = make();
                for i in 0..f {
                    same!(it.next().map(p), list.get(i).copied().filter(|_| i < n), "{what} step {i}");
                }
                for j in 0..b {
                    let want = if f + j < n { Some(list[n - 1 - j]) } else { None };
                    same!(it.next_back().map(p), want, "{what} back step {j} after {f}");
                }
                it
            };
            let lo = f.min(n);
            let hi = n.saturating_sub(b).max(lo);
            let rest = &list[lo..hi];
            set_case(format!("{what}: {n} entries, {f} steps forward, {b} steps backward, then one consumer"));
            let (l, h) = at().size_hint();
            check!(l <= rest.len() && h.is_none_or(|h| h >= rest.len()), "{what} size_hint ({l}, {h:?}) with {} left", rest.len());
            check!(!exact || (l == rest.len() && h == Some(rest.len())), "{what} size_hint ({l}, {h:?}) is not exact with {} left", rest.len());
            same!(at().count(), rest.len(), "{what} count");
            same!(at().last().map(p), rest.last().copied(), "{what} last");
            same!(at().map(p).collect::<Vec<_>>(), rest.to_vec(), "{what} rest");
            same!(at().fold(Vec::new(), |mut v, e| { v.push(p(e)); v }), rest.to_vec(), "{what} fold");
            let mut back = rest.to_vec();
            back.reverse();
            same!(at().rfold(Vec::new(), |mut v, e| { v.push(p(e)); v }), back, "{what} rfold");
            same!(at().rev().map(p).collect::<Vec<_>>(), back, "{what} rev");
            let mut v = Vec::new();
            at().for_each(|e| v.push(p(e)));
            same!(v, rest.to_vec(), "{what} for_each");
            for k in (0..=rest.len() + 2).filter(|k| *k < 4 || rest.len() < 6 + *k || k % 5 == 0).chain([usize::MAX, usize::MAX - 1]) {
                let mut it = at();
                same!(it.nth(k).map(p), rest.get(k).copied(), "{what} nth({k})");
                let left = if k < rest.len() { &rest[k + 1..] } else { &[] };
                same!(it.map(p).collect::<Vec<_>>(), left.to_vec(), "{what} rest after nth({k})");
                let mut it = at();
                let want = if k < rest.len() { Some(rest[rest.len() - 1 - k]) } else { None };
                same!(it.nth_back(k).map(p), want, "{what} nth_back({k})");
                let left = if k < rest.len() { &rest[..rest.len() - 1 - k] } else { &[] };
                same!(it.map(p).collect::<Vec<_>>(), left.to_vec(), "{what} rest after nth_back({k})");
                let mut it = at();
                let _ = it.nth(k);
                let after = if k < rest.len() { rest.len() - k - 1 } else { 0 };
                let (l, h) = it.size_hint();
                check!(l <= after && h.is_none_or(|h| h >= after) && (!exact || l == after && h == Some(after)), "{what} size_hint after nth({k})");
                same!(at().skip(k).next().map(p), rest.get(k).copied(), "{what} skip({k})");
            }
            let mut it = at();
            for _ in 0..rest.len() {
                it.next();
            }
            for _ in 0..3 {
                check!(it.next().is_none() && it.next_back().is_none(), "{what} continues after its end");
            }
            c.eval((what.len(), n, f, b), || format!("{what}: {n} entries, {f} forward, {b} backward"));
        }
    }
    // random call sequences
    for _ in 0..c.scale(60, 600) {
        let mut it = make();
        let (mut lo, mut hi) = (0usize, n);
        let mut calls = String::new();
        for _ in 0..1 + c.below(8) {
            let k = match c.below(6) {
                0 => 0,
                1 => hi - lo,
                2 => (hi - lo).saturating_sub(1),
                3 => usize::MAX,
                _ => c.below(hi - lo + 2),
            };
            let op = c.below(5);
            calls.push_str(["; next", "; next_back", "; nth", "; nth_back", "; size_hint"][op]);
            if op == 2 || op == 3 {
                calls.push_str(&format!("({k})"));
            }
            set_case(format!("{what} over {n} entries{calls}"));
            let (got, want) = match op {
                0 => (it.next(), (lo < hi).then(|| { lo += 1; list[lo - 1] })),
                1 => (it.next_back(), (lo < hi).then(|| { hi -= 1; list[hi] })),
                2 => {
                    let w = if k < hi - lo { lo += k + 1; Some(list[lo - 1]) } else { lo = hi; None };
                    (it.nth(k), w)
                }
                3 => {
                    let w = if k < hi - lo { hi -= k + 1; Some(list[hi]) } else { hi = lo; None };
                    (it.nth_back(k), w)
                }
                _ => {
                    let (l, h) = it.size_hint();
                    check!(l <= hi - lo && h.is_none_or(|h| h >= hi - lo), "{what} size_hint ({l}, {h:?}) with {} left", hi - lo);
                    continue;
                }
            };
            same!(got.map(p), want, "{what} entry");
        }
        let rest: Vec<E> = it.map(p).collect();
        same!(rest, list[lo..hi].to_vec(), "{what} rest");
        c.eval((what.len(), n, &calls), || format!("{what}{calls}"));
    }
}

pub fn run(c: &mut Ctx) {
    let sizes: &[usize] = if c.thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 40, 200] } else { &[0, 1, 2, 3, 5, 12, 30] };
    for &n in sizes {
        let keep: Vec<DynBoxedMetric<Counter>> = (0..n).map(|i| MetricBuilder::new(format!("d{i}")).build(Counter::new())).collect();
        let m = metrics();
        let statics: Vec<E> = m.static_metrics().iter().map(p).collect();
        set_case(format!("{n} dynamic metrics"));
        check!(statics.len() >= 2, "static metrics of the driver are not listed");
        for name in ["it.a", "it.b"] {
            same!(m.static_metrics().iter().filter(|e| e.name() == name).count(), 1, "static metric {name} listed");
        }
        // the dynamic list, by plain stepping
        let mut dynamics: Vec<E> = Vec::new();
        let mut it = m.dynamic_metrics();
        while let Some(e) = it.next() {
            dynamics.push(p(e));
            check!(dynamics.len() <= n, "more dynamic entries than metrics");
        }
        same!(dynamics.len(), n, "dynamic entries");
        for (i, _) in keep.iter().enumerate() {
            let count = dynamics.iter().filter(|e| unsafe { &***e }.name() == format!("d{i}")).count();
            same!(count, 1, "entry d{i} visited");
        }
        let mut all = statics.clone();
        all.extend(&dynamics);
        let mut sorted = all.clone();
        sorted.sort();
        sorted.dedup();
        same!(sorted.len(), all.len(), "distinct entries");
        drive(c, || m.iter(), &all, "metrics().iter()", false);
        drive(c, || (&m).into_iter(), &all, "&metrics()", false);
        drive(c, || m.dynamic_metrics(), &dynamics, "dynamic_metrics()", true);
        // exact length of the dynamic iterator while consuming
        let mut it = m.dynamic_metrics();
        for left in (0..=n).rev() {
            same!(it.len(), left, "dynamic_metrics().len()");
            it.next();
        }
    }
}
