//! C04 and C05. The bucket a value belongs to is taken from the histogram
//! library's own sequential histogram.
use crate::ctx::{catch, set_case, Ctx};
use crate::{check, same};
use metriken::{AtomicHistogram, Metric, RwLockHistogram, Value};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Barrier;

/// Valid configurations with few enough buckets to try.
fn configs(c: &Ctx) -> Vec<(u8, u8)> {
    let mut v = Vec::new();
    let gmax = if c.thorough { 12 } else { 8 };
    for m in 1..=64u8 {
        for g in 0..m.min(gmax) {
            v.push((g, m));
        }
    }
    v
}

fn validity(c: &mut Ctx, name: &str, f: impl Fn(u8, u8) -> (u8, u8)) {
    for m in 0..=255u8 {
        for g in 0..=255u8 {
            let valid = g < m && m <= 64;
            if valid && g > 24 {
                continue; // beyond what the histogram library can represent
            }
            set_case(format!("{name}::new({g}, {m})"));
            let r = catch(|| f(g, m));
            check!(r.is_ok() == valid, "{name}::new({g}, {m}) {}", if valid { "panicked" } else { "did not panic" });
            if let Ok(r) = r {
                same!(r, (g, m), "configuration reported");
            }
            c.eval(("valid", g, m), || format!("{name}::new({g}, {m})"));
        }
    }
}

pub fn atomic(c: &mut Ctx) {
    validity(c, "AtomicHistogram", |g, m| {
        let h = AtomicHistogram::new(g, m);
        check!(h.load().is_none(), "a new histogram is not empty");
        (h.config().grouping_power(), h.config().max_value_power())
    });
    let special = c.special_u64();
    let cfgs = configs(c);
    for &(g, m) in &cfgs {
        let h = AtomicHistogram::new(g, m);
        let mut model = histogram::Histogram::new(g, m).unwrap();
        let mut any = false;
        let n = c.scale(if (g as usize + m as usize) % 8 == 3 { special.len() } else { 24 }, special.len());
        for i in 0..n {
            let v = if n == special.len() {
                special[i]
            } else {
                match if (g + m) % 2 == 0 { i ^ 1 } else { i } {
                    // around both ends of the range
                    0 => 0,
                    1 => if m < 64 { 1 << m } else { u64::MAX },
                    2 => if m < 64 { (1 << m) - 1 } else { u64::MAX - 1 },
                    3 => if m < 63 { (1 << m) + 1 } else { 1 << 63 },
                    4 => 1,
                    5 => 1 << g,
                    _ => {
                        let r = c.value_u64();
                        if i % 3 == 0 && m < 64 { r & ((1 << m) - 1) } else { r }
                    }
                }
            };
            let covered = m == 64 || v < 1 << m;
            set_case(format!("AtomicHistogram::new({g}, {m}) after {i} recordings; increment({v})"));
            let before = h.load();
            check!(any || before.is_none(), "loaded before any successful recording");
            let r = h.increment(v);
            same!(r.is_ok(), covered, "increment({v}) accepted");
            if covered {
                model.increment(v).unwrap();
                any = true;
            }
            if any {
                let l = h.load();
                check!(l.is_some(), "nothing loaded after a recording");
                let l = l.unwrap();
                check!(l.config() == model.config(), "loaded configuration differs");
                check!(l == model, "bucket counts differ: {:?} expected {:?}",
                    nonzero(l.as_slice()), nonzero(model.as_slice()));
                if i % 5 == 0 {
                    check!(h.load().as_ref() == Some(&model), "loading changed the histogram");
                }
            }
            if !any {
                check!(h.load().is_none(), "loaded before any successful recording");
            }
            match Metric::value(&h) {
                Some(Value::Other(o)) => check!(o.downcast_ref::<AtomicHistogram>().is_some_and(|p| std::ptr::eq(p, &h)), "metric value is another object"),
                _ => check!(false, "metric value is not Other"),
            }
            check!(h.is_enabled(), "not enabled");
            check!(h.as_any().and_then(|a| a.downcast_ref::<AtomicHistogram>()).is_some_and(|p| std::ptr::eq(p, &h)), "as_any");
            c.eval((g, m, v), || format!("AtomicHistogram::new({g}, {m}).increment({v})"));
        }
    }
    // many recordings of the same and of different values
    for &(g, m) in cfgs.iter().step_by(17) {
        set_case(format!("AtomicHistogram::new({g}, {m}), 3000 recordings"));
        let h = AtomicHistogram::new(g, m);
        let mut model = histogram::Histogram::new(g, m).unwrap();
        for i in 0..3000u64 {
            let r = if i % 2 == 0 { i % 17 } else { c.u64() };
            let v = if m < 64 { r & ((1 << m) - 1) } else { r };
            check!(h.increment(v).is_ok(), "increment({v}) rejected");
            model.increment(v).unwrap();
        }
        check!(h.load() == Some(model), "bucket counts differ after many recordings");
        c.eval((g, m, "many"), || format!("AtomicHistogram::new({g}, {m}) x3000"));
    }
    // racing first recordings
    for round in 0..c.scale(600, 5000) {
        let threads = 2 + round % 7;
        let per = 1 + (round % 5) * 40;
        let (g, m) = cfgs[(round * 31) % cfgs.len()];
        if g > 8 { continue; }
        set_case(format!("#AtomicHistogram::new({g}, {m}): {threads} threads race to record {per} values each from the start, round {round}"));
        let h = AtomicHistogram::new(g, m);
        let barrier = Barrier::new(threads);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (h, barrier) = (&h, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    for i in 0..per {
                        let v = (t + i) as u64 & 1;
                        check!(h.increment(v).is_ok(), "increment rejected");
                        if i % 16 == 0 {
                            let n: u64 = h.load().map(|l| l.as_slice().iter().sum()).unwrap_or(0);
                            check!(n > i as u64 && n <= (threads * per) as u64, "{n} recordings loaded after {} own ones", i + 1);
                        }
                    }
                });
            }
        });
        let n: u64 = h.load().unwrap().as_slice().iter().sum();
        same!(n, (threads * per) as u64, "recordings lost or duplicated");
        c.eval(("race", round), || format!("{threads} threads x {per} recordings"));
    }
}

fn nonzero(s: &[u64]) -> Vec<(usize, u64)> {
    s.iter().copied().enumerate().filter(|e| e.1 != 0).take(20).collect()
}

pub fn bulk(c: &mut Ctx) {
    validity(c, "RwLockHistogram", |g, m| {
        let h = RwLockHistogram::new(g, m);
        check!(h.load().is_none(), "a new histogram is not empty");
        (h.config().grouping_power(), h.config().max_value_power())
    });
    let cfgs = configs(c);
    for (k, &(g, m)) in cfgs.iter().enumerate() {
        let n = histogram::Config::new(g, m).unwrap().total_buckets();
        let h = RwLockHistogram::new(g, m);
        let mut last: Option<Vec<u64>> = None;
        let mut lens: Vec<usize> = vec![0, n, n + 1, n - 1, n, n, 2 * n, n / 2, n, 1, n + 64];
        for _ in 0..3 {
            lens.push(c.below(2 * n + 2));
            lens.push(n);
        }
        if k % 3 == 0 {
            lens.insert(0, n);
        }
        for (i, &len) in lens.iter().enumerate() {
            let data: Vec<u64> = match i % 4 {
                0 => (0..len as u64).collect(),
                1 => vec![c.value_u64(); len],
                2 => (0..len).map(|_| c.u64()).collect(),
                _ => (0..len).map(|j| if j + 1 == len || j == 0 { u64::MAX } else { 0 }).collect(),
            };
            set_case(format!("RwLockHistogram::new({g}, {m}) ({n} buckets), update {i} with {len} values"));
            let r = h.update_from(&data);
            same!(r.is_ok(), len == n, "update_from accepted {len} values for {n} buckets");
            if len == n {
                last = Some(data);
            }
            for _ in 0..2 {
                let l = h.load();
                match (&l, &last) {
                    (None, None) => {}
                    (Some(l), Some(d)) => {
                        check!(l.as_slice() == &d[..], "loaded buckets differ from the last update");
                        same!((l.config().grouping_power(), l.config().max_value_power()), (g, m), "loaded configuration");
                    }
                    (Some(_), None) => check!(false, "histogram counts as updated without a successful update"),
                    (None, Some(_)) => check!(false, "nothing loaded after a successful update"),
                }
            }
            match Metric::value(&h) {
                Some(Value::Other(o)) => check!(o.downcast_ref::<RwLockHistogram>().is_some_and(|p| std::ptr::eq(p, &h)), "metric value is another object"),
                _ => check!(false, "metric value is not Other"),
            }
            check!(h.is_enabled(), "not enabled");
            c.eval((g, m, len, i), || format!("RwLockHistogram::new({g}, {m}).update_from({len} values)"));
        }
    }
    // loads see whole updates only, also racing with the first one
    for round in 0..c.scale(60, 600) {
        let (g, m) = [(7u8, 64u8), (0, 64), (3, 20), (5, 32), (8, 64)][round % 5];
        let n = histogram::Config::new(g, m).unwrap().total_buckets();
        set_case(format!("#RwLockHistogram::new({g}, {m}): updates racing with loads, round {round}"));
        let h = RwLockHistogram::new(g, m);
        let stop = AtomicBool::new(false);
        let barrier = Barrier::new(3 + round / 5 % 2);
        std::thread::scope(|s| {
            let nw = 1 + (round / 5 % 2) as u64;
            let writers: Vec<_> = (0..nw)
                .map(|w| {
                    let (h, barrier) = (&h, &barrier);
                    s.spawn(move || {
                        barrier.wait();
                        for i in 1..=300u64 {
                            let tag = 2 * i + w;
                            check!(h.update_from(&vec![tag; n]).is_ok(), "update rejected");
                            let l = h.load();
                            check!(l.is_some(), "nothing loaded after an update");
                            if nw == 1 {
                                check!(l.unwrap().as_slice().iter().all(|x| *x == tag), "the latest update is not what is loaded");
                            }
                        }
                    })
                })
                .collect();
            for _ in 0..2 {
                let (h, barrier, stop) = (&h, &barrier, &stop);
                s.spawn(move || {
                    barrier.wait();
                    let mut seen = false;
                    while !stop.load(Ordering::Relaxed) {
                        match h.load() {
                            None => check!(!seen, "loads nothing after having loaded something"),
                            Some(l) => {
                                seen = true;
                                let s = l.as_slice();
                                check!(s.len() == n, "wrong number of buckets");
                                check!(s.iter().all(|x| *x == s[0]), "a load saw a mixture of two updates: {} and others", s[0]);
                                check!(s[0] != 0, "a load saw a histogram that was never the data of an update (all zero)");
                            }
                        }
                    }
                });
            }
            for w in writers {
                w.join().unwrap();
            }
            stop.store(true, Ordering::Relaxed);
        });
        let l = h.load().unwrap();
        check!(l.as_slice().iter().all(|x| *x >= 600), "the latest update was lost: {}", l.as_slice()[0]);
        c.eval(("race", round), || format!("RwLockHistogram::new({g}, {m}) updates racing loads"));
    }
}
