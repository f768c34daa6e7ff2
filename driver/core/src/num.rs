//! C01 and C02: counters and gauges against a sequential model, and concurrent
//! histories checked for a serialisation.
use crate::ctx::{set_case, Ctx};
use crate::{check, same};
use metriken::{Counter, Gauge, Metric, Value};
use std::collections::HashMap;
use std::sync::Barrier;

trait Num: Metric + Default + Sized {
    const NAME: &'static str;
    fn make(v: u64) -> Self;
    fn fresh() -> Self;
    /// Apply operation `op` (0..OPS) with argument; returns the result.
    fn apply(&self, op: usize, arg: u64) -> u64;
    const OPS: &'static [&'static str];
    fn read(&self) -> u64;
    fn reported(&self) -> Option<u64>;
}

/// What operation `op` does to a value.
fn model(op: &str, x: u64, arg: u64) -> u64 {
    match op {
        "add" => x.wrapping_add(arg),
        "sub" => x.wrapping_sub(arg),
        "increment" => x.wrapping_add(1),
        "decrement" => x.wrapping_sub(1),
        "set" => arg,
        "reset" => 0,
        _ => unreachable!(),
    }
}

impl Num for Counter {
    const NAME: &'static str = "Counter";
    const OPS: &'static [&'static str] = &["add", "increment", "set", "reset"];
    fn make(v: u64) -> Self {
        Counter::with_value(v)
    }
    fn fresh() -> Self {
        Counter::new()
    }
    fn apply(&self, op: usize, arg: u64) -> u64 {
        match Self::OPS[op] {
            "add" => self.add(arg),
            "increment" => self.increment(),
            "set" => self.set(arg),
            _ => self.reset(),
        }
    }
    fn read(&self) -> u64 {
        self.value()
    }
    fn reported(&self) -> Option<u64> {
        match Metric::value(self) {
            Some(Value::Counter(v)) => Some(v),
            _ => None,
        }
    }
}

impl Num for Gauge {
    const NAME: &'static str = "Gauge";
    const OPS: &'static [&'static str] = &["add", "increment", "set", "reset", "sub", "decrement"];
    fn make(v: u64) -> Self {
        Gauge::with_value(v as i64)
    }
    fn fresh() -> Self {
        Gauge::new()
    }
    fn apply(&self, op: usize, arg: u64) -> u64 {
        let a = arg as i64;
        (match Self::OPS[op] {
            "add" => self.add(a),
            "increment" => self.increment(),
            "set" => self.set(a),
            "reset" => self.reset(),
            "sub" => self.sub(a),
            _ => self.decrement(),
        }) as u64
    }
    fn read(&self) -> u64 {
        self.value() as u64
    }
    fn reported(&self) -> Option<u64> {
        match Metric::value(self) {
            Some(Value::Gauge(v)) => Some(v as u64),
            _ => None,
        }
    }
}

fn observe<N: Num>(n: &N, want: u64) {
    same!(n.read(), want, "{} value", N::NAME);
    same!(n.reported(), Some(want), "{} reported metric value", N::NAME);
    check!(n.is_enabled(), "{} is not enabled", N::NAME);
    match n.as_any().and_then(|a| a.downcast_ref::<N>()) {
        Some(p) => check!(std::ptr::eq(p, n), "{} as_any is another object", N::NAME),
        None => check!(false, "{} as_any does not give the metric", N::NAME),
    }
    same!(n.read(), want, "{} value after observation", N::NAME);
}

fn sequential<N: Num>(c: &mut Ctx) {
    set_case(format!("{} fresh", N::NAME));
    observe(&N::fresh(), 0);
    observe(&N::default(), 0);
    let special = c.special_u64();
    // every operation on pairs of interesting values
    let mut starts: Vec<u64> = vec![0, 1, 5, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MIN as u64, 1 << 32, u32::MAX as u64];
    starts.extend(special.iter().step_by(7));
    for (i, &v) in starts.iter().enumerate() {
        for &arg in special.iter().skip(i % 3).step_by(if c.thorough || i < 9 { 1 } else { 3 }) {
            for op in 0..N::OPS.len() {
                let n = N::make(v);
                set_case(format!("{}::with_value({v}); {}({arg})", N::NAME, N::OPS[op]));
                let r = n.apply(op, arg);
                same!(r, v, "{} returned value (as u64)", N::OPS[op]);
                observe(&n, model(N::OPS[op], v, arg));
                c.eval((v, arg, op), || format!("{}::with_value({v}); {}({arg})", N::NAME, N::OPS[op]));
            }
        }
    }
    // random histories
    for _ in 0..c.scale(300, 5000) {
        let v = c.value_u64();
        let n = N::make(v);
        let mut x = v;
        let mut hist = format!("{}::with_value({v})", N::NAME);
        for _ in 0..1 + c.below(40) {
            let op = c.below(N::OPS.len());
            let arg = c.value_u64();
            hist.push_str(&format!("; {}({arg})", N::OPS[op]));
            set_case(hist.clone());
            same!(n.apply(op, arg), x, "{} returned value", N::OPS[op]);
            x = model(N::OPS[op], x, arg);
            observe(&n, x);
        }
        c.eval(&hist, || hist.clone());
    }
}

/// A set of concurrent operations (old, new) is serialisable from `init` to
/// `fin` iff the transitions form an Eulerian path.
fn serialisable(init: u64, fin: u64, steps: &[(u64, u64)]) -> Result<(), String> {
    let mut degree: HashMap<u64, i64> = HashMap::new();
    let mut parent: HashMap<u64, u64> = HashMap::new();
    fn root(p: &mut HashMap<u64, u64>, x: u64) -> u64 {
        let mut r = x;
        while let Some(&y) = p.get(&r) {
            if y == r {
                break;
            }
            r = y;
        }
        p.insert(x, r);
        r
    }
    for &(a, b) in steps {
        *degree.entry(a).or_default() += 1;
        *degree.entry(b).or_default() -= 1;
        let (x, y) = (root(&mut parent, a), root(&mut parent, b));
        parent.insert(x, y);
        parent.entry(y).or_insert(y);
    }
    *degree.entry(init).or_default() -= 1;
    *degree.entry(fin).or_default() += 1;
    if let Some((v, d)) = degree.iter().find(|(_, d)| **d != 0) {
        return Err(format!(
            "value {v} was produced {} by the operations than it was consumed",
            if *d < 0 { format!("{} times more often", -d) } else { format!("{d} times less often") }
        ));
    }
    if !steps.is_empty() {
        let r = root(&mut parent, init);
        for &(a, _) in steps {
            if root(&mut parent, a) != r {
                return Err(format!("value {a} seen by an operation is not reachable from {init}"));
            }
        }
    }
    Ok(())
}

fn concurrent<N: Num + Sync>(c: &mut Ctx) {
    let rounds = c.scale(8, 200);
    for round in 0..rounds {
        let threads = 2 + round % 7;
        let per = c.scale(4000, 20000);
        // kinds of mix: increments only, one op only, additive, everything
        let mix = round % 4;
        let init = if round % 2 == 0 { 0 } else { c.value_u64() };
        let n = N::make(init);
        let barrier = Barrier::new(threads + 1);
        let desc = format!(
            "#{}::with_value({init}), {threads} threads x {per} operations, mix {mix} (round {round})",
            N::NAME
        );
        set_case(desc.clone());
        let seeds: Vec<u64> = (0..threads).map(|_| c.u64()).collect();
        let stop = std::sync::atomic::AtomicBool::new(false);
        let (results, seen) = std::thread::scope(|s| {
            let handles: Vec<_> = seeds
                .iter()
                .enumerate()
                .map(|(t, &seed)| {
                    let (n, barrier) = (&n, &barrier);
                    s.spawn(move || {
                        let mut x = seed | 1;
                        let mut out = Vec::with_capacity(per);
                        barrier.wait();
                        for i in 0..per {
                            x ^= x << 13;
                            x ^= x >> 7;
                            x ^= x << 17;
                            let op = match mix {
                                0 => 1,
                                1 => (t + round / 4) % N::OPS.len(),
                                2 => [0, 1, N::OPS.len() - 1, N::OPS.len() - 2][(x % 4) as usize] % N::OPS.len(),
                                _ => (x >> 8) as usize % N::OPS.len(),
                            };
                            // arguments identify thread and step
                            let arg = ((t as u64 + 1) << 40) | i as u64;
                            let old = n.apply(op, arg);
                            out.push((old, model(N::OPS[op], old, arg)));
                        }
                        out
                    })
                })
                .collect();
            let reader = {
                let (n, barrier, stop) = (&n, &barrier, &stop);
                s.spawn(move || {
                    let mut seen = Vec::new();
                    barrier.wait();
                    while !stop.load(std::sync::atomic::Ordering::Relaxed) && seen.len() < 50000 {
                        seen.push(n.read());
                        if let Some(v) = n.reported() {
                            seen.push(v);
                        }
                    }
                    seen
                })
            };
            let r: Vec<(u64, u64)> = handles.into_iter().flat_map(|h| h.join().unwrap()).collect();
            stop.store(true, std::sync::atomic::Ordering::Relaxed);
            (r, reader.join().unwrap())
        });
        let fin = n.read();
        if let Err(e) = serialisable(init, fin, &results) {
            check!(false, "concurrent operations are not atomic: {e} (final value {fin})");
        }
        let had: std::collections::HashSet<u64> =
            results.iter().map(|r| r.1).chain([init]).collect();
        for v in seen {
            check!(had.contains(&v), "a reader saw {v}, a value the {} never had", N::NAME);
        }
        c.eval(("conc", round), || desc.clone());
    }
}

pub fn counter(c: &mut Ctx) {
    sequential::<Counter>(c);
    concurrent::<Counter>(c);
}

pub fn gauge(c: &mut Ctx) {
    sequential::<Gauge>(c);
    concurrent::<Gauge>(c);
}
