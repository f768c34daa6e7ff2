//! C03.
use crate::ctx::{catch, set_case, Ctx};
use crate::{check, same};
use metriken::{AtomicHistogram, Counter, DynBoxedMetric, Gauge, Lazy, LazyCounter, LazyGauge, Metric, MetricBuilder, Value};
use std::any::Any;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Barrier;

/// A metric whose reports can be anything, to see that they are passed on.
#[derive(Default)]
struct Odd {
    enabled: AtomicBool,
    any: AtomicBool,
    kind: AtomicU64,
    value: AtomicU64,
}

impl Metric for Odd {
    fn is_enabled(&self) -> bool {
        self.enabled.load(Ordering::SeqCst)
    }
    fn as_any(&self) -> Option<&dyn Any> {
        // Not the object that a naive implementation would return.
        self.any.load(Ordering::SeqCst).then_some(&self.value as &dyn Any)
    }
    fn value(&self) -> Option<Value<'_>> {
        let v = self.value.load(Ordering::SeqCst);
        match self.kind.load(Ordering::SeqCst) {
            0 => None,
            1 => Some(Value::Counter(v)),
            2 => Some(Value::Gauge(v as i64)),
            _ => Some(Value::Other(&self.kind)),
        }
    }
}

fn shape(v: &Option<Value>) -> (u8, u64) {
    match v {
        None => (0, 0),
        Some(Value::Counter(x)) => (1, *x),
        Some(Value::Gauge(x)) => (2, *x as u64),
        Some(Value::Other(x)) => (3, *x as *const dyn Any as *const () as u64),
        _ => (9, 0),
    }
}

fn unused<T: Metric, F: Send + 'static>(l: &Lazy<T, F>, what: &str) {
    check!(Lazy::get(l).is_none(), "{what}: initialised by observation or creation");
    check!(!l.is_enabled(), "{what}: enabled before first access");
    check!(l.as_any().is_none(), "{what}: as_any before first access");
    check!(Metric::value(l).is_none(), "{what}: reports a value before first access");
    check!(Lazy::get(l).is_none(), "{what}: initialised by observation");
}

pub fn run(c: &mut Ctx) {
    let calls = AtomicUsize::new(0);
    // -- sequential, every way of first access
    for way in 0..6 {
        for observe in 0..3 {
            set_case(format!("Lazy<Counter>: {observe} observations, then first access by way {way}"));
            calls.store(0, Ordering::SeqCst);
            // 'static initialiser
            static CALLS: AtomicUsize = AtomicUsize::new(0);
            CALLS.store(0, Ordering::SeqCst);
            let mut l: Lazy<Counter> = Lazy::new(|| {
                CALLS.fetch_add(1, Ordering::SeqCst);
                Counter::with_value(40)
            });
            for _ in 0..observe {
                unused(&l, "Lazy<Counter>");
                check!(Lazy::get_mut(&mut l).is_none(), "get_mut initialised it");
            }
            same!(CALLS.load(Ordering::SeqCst), 0, "initialiser ran before first access");
            match way {
                0 => { same!(Lazy::force(&l).value(), 40, "first force"); l.increment(); }
                1 => { l.increment(); }
                2 => { let r: &mut Counter = &mut l; r.increment(); }
                3 => { let r: &Counter = &l; r.increment(); }
                4 => { std::thread::scope(|s| { s.spawn(|| l.increment()); }); }
                _ => { use std::ops::DerefMut; l.deref_mut().increment(); }
            }
            for _ in 0..3 {
                same!(CALLS.load(Ordering::SeqCst), 1, "initialiser runs");
                check!(l.is_enabled(), "not enabled after access");
                same!(shape(&Metric::value(&l)), (1, 41), "reported value");
                let inner = Lazy::get(&l).map(|x| x as *const Counter);
                check!(inner == Some(Lazy::force(&l) as *const Counter), "force and get differ");
                check!(inner == Some(&*l as *const Counter), "deref and get differ");
                let any = l.as_any().and_then(|a| a.downcast_ref::<Counter>()).map(|x| x as *const Counter);
                check!(any == inner, "as_any is not the inner metric");
                check!(Lazy::get_mut(&mut l).map(|x| x as *const Counter) == inner, "get_mut is not the inner metric");
                let again: *const Counter = { let r: &mut Counter = &mut l; r };
                check!(Some(again) == inner, "deref_mut is another instance");
                same!((*l).value(), 41, "value lost");
            }
            c.eval((way, observe), || format!("Lazy first access way {way} after {observe} observations"));
        }
    }
    // -- closures with captured state; drop counts of the initialiser
    for n in 0..c.scale(50, 500) as u64 {
        let v = c.value_u64();
        set_case(format!("Lazy with capturing initialiser of value {v}"));
        let boxed = Box::new(v);
        let l = Lazy::new(move || Counter::with_value(*boxed));
        check!(Lazy::get(&l).is_none(), "initialised");
        same!((*l).value(), v, "value");
        same!(l.add(n), v, "previous value");
        same!(Lazy::force(&l).value(), v.wrapping_add(n), "value after add");
        c.eval(("cap", v, n), || format!("capturing initialiser {v}"));
    }
    // -- defaults and aliases
    set_case("LazyCounter/LazyGauge default".into());
    let lc: LazyCounter = LazyCounter::default();
    unused(&lc, "LazyCounter");
    lc.add(3);
    same!(shape(&Metric::value(&lc)), (1, 3), "LazyCounter value");
    let lg: LazyGauge = LazyGauge::new(Gauge::default);
    unused(&lg, "LazyGauge");
    lg.sub(3);
    same!(shape(&Metric::value(&lg)), (2, -3i64 as u64), "LazyGauge value");
    // -- delegation to any inner metric
    let l: Lazy<Odd> = Lazy::new(Odd::default);
    unused(&l, "Lazy<Odd>");
    let odd: &Odd = Lazy::force(&l);
    for e in [false, true] {
        for a in [false, true] {
            for k in 0..4 {
                for v in [0, 1, u64::MAX] {
                    set_case(format!("Lazy<Odd> initialised: inner enabled={e} any={a} kind={k} value={v}"));
                    odd.enabled.store(e, Ordering::SeqCst);
                    odd.any.store(a, Ordering::SeqCst);
                    odd.kind.store(k, Ordering::SeqCst);
                    odd.value.store(v, Ordering::SeqCst);
                    same!(shape(&Metric::value(&l)), shape(&Metric::value(odd)), "reported value");
                    // enabled once initialised; as_any is the inner metric itself
                    check!(l.is_enabled(), "an initialised lazy is disabled");
                    let p = l.as_any().and_then(|x| x.downcast_ref::<Odd>()).map(|x| x as *const Odd);
                    check!(p == Some(odd as *const Odd), "as_any is not the inner metric");
                    c.eval(("odd", e, a, k, v), || format!("inner enabled={e} any={a} kind={k}"));
                }
            }
        }
    }
    // -- poisoning
    for way in 0..3 {
        set_case(format!("initialiser panics on first access; later access way {way}"));
        static CALLS2: AtomicUsize = AtomicUsize::new(0);
        CALLS2.store(0, Ordering::SeqCst);
        let mut l: Lazy<Counter> = Lazy::new(|| {
            CALLS2.fetch_add(1, Ordering::SeqCst);
            panic!("initialiser")
        });
        check!(catch(|| { Lazy::force(&l); }).is_err(), "panic of the initialiser was swallowed");
        unused(&l, "poisoned Lazy");
        for _ in 0..3 {
            let r = match way {
                0 => catch(|| { Lazy::force(&l); }),
                1 => catch(|| { l.increment(); }),
                _ => catch(|| { let r: &mut Counter = &mut l; r.increment(); }),
            };
            check!(r.is_err(), "access to a poisoned Lazy succeeded");
            same!(CALLS2.load(Ordering::SeqCst), 1, "initialiser runs");
            check!(Lazy::get(&l).is_none(), "poisoned Lazy has a value");
        }
        check!(Lazy::get_mut(&mut l).is_none(), "poisoned Lazy has a value");
        c.eval(("poison", way), || format!("poisoned, way {way}"));
    }
    // -- racing accesses to a panicking initialiser
    for round in 0..c.scale(100, 1000) {
        let threads = 2 + round % 4;
        set_case(format!("#Lazy<Counter>: {threads} threads race, the initialiser panics, round {round}"));
        let calls = AtomicUsize::new(0);
        let l: Lazy<Counter, _> = Lazy::new(|| -> Counter {
            calls.fetch_add(1, Ordering::SeqCst);
            std::thread::yield_now();
            panic!("initialiser")
        });
        let barrier = Barrier::new(threads);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (l, barrier) = (&l, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    let r = catch(|| { if t % 2 == 0 { Lazy::force(l); } else { l.increment(); } });
                    check!(r.is_err(), "access to a poisoned Lazy succeeded");
                    check!(Lazy::get(l).is_none(), "poisoned Lazy has a value");
                });
            }
        });
        same!(calls.load(Ordering::SeqCst), 1, "runs of the panicking initialiser");
        c.eval(("race-panic", round), || format!("{threads} racing accesses, panicking initialiser"));
    }
    // -- racing first accesses, with observers
    for round in 0..c.scale(400, 4000) {
        let threads = 2 + round % 7;
        set_case(format!("#Lazy<Counter>: {threads} threads race for the first access, round {round}"));
        let calls = AtomicUsize::new(0);
        let l: Lazy<Counter, _> = Lazy::new(|| {
            calls.fetch_add(1, Ordering::SeqCst);
            if round % 3 == 0 {
                std::thread::sleep(std::time::Duration::from_micros(50));
            } else if round % 3 == 1 {
                std::thread::yield_now();
            }
            Counter::with_value(1000)
        });
        let barrier = Barrier::new(threads);
        let ptrs: Vec<usize> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (l, barrier) = (&l, &barrier);
                    s.spawn(move || {
                        barrier.wait();
                        if t % 4 == 3 {
                            // observer: sees nothing or a fully initialised value
                            if let Some(v) = Lazy::get(l) {
                                check!(v.value() >= 1000, "observer saw an uninitialised value {}", v.value());
                            }
                        }
                        let r: &Counter = if t % 2 == 0 { Lazy::force(l) } else { l };
                        check!(r.value() >= 1000, "saw an uninitialised value {}", r.value());
                        r.increment();
                        r as *const Counter as usize
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        same!(calls.load(Ordering::SeqCst), 1, "initialiser runs");
        check!(ptrs.iter().all(|p| *p == ptrs[0]), "threads got different instances");
        same!((*l).value(), 1000 + threads as u64, "increments lost");
        c.eval(("race", round), || format!("{threads} racing first accesses"));
    }
    // -- through the registry
    set_case("registered Lazy metrics are not initialised by listing them".into());
    let d: DynBoxedMetric<LazyCounter> = MetricBuilder::new("lazy.c").metadata("k", "v").description("d").build(LazyCounter::new(Counter::default));
    let h: DynBoxedMetric<Lazy<AtomicHistogram>> = MetricBuilder::new("lazy.h").build(Lazy::new(|| AtomicHistogram::new(2, 10)));
    for _ in 0..2 {
        let m = metriken::metrics();
        for e in m.dynamic_metrics() {
            check!(!e.is_enabled(), "listed lazy metric enabled before use");
            check!(Metric::value(&**e).is_none(), "listed lazy metric reports a value");
            check!(e.as_any().is_none(), "as_any");
            let _ = e.formatted(metriken::Format::Simple);
            let _ = e.formatted(metriken::Format::Prometheus);
            let _ = e.metadata().len();
            let _ = e.is(&*d);
        }
        drop(m);
        unused(&*d, "registered lazy");
        unused(&*h, "registered lazy histogram");
    }
    d.add(5);
    let _ = h.increment(3);
    let m = metriken::metrics();
    for e in m.dynamic_metrics() {
        check!(e.is_enabled(), "used lazy metric is listed as disabled");
    }
    c.eval("registry", || "registered lazy metrics".into());
}
