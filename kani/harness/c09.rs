//! C09: an entry behaves like its metric. The metric is in an arbitrary state
//! that changes arbitrarily between observations; every observation through
//! the entry is compared with the metric's own.
#![allow(static_mut_refs)]
#![allow(deprecated)]
use metriken::{metrics, DynBoxedMetric, DynPinnedMetric, Metric, MetricBuilder, MetricEntry, Value};
use metriken_core::export::{entry_v1, InjectedProvider, MetricWrapper};
use metriken_core::Request;
use std::any::Any;
use std::cell::UnsafeCell;

#[derive(Clone, Copy)]
pub struct State {
    enabled: bool,
    any: u8,
    value: u8,
    n: u64,
    by_value: bool,
    by_ref: bool,
}

pub struct M {
    s: UnsafeCell<State>,
    part: u64,
}
unsafe impl Sync for M {}

#[derive(Clone, Copy, PartialEq)]
pub struct A(u64);
/// What the registration of a static metric supplies.
#[derive(Clone, Copy, PartialEq)]
pub struct Supplied(u64);

impl M {
    fn st(&self) -> State {
        unsafe { *self.s.get() }
    }
}

impl Metric for M {
    fn is_enabled(&self) -> bool {
        self.st().enabled
    }
    fn as_any(&self) -> Option<&dyn Any> {
        match self.st().any {
            0 => None,
            1 => Some(self),
            _ => Some(&self.part),
        }
    }
    fn value(&self) -> Option<Value<'_>> {
        match self.st().value {
            0 => None,
            1 => Some(Value::Counter(self.st().n)),
            2 => Some(Value::Gauge(self.st().n as i64)),
            _ => Some(Value::Other(&self.part)),
        }
    }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        if self.st().by_value {
            r.provide_value(A(self.st().n));
            r.provide_value(Supplied(7));
        }
        if self.st().by_ref {
            r.provide_ref(&self.part);
        }
    }
}

/// A second metric type of the same size.
pub struct Other(pub [u64; 6]);
impl Metric for Other {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
}

pub struct P;
impl InjectedProvider for P {
    fn provide(r: &mut Request<'_>) {
        r.provide_value(Supplied(42));
    }
}

fn addr(a: Option<&dyn Any>) -> Option<(*const (), bool)> {
    a.map(|a| (a as *const dyn Any as *const (), a.is::<M>()))
}

pub fn same_report(e: &MetricEntry, m: &M) {
    // through the entry's metric and through the entry itself
    let via: [&dyn Metric; 2] = [e.metric(), &**e];
    let mut i = 0;
    while i < 2 {
        let x = via[i];
        assert!(x.is_enabled() == m.is_enabled(), "[C09] enabled state differs");
        assert!(addr(x.as_any()) == addr(m.as_any()), "[C09] as-any identity differs");
        match (x.value(), m.value()) {
            (None, None) => {}
            (Some(Value::Counter(a)), Some(Value::Counter(b))) => assert!(a == b, "[C09] value differs"),
            (Some(Value::Gauge(a)), Some(Value::Gauge(b))) => assert!(a == b, "[C09] value differs"),
            (Some(Value::Other(a)), Some(Value::Other(b))) => {
                assert!(addr(Some(a)) == addr(Some(b)), "[C09] value differs")
            }
            _ => assert!(false, "[C09] value differs"),
        }
        i += 1;
    }
}

pub fn value_passed_on(e: &MetricEntry, m: &M) {
    let s = m.st();
    match e.request_value::<A>() {
        Some(a) => assert!(s.by_value && a.0 == s.n, "[C09] provided value not passed on"),
        None => assert!(!s.by_value, "[C09] provided value not passed on"),
    }
}
pub fn ref_passed_on(e: &MetricEntry, m: &M) {
    let s = m.st();
    match e.request_ref::<u64>() {
        Some(r) => assert!(s.by_ref && std::ptr::eq(r, &m.part), "[C09] provided reference not passed on"),
        None => assert!(!s.by_ref, "[C09] provided reference not passed on"),
    }
}
pub fn nothing_made_up(e: &MetricEntry, _: &M) {
    assert!(e.request_ref::<A>().is_none(), "[C09] entry provides what nobody supplied");
}

#[cfg(kani)]
mod proofs {
    use super::*;

    fn any_state() -> State {
        let s = State {
            enabled: kani::any(),
            any: kani::any(),
            value: kani::any(),
            n: kani::any(),
            by_value: kani::any(),
            by_ref: kani::any(),
        };
        kani::assume(s.any < 3 && s.value < 4);
        s
    }

    fn any_metric() -> M {
        M { s: UnsafeCell::new(any_state()), part: kani::any() }
    }

    fn step(m: &M) {
        unsafe { *m.s.get() = any_state() };
    }

    fn covers(m: &M) {
        let s = m.st();
        kani::cover!(s.enabled && s.any == 0 && s.value == 1);
        kani::cover!(!s.enabled && s.any == 2 && s.value == 3);
        kani::cover!(s.by_value && s.by_ref);
    }

    fn static_entry(m: &'static M) -> MetricEntry {
        entry_v1(MetricWrapper::<_, P>::from_ref(m), "a", Some("d"))
    }

    #[kani::proof]
    #[kani::unwind(3)]
    fn static_reports() {
        let m: &'static M = Box::leak(Box::new(any_metric()));
        let e = static_entry(m);
        same_report(&e, m);
        step(m);
        same_report(&e, m);
        covers(m);
    }

    #[kani::proof]
    #[kani::unwind(3)]
    fn static_passes_on() {
        let m: &'static M = Box::leak(Box::new(any_metric()));
        let e = static_entry(m);
        value_passed_on(&e, m);
        ref_passed_on(&e, m);
        nothing_made_up(&e, m);
        assert!(e.request_value::<Supplied>() == Some(Supplied(42)), "[C09] what the registration supplies is lost");
        covers(m);
    }

    #[kani::proof]
    #[kani::unwind(3)]
    fn static_identity() {
        let m: &'static M = Box::leak(Box::new(any_metric()));
        let e = static_entry(m);
        assert!(e.is(m), "[C09] entry does not recognise its metric");
        let x: &'static M = Box::leak(Box::new(any_metric()));
        let o: &'static Other = Box::leak(Box::new(Other([0; 6])));
        assert!(!e.is(x) && !e.is(o), "[C09] entry recognises another metric");
        let owned = MetricWrapper::<M, P>::new(any_metric());
        assert!(owned.is_enabled() == owned.is_enabled());
        let f = entry_v1(MetricWrapper::<_, P>::from_ref(o), "o", None);
        assert!(f.is(o) && !f.is(m), "[C09] entry recognises another metric");
    }

    /// A wrapper that owns its metric.
    #[kani::proof]
    #[kani::unwind(3)]
    fn owned_wrapper() {
        let s = any_state();
        let w: &'static MetricWrapper<M, P> =
            Box::leak(Box::new(MetricWrapper::new(M { s: UnsafeCell::new(s), part: 5 })));
        assert!(Metric::is_enabled(w) == s.enabled, "[C09] enabled state differs");
        match w.value() {
            None => assert!(s.value == 0, "[C09] value differs"),
            Some(Value::Counter(n)) => assert!(s.value == 1 && n == s.n, "[C09] value differs"),
            Some(Value::Gauge(n)) => assert!(s.value == 2 && n == s.n as i64, "[C09] value differs"),
            _ => assert!(s.value == 3, "[C09] value differs"),
        }
    }

    enum Owner {
        Boxed(DynBoxedMetric<M>),
        Pinned(std::pin::Pin<Box<DynPinnedMetric<M>>>),
    }

    fn dynamic(kind: u8, m: M) -> Owner {
        match kind {
            0 => Owner::Boxed(MetricBuilder::new("a").build(m)),
            1 => {
                let (p, e) = MetricBuilder::new("a").build_pinned(m);
                let p = Box::pin(p);
                p.as_ref().register(e);
                Owner::Pinned(p)
            }
            _ => {
                let p = Box::pin(DynPinnedMetric::new(m));
                p.as_ref().register(MetricBuilder::new("a").into_entry());
                Owner::Pinned(p)
            }
        }
    }

    fn metric(o: &Owner) -> &M {
        match o {
            Owner::Boxed(b) => &*b,
            Owner::Pinned(p) => &***p,
        }
    }

    fn with_entry(kind: u8, f: impl Fn(&MetricEntry, &M)) {
        let o = dynamic(kind, any_metric());
        let m = metric(&o);
        {
            let list = metrics();
            let mut it = list.dynamic_metrics();
            match it.next() {
                Some(e) => f(e, m),
                None => assert!(false, "[C09] not listed"),
            }
        }
        covers(m);
        std::mem::forget(o);
    }

    fn reports(e: &MetricEntry, m: &M) {
        same_report(e, m);
        step(m);
        same_report(e, m);
    }

    fn identity(e: &MetricEntry, m: &M) {
        let x: &'static M = Box::leak(Box::new(any_metric()));
        let o: &'static Other = Box::leak(Box::new(Other([0; 6])));
        assert!(e.is(m), "[C09] entry does not recognise its metric");
        assert!(!e.is(x) && !e.is(o), "[C09] entry recognises another metric");
    }

    macro_rules! for_kind {
        ($k:expr, $a:ident, $b:ident, $c:ident, $d:ident, $f:ident) => {
            #[kani::proof]
            #[kani::unwind(5)]
            fn $a() {
                with_entry($k, reports);
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn $b() {
                with_entry($k, value_passed_on);
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn $d() {
                with_entry($k, ref_passed_on);
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn $f() {
                with_entry($k, nothing_made_up);
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn $c() {
                with_entry($k, identity);
            }
        };
    }
    for_kind!(0, boxed_reports, boxed_value_passed_on, boxed_identity, boxed_ref_passed_on, boxed_nothing_made_up);
    for_kind!(1, pinned_reports, pinned_value_passed_on, pinned_identity, pinned_ref_passed_on, pinned_nothing_made_up);
    for_kind!(2, plain_reports, plain_value_passed_on, plain_identity, plain_ref_passed_on, plain_nothing_made_up);

    /// An entry without a metric.
    #[kani::proof]
    #[kani::unwind(5)]
    fn without_metric() {
        let b = MetricBuilder::new("a");
        let b = if kani::any() { b.description("d") } else { b };
        let e = b.into_entry();
        assert!(!e.is_enabled() && !e.metric().is_enabled(), "[C09] entry without a metric is enabled");
        assert!(e.as_any().is_none() && Metric::value(&*e).is_none(), "[C09] entry without a metric has a value");
        assert!(e.metric().as_any().is_none() && e.metric().value().is_none(), "[C09] entry without a metric has a value");
        std::mem::forget(e);
    }
}
