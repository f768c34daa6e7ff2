//! C03: contracts of `metriken::Lazy`, under interference by another thread
//! that accesses the same instance at any synchronisation point.
#![allow(static_mut_refs)]
use metriken::{Counter, Lazy, Metric, Value};
use std::any::Any;
use vshim::env;

/// An inner metric whose reports are arbitrary.
pub struct Inner {
    id: u64,
    kind: u8,
}
impl Metric for Inner {
    // The wrapper reports itself as enabled, and the inner metric as as-any,
    // whatever the inner metric says about itself.
    fn is_enabled(&self) -> bool {
        unsafe { ENABLED }
    }
    fn as_any(&self) -> Option<&dyn Any> {
        match unsafe { ANY } {
            true => Some(&self.id),
            false => None,
        }
    }
    fn value(&self) -> Option<Value<'_>> {
        match self.kind {
            0 => None,
            1 => Some(Value::Counter(self.id)),
            2 => Some(Value::Gauge(self.id as i64)),
            _ => Some(Value::Other(&self.id)),
        }
    }
}

pub static mut RUNS: u32 = 0;
pub static mut ID: u64 = 0;
pub static mut KIND: u8 = 0;
pub static mut ENABLED: bool = true;
pub static mut ANY: bool = true;

pub fn init() -> Inner {
    unsafe {
        RUNS += 1;
        Inner { id: ID, kind: KIND }
    }
}

pub static SHARED: Lazy<Inner> = Lazy::new(init);
pub static mut OTHER: Option<*const Inner> = None;

/// Another thread uses the shared instance.
pub fn other_uses() {
    let p: *const Inner = Lazy::force(&SHARED);
    unsafe {
        assert!(OTHER.is_none() || OTHER == Some(p), "[C03] accesses see different instances");
        OTHER = Some(p);
    }
}

#[cfg(kani)]
mod proofs {
    use super::*;

    fn arbitrary() {
        unsafe {
            ID = kani::any();
            KIND = kani::any();
            ENABLED = kani::any();
            ANY = kani::any();
        }
    }
    fn concurrent() {
        arbitrary();
        unsafe {
            env::ENV = Some(other_uses);
            env::BUDGET = 2;
        }
    }

    /// `value`, `as_any`, `is_enabled` of the inner metric, as reported.
    fn reports_inner(l: &Lazy<Inner>, p: *const Inner) {
        assert!(l.is_enabled(), "[C03] used lazy metric is disabled");
        match l.as_any().and_then(|a| a.downcast_ref::<Inner>()) {
            Some(a) => assert!(std::ptr::eq(a, p), "[C03] as_any is another instance"),
            None => assert!(false, "[C03] as_any is not the inner metric"),
        }
        let (id, kind) = unsafe { (ID, KIND) };
        match Metric::value(l) {
            None => assert!(kind == 0, "[C03] value lost"),
            Some(Value::Counter(v)) => assert!(kind == 1 && v == id, "[C03] wrong value"),
            Some(Value::Gauge(v)) => assert!(kind == 2 && v == id as i64, "[C03] wrong value"),
            Some(Value::Other(o)) => {
                assert!(kind > 2 && std::ptr::eq(o as *const dyn Any as *const u64, unsafe { &(*p).id }), "[C03] wrong value")
            }
            _ => assert!(false, "[C03] wrong value"),
        }
    }

    /// Observation by any of the four observers; None/false iff unused.
    fn observe(l: &Lazy<Inner>) -> bool {
        match kani::any::<u8>() % 4 {
            0 => Lazy::get(l).is_some(),
            1 => l.is_enabled(),
            2 => l.as_any().is_some(),
            _ => Metric::value(l).is_some(),
        }
    }

    #[kani::proof]
    #[kani::unwind(4)]
    fn observing_never_initialises() {
        arbitrary();
        let l: Lazy<Inner> = Lazy::new(init);
        assert!(!observe(&l) && !observe(&l), "[C03] unused lazy metric reports something");
        assert!(unsafe { RUNS } == 0, "[C03] observation ran the initialiser");
        let mut l = l;
        assert!(Lazy::get_mut(&mut l).is_none(), "[C03] get_mut of an unused lazy");
        assert!(unsafe { RUNS } == 0, "[C03] observation ran the initialiser");
        let p: *const Inner = Lazy::force(&l);
        assert!(unsafe { RUNS } == 1, "[C03] first access does not initialise once");
        reports_inner(&l, p);
        kani::cover!(unsafe { KIND } == 0);
        kani::cover!(unsafe { KIND == 2 && ID > i64::MAX as u64 });
    }

    /// The k-th access yields the same instance, whichever way it is made.
    #[kani::proof]
    #[kani::unwind(4)]
    fn same_instance() {
        arbitrary();
        let mut l: Lazy<Inner> = Lazy::new(init);
        let mut first: Option<*const Inner> = None;
        let mut i = 0;
        while i < 2 {
            let p: *const Inner = match kani::any::<u8>() % 3 {
                0 => Lazy::force(&l),
                1 => &*l,
                _ => &mut *l,
            };
            assert!(first.is_none() || first == Some(p), "[C03] accesses see different instances");
            assert!(unsafe { RUNS } == 1, "[C03] initialiser not run exactly once");
            first = Some(p);
            i += 1;
        }
        let p = first.unwrap();
        assert!(unsafe { (*p).id == ID && (*p).kind == KIND }, "[C03] instance is not the initialiser's result");
        assert!(Lazy::get(&l).map(|x| x as *const Inner) == first, "[C03] get is another instance");
        assert!(Lazy::get_mut(&mut l).map(|x| x as *const Inner) == first, "[C03] get_mut is another instance");
        reports_inner(&l, p);
        kani::cover!(true);
    }

    #[kani::proof]
    #[kani::unwind(4)]
    fn concurrent_access() {
        concurrent();
        let p: *const Inner = match kani::any::<bool>() {
            true => Lazy::force(&SHARED),
            false => &*SHARED,
        };
        unsafe {
            assert!(RUNS == 1, "[C03] initialiser not run exactly once");
            assert!(OTHER.is_none() || OTHER == Some(p), "[C03] threads see different instances");
            assert!((*p).id == ID && (*p).kind == KIND, "[C03] instance is not the initialiser's result");
            kani::cover!(OTHER.is_some());
        }
        reports_inner(&SHARED, p);
        assert!(unsafe { RUNS } == 1, "[C03] initialiser not run exactly once");
    }

    /// Observers racing with a first access: all or nothing, no initialisation
    /// of their own.
    #[kani::proof]
    #[kani::unwind(4)]
    fn concurrent_observation() {
        concurrent();
        unsafe { KIND = 1 };
        let mut used = unsafe { OTHER.is_some() };
        let mut i = 0;
        while i < 2 {
            let seen = observe(&SHARED);
            unsafe {
                assert!(RUNS == OTHER.is_some() as u32, "[C03] observation ran the initialiser");
                assert!(!seen || OTHER.is_some(), "[C03] reports something before first access");
                assert!(seen || !used, "[C03] used lazy metric reports nothing");
                used = OTHER.is_some();
            }
            i += 1;
        }
        if let Some(p) = Lazy::get(&SHARED) {
            unsafe { assert!(OTHER == Some(p as *const Inner), "[C03] get is another instance") };
        }
        kani::cover!(used);
        kani::cover!(!used);
    }

    /// Closures with captured state, default construction.
    #[kani::proof]
    #[kani::unwind(4)]
    fn closure_and_default() {
        let v: u64 = kani::any();
        let l = Lazy::new(move || Counter::with_value(v));
        assert!(Lazy::get(&l).is_none(), "[C03] initialised before use");
        assert!(Lazy::force(&l).value() == v, "[C03] instance is not the initialiser's result");
        assert!((*l).value() == v, "[C03] instance changed");
        match Metric::value(&l) {
            Some(Value::Counter(x)) => assert!(x == v, "[C03] wrong value"),
            _ => assert!(false, "[C03] wrong value"),
        }
        let d: Lazy<Counter> = Lazy::default();
        assert!(!d.is_enabled() && Lazy::get(&d).is_none(), "[C03] default is initialised before use");
        assert!(Lazy::force(&d).value() == 0, "[C03] default instance");
        kani::cover!(v == u64::MAX);
    }

    /// After a panic in the initialiser (modelled: the cell's contract is that
    /// it stays empty) an access panics and does not run the initialiser again.
    #[kani::proof]
    #[kani::should_panic]
    #[kani::unwind(4)]
    fn poisoned_access_panics() {
        fn first_panics() -> Inner {
            unsafe {
                RUNS += 1;
                // A second run is not the panic we want to see.
                kani::assume(RUNS == 1);
            }
            Inner { id: 0, kind: 0 }
        }
        let l: Lazy<Inner> = Lazy::new(first_panics);
        unsafe { vshim::sync::UNWIND_INIT = true };
        let _ = Lazy::force(&l);
        unsafe { vshim::sync::UNWIND_INIT = false };
        let p = match kani::any::<bool>() {
            true => Lazy::force(&l),
            false => &*l,
        };
        // Returning is a failure of another kind than the expected panic.
        vshim::must_not_return(p);
    }
}
