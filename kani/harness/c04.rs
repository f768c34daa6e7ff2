//! C04: contracts of `metriken::AtomicHistogram` for every configuration, every
//! value and any recordings by other threads. The bucket arithmetic is that of
//! the `histogram` crate (assumed; checked against the real one by the driver).
#![allow(static_mut_refs)]
use metriken::{AtomicHistogram, Metric, Value};
use std::any::Any;
use vshim::env;

#[cfg(kani)]
mod proofs {
    use super::*;

    fn valid(g: u8, m: u8) -> bool {
        g < m && m <= 64
    }

    #[kani::proof]
    #[kani::unwind(3)]
    fn new_valid() {
        let (g, m): (u8, u8) = (kani::any(), kani::any());
        kani::assume(valid(g, m) && g <= 24);
        let h = AtomicHistogram::new(g, m);
        let c = h.config();
        assert!(c.grouping_power() == g && c.max_value_power() == m, "[C04] another configuration");
        assert!(h.load().is_none(), "[C04] new histogram is not empty");
        kani::cover!(m == 64 && g == 24);
        kani::cover!(m == 1 && g == 0);
    }

    #[kani::proof]
    #[kani::should_panic]
    #[kani::unwind(3)]
    fn new_invalid() {
        let (g, m): (u8, u8) = (kani::any(), kani::any());
        kani::assume(!valid(g, m));
        let h = AtomicHistogram::new(g, m);
        vshim::must_not_return(&h);
    }

    static mut SHARED: Option<AtomicHistogram> = None;

    fn shared() -> &'static AtomicHistogram {
        unsafe { SHARED.as_ref().unwrap() }
    }

    /// Another thread records an arbitrary value.
    fn other_records() {
        let v: u64 = kani::any();
        let r = shared().increment(v);
        assert!(r.is_ok() == covered(v), "[C04] acceptance of a value depends on the state");
    }

    fn covered(v: u64) -> bool {
        let m = shared().config().max_value_power() as u32;
        m == 64 || v < 1u64 << m
    }

    fn setup(g: u8, m: u8, budget: u32) {
        kani::assume(valid(g, m) && g <= 24);
        unsafe {
            SHARED = Some(AtomicHistogram::new(g, m));
            env::ENV = Some(other_records);
            env::BUDGET = budget;
        }
    }

    fn log() -> (u32, u32) {
        unsafe {
            assert!(histogram::DRAINS == 0, "[C04] counts were drained");
            assert!(histogram::CREATED <= 1, "[C04] more than one set of buckets");
            (histogram::ADDS, histogram::ENV_ADDS)
        }
    }

    /// Recording, also when not the first recording.
    #[kani::proof]
    #[kani::unwind(4)]
    fn increment() {
        let (g, m): (u8, u8) = (kani::any(), kani::any());
        setup(g, m, 2);
        if kani::any() {
            let before: u64 = kani::any();
            let _ = shared().increment(before);
        }
        let (adds0, _) = log();
        let v: u64 = kani::any();
        let r = shared().increment(v);
        let (adds, _) = log();
        if covered(v) {
            assert!(r.is_ok(), "[C04] covered value rejected");
            assert!(adds == adds0 + 1, "[C04] value not counted exactly once");
            unsafe { assert!(histogram::ADD_VALUE == v && histogram::ADD_COUNT == 1, "[C04] another value or amount counted") };
        } else {
            assert!(r.is_err(), "[C04] value beyond the configuration accepted");
            assert!(adds == adds0, "[C04] rejected value counted");
        }
        // loading: the state of the one set of buckets, with all recordings
        unsafe { env::BUDGET = 0 };
        let l = shared().load();
        let (adds, env_adds) = log();
        match &l {
            Some(h) => {
                assert!(h.config() == shared().config(), "[C04] loaded under another configuration");
                assert!(h.ghost_source() == Some((1, adds + env_adds)), "[C04] recordings lost");
            }
            None => {
                assert!(adds + env_adds == 0, "[C04] recordings not loaded");
                kani::cover!(!covered(v));
            }
        }
        assert!(adds + env_adds > 0 || l.is_none(), "[C04] loads something before the first recording");
        kani::cover!(adds == 2 && env_adds == 2);
        kani::cover!(m < 64 && v == 1u64 << m);
        kani::cover!(m == 64 && v == u64::MAX && r.is_ok());
        kani::cover!(r.is_err());
    }

    /// Loading while others record.
    #[kani::proof]
    #[kani::unwind(4)]
    fn load() {
        let (g, m): (u8, u8) = (kani::any(), kani::any());
        setup(g, m, 2);
        let first: bool = kani::any();
        if first {
            kani::assume(covered(1));
            let _ = shared().increment(1);
        }
        let (a0, e0) = log();
        let l = shared().load();
        let (a1, e1) = log();
        match l {
            Some(h) => {
                assert!(h.config() == shared().config(), "[C04] loaded under another configuration");
                match h.ghost_source() {
                    Some((id, n)) => assert!(id == 1 && a0 + e0 <= n && n <= a1 + e1, "[C04] recordings lost"),
                    None => assert!(false, "[C04] loaded counts are not the recorded ones"),
                }
            }
            None => assert!(a0 + e0 == 0, "[C04] recordings not loaded"),
        }
        kani::cover!(e1 > e0);
        kani::cover!(first && e1 == 0);
    }

    #[kani::proof]
    #[kani::unwind(3)]
    fn as_metric() {
        let (g, m): (u8, u8) = (kani::any(), kani::any());
        kani::assume(valid(g, m) && g <= 24);
        let h = AtomicHistogram::new(g, m);
        assert!(h.is_enabled(), "[C04] disabled");
        match h.as_any().and_then(|a| a.downcast_ref::<AtomicHistogram>()) {
            Some(p) => assert!(std::ptr::eq(p, &h), "[C04] as_any"),
            None => assert!(false, "[C04] as_any"),
        }
        match Metric::value(&h) {
            Some(Value::Other(o)) => match o.downcast_ref::<AtomicHistogram>() {
                Some(p) => assert!(std::ptr::eq(p, &h), "[C04] value is another histogram"),
                None => assert!(false, "[C04] value is not the histogram"),
            },
            _ => assert!(false, "[C04] value is not the histogram"),
        }
        assert!(h.load().is_none(), "[C04] observing counts as recording");
        let _: Option<&dyn Any> = None;
        kani::cover!(true);
    }
}
