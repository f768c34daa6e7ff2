//! C02: contracts of `metriken::Gauge`, for every value, every amount and
//! every interference by other threads.
#![allow(static_mut_refs)]
use metriken::{Gauge, Metric, Value};
use vshim::env;

/// The environment may store anything into the gauge before each of our
/// atomic operations (twice per call: more than one operation has accesses).
fn interference() {
    unsafe {
        env::HAVOC = true;
        env::BUDGET = 70;
    }
    env::reset_log();
}

/// The operation was one atomic step from `old` to `f(old)` returning `old`
/// (or, if that is the identity, possibly a mere read).
fn one_step(ret: i64, f: impl Fn(i64) -> i64) {
    unsafe {
        if env::MODS == 0 {
            let last = env::READ_LAST as i64;
            assert!(env::READS > 0 && f(last) == last, "[C02] update lost");
            assert!(ret == last, "[C02] does not return the replaced value");
        } else {
            assert!(env::MODS == 1, "[C02] more than one modification step");
            assert!(env::MOD_NEW as i64 == f(env::MOD_OLD as i64), "[C02] wrong new value or lost concurrent update");
            assert!(ret == env::MOD_OLD as i64, "[C02] does not return the replaced value");
        }
    }
}

#[cfg(kani)]
mod proofs {
    use super::*;

    #[kani::proof]
    #[kani::unwind(80)]
    fn new_is_zero() {
        let c = Gauge::new();
        assert!(c.value() == 0, "[C02] new gauge is not 0");
        let d = Gauge::default();
        assert!(d.value() == 0, "[C02] default gauge is not 0");
        let v: i64 = kani::any();
        let e = Gauge::with_value(v);
        assert!(e.value() == v, "[C02] with_value");
        kani::cover!(v == i64::MAX);
        kani::cover!(v < 0);
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn add() {
        let c = Gauge::with_value(kani::any());
        let n: i64 = kani::any();
        interference();
        let r = c.add(n);
        one_step(r, |x| x.wrapping_add(n));
        kani::cover!(n > 0 && r > i64::MAX - n);
        kani::cover!(n < 0);
        kani::cover!(n == 0);
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn increment() {
        let c = Gauge::with_value(kani::any());
        interference();
        let r = c.increment();
        one_step(r, |x| x.wrapping_add(1));
        kani::cover!(r == i64::MAX);
        kani::cover!(r == -1);
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn sub() {
        let c = Gauge::with_value(kani::any());
        let n: i64 = kani::any();
        interference();
        let r = c.sub(n);
        one_step(r, |x| x.wrapping_sub(n));
        kani::cover!(n > 0 && r < i64::MIN + n);
        kani::cover!(n < 0);
        kani::cover!(n == 0);
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn decrement() {
        let c = Gauge::with_value(kani::any());
        interference();
        let r = c.decrement();
        one_step(r, |x| x.wrapping_sub(1));
        kani::cover!(r == i64::MIN);
        kani::cover!(r == -1);
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn set() {
        let c = Gauge::with_value(kani::any());
        let n: i64 = kani::any();
        interference();
        let r = c.set(n);
        one_step(r, |_| n);
        kani::cover!(r != n);
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn reset() {
        let c = Gauge::with_value(kani::any());
        interference();
        let r = c.reset();
        one_step(r, |_| 0);
        kani::cover!(r != 0);
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn value() {
        let c = Gauge::with_value(kani::any());
        interference();
        let r = c.value();
        unsafe {
            assert!(env::MODS == 0, "[C02] reading modifies the gauge");
            assert!(env::READS > 0 && r == env::READ_LAST as i64, "[C02] value the gauge never had");
        }
        kani::cover!(r != 0);
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn metric_value() {
        let c = Gauge::with_value(kani::any());
        interference();
        let r = Metric::value(&c);
        unsafe {
            assert!(env::MODS == 0, "[C02] observing modifies the gauge");
            match r {
                Some(Value::Gauge(v)) => {
                    assert!(env::READS > 0 && v == env::READ_LAST as i64, "[C02] reports a value the gauge never had");
                    kani::cover!(v == i64::MAX);
        kani::cover!(v < 0);
                }
                _ => assert!(false, "[C02] does not report a gauge value"),
            }
        }
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn metric_identity() {
        let c = Gauge::with_value(kani::any());
        interference();
        assert!(Metric::is_enabled(&c), "[C02] gauge not enabled");
        match Metric::as_any(&c) {
            Some(any) => {
                let p: Option<&Gauge> = any.downcast_ref();
                assert!(p.is_some() && std::ptr::eq(p.unwrap(), &c), "[C02] as_any is not the gauge");
            }
            None => assert!(false, "[C02] as_any is None"),
        }
        unsafe { assert!(env::MODS == 0, "[C02] observing modifies the gauge") };
        kani::cover!(true);
    }

    /// Without interference: the state after any operation on any state.
    #[kani::proof]
    #[kani::unwind(80)]
    fn sequential() {
        let v: i64 = kani::any();
        let n: i64 = kani::any();
        let c = Gauge::with_value(v);
        let (r, want) = match kani::any::<u8>() % 6 {
            4 => (c.sub(n), v.wrapping_sub(n)),
            5 => (c.decrement(), v.wrapping_sub(1)),
            0 => (c.add(n), v.wrapping_add(n)),
            1 => (c.increment(), v.wrapping_add(1)),
            2 => (c.set(n), n),
            _ => (c.reset(), 0),
        };
        assert!(r == v, "[C02] does not return the previous value");
        assert!(c.value() == want, "[C02] wrong value after the operation");
        kani::cover!(want < v);
    }
}
