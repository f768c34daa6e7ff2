//! C01: contracts of `metriken::Counter`, for every value, every amount and
//! every interference by other threads.
#![allow(static_mut_refs)]
use metriken::{Counter, Metric, Value};
use vshim::env;

/// The environment may store anything into the counter before each of our
/// atomic operations (twice per call: more than one operation has accesses).
fn interference() {
    unsafe {
        env::HAVOC = true;
        env::BUDGET = 70;
    }
    env::reset_log();
}

/// The operation was one atomic step from `old` to `f(old)` returning `old`
/// (or, if that is the identity, possibly a mere read).
fn one_step(ret: u64, f: impl Fn(u64) -> u64) {
    unsafe {
        if env::MODS == 0 {
            assert!(env::READS > 0 && f(env::READ_LAST) == env::READ_LAST, "[C01] update lost");
            assert!(ret == env::READ_LAST, "[C01] does not return the replaced value");
        } else {
            assert!(env::MODS == 1, "[C01] more than one modification step");
            assert!(env::MOD_NEW == f(env::MOD_OLD), "[C01] wrong new value or lost concurrent update");
            assert!(ret == env::MOD_OLD, "[C01] does not return the replaced value");
        }
    }
}

#[cfg(kani)]
mod proofs {
    use super::*;

    #[kani::proof]
    #[kani::unwind(80)]
    fn new_is_zero() {
        let c = Counter::new();
        assert!(c.value() == 0, "[C01] new counter is not 0");
        let d = Counter::default();
        assert!(d.value() == 0, "[C01] default counter is not 0");
        let v: u64 = kani::any();
        let e = Counter::with_value(v);
        assert!(e.value() == v, "[C01] with_value");
        kani::cover!(v == u64::MAX);
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn add() {
        let c = Counter::with_value(kani::any());
        let n: u64 = kani::any();
        interference();
        let r = c.add(n);
        one_step(r, |x| x.wrapping_add(n));
        kani::cover!(r > u64::MAX - n);
        kani::cover!(n == 0);
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn increment() {
        let c = Counter::with_value(kani::any());
        interference();
        let r = c.increment();
        one_step(r, |x| x.wrapping_add(1));
        kani::cover!(r == u64::MAX);
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn set() {
        let c = Counter::with_value(kani::any());
        let n: u64 = kani::any();
        interference();
        let r = c.set(n);
        one_step(r, |_| n);
        kani::cover!(r != n);
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn reset() {
        let c = Counter::with_value(kani::any());
        interference();
        let r = c.reset();
        one_step(r, |_| 0);
        kani::cover!(r != 0);
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn value() {
        let c = Counter::with_value(kani::any());
        interference();
        let r = c.value();
        unsafe {
            assert!(env::MODS == 0, "[C01] reading modifies the counter");
            assert!(env::READS > 0 && r == env::READ_LAST, "[C01] value the counter never had");
        }
        kani::cover!(r != 0);
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn metric_value() {
        let c = Counter::with_value(kani::any());
        interference();
        let r = Metric::value(&c);
        unsafe {
            assert!(env::MODS == 0, "[C01] observing modifies the counter");
            match r {
                Some(Value::Counter(v)) => {
                    assert!(env::READS > 0 && v == env::READ_LAST, "[C01] reports a value the counter never had");
                    kani::cover!(v == u64::MAX);
                }
                _ => assert!(false, "[C01] does not report a counter value"),
            }
        }
    }

    #[kani::proof]
    #[kani::unwind(80)]
    fn metric_identity() {
        let c = Counter::with_value(kani::any());
        interference();
        assert!(Metric::is_enabled(&c), "[C01] counter not enabled");
        match Metric::as_any(&c) {
            Some(any) => {
                let p: Option<&Counter> = any.downcast_ref();
                assert!(p.is_some() && std::ptr::eq(p.unwrap(), &c), "[C01] as_any is not the counter");
            }
            None => assert!(false, "[C01] as_any is None"),
        }
        unsafe { assert!(env::MODS == 0, "[C01] observing modifies the counter") };
        kani::cover!(true);
    }

    /// Without interference: the state after any operation on any state.
    #[kani::proof]
    #[kani::unwind(80)]
    fn sequential() {
        let v: u64 = kani::any();
        let n: u64 = kani::any();
        let c = Counter::with_value(v);
        let (r, want) = match kani::any::<u8>() % 4 {
            0 => (c.add(n), v.wrapping_add(n)),
            1 => (c.increment(), v.wrapping_add(1)),
            2 => (c.set(n), n),
            _ => (c.reset(), 0),
        };
        assert!(r == v, "[C01] does not return the previous value");
        assert!(c.value() == want, "[C01] wrong value after the operation");
        kani::cover!(want < v);
    }
}
