//! C05: contracts of `metriken::RwLockHistogram`, for every configuration,
//! data of every length and interference by other updates and loads.
#![allow(static_mut_refs)]
use metriken::{Metric, RwLockHistogram, Value};
use vshim::env;

#[cfg(kani)]
mod proofs {
    use super::*;

    fn valid(g: u8, m: u8) -> bool {
        g < m && m <= 64
    }

    #[kani::proof]
    #[kani::unwind(3)]
    fn new_valid() {
        let (g, m): (u8, u8) = (kani::any(), kani::any());
        kani::assume(valid(g, m) && g <= 24);
        let h = RwLockHistogram::new(g, m);
        let c = h.config();
        assert!(c.grouping_power() == g && c.max_value_power() == m, "[C05] another configuration");
        assert!(h.load().is_none(), "[C05] new histogram is not empty");
        kani::cover!(m == 64 && g == 24);
        kani::cover!(m == 1 && g == 0);
    }

    #[kani::proof]
    #[kani::should_panic]
    #[kani::unwind(3)]
    fn new_invalid() {
        let (g, m): (u8, u8) = (kani::any(), kani::any());
        kani::assume(!valid(g, m));
        let h = RwLockHistogram::new(g, m);
        vshim::must_not_return(&h);
    }

    static mut SHARED: Option<RwLockHistogram> = None;
    fn shared() -> &'static RwLockHistogram {
        unsafe { SHARED.as_ref().unwrap() }
    }

    /// An array of `n` arbitrary numbers, `n` arbitrary.
    fn data(n: usize) -> &'static [u64] {
        kani::assume(n <= 1 << 31);
        let layout = std::alloc::Layout::array::<u64>(n + 1).unwrap();
        unsafe { std::slice::from_raw_parts(std::alloc::alloc(layout) as *const u64, n) }
    }

    fn total(g: u8, m: u8) -> usize {
        2 * (1usize << g) + (m - g - 1) as usize * (1usize << g)
    }

    #[kani::proof]
    #[kani::unwind(3)]
    fn update() {
        let (g, m): (u8, u8) = (kani::any(), kani::any());
        kani::assume(valid(g, m) && g <= 24);
        let h = RwLockHistogram::new(g, m);
        let n: usize = kani::any();
        let d = data(n);
        let r = h.update_from(d);
        let t = total(g, m);
        assert!(r.is_ok() == (n == t), "[C05] acceptance is not by length");
        match h.load() {
            None => assert!(r.is_err(), "[C05] successful update not loaded"),
            Some(l) => {
                assert!(r.is_ok(), "[C05] rejected update counts as one");
                assert!(l.config() == h.config(), "[C05] loaded under another configuration");
                assert!(l.as_slice().len() == t, "[C05] wrong number of buckets");
                let i: usize = kani::any();
                kani::assume(i < t);
                assert!(l.as_slice()[i] == d[i], "[C05] bucket not replaced");
                kani::cover!(i == 100 && d[i] == 7);
            }
        }
        kani::cover!(r.is_ok());
        kani::cover!(r.is_err());
    }

    /// A second update replaces everything; a rejected one nothing.
    #[kani::proof]
    #[kani::unwind(3)]
    fn update_again() {
        let (g, m): (u8, u8) = (kani::any(), kani::any());
        kani::assume(valid(g, m) && g <= 24);
        let h = RwLockHistogram::new(g, m);
        let t = total(g, m);
        let d0 = data(t);
        assert!(h.update_from(d0).is_ok(), "[C05] update rejected");
        let n: usize = kani::any();
        let d = data(n);
        let r = h.update_from(d);
        assert!(r.is_ok() == (n == t), "[C05] acceptance is not by length");
        match h.load() {
            None => assert!(false, "[C05] update not loaded"),
            Some(l) => {
                assert!(l.config() == h.config(), "[C05] loaded under another configuration");
                assert!(l.as_slice().len() == t, "[C05] wrong number of buckets");
                let i: usize = kani::any();
                kani::assume(i < t);
                let want = if r.is_ok() { d[i] } else { d0[i] };
                assert!(l.as_slice()[i] == want, "[C05] bucket is not that of the latest update");
                kani::cover!(r.is_ok() && d[i] < d0[i]);
                kani::cover!(r.is_err() && d0[i] != 0);
            }
        }
    }

    // ---- interference -----------------------------------------------------
    // Data sets 0 (before), 1 (the verified thread), 2 (other threads); two
    // arbitrary witness positions stand for all pairs of buckets.
    static mut SETS: [Option<&'static [u64]>; 3] = [None; 3];
    static mut VALUES: [[u64; 2]; 3] = [[0; 2]; 3];
    /// Updates that have begun / have returned, by data set.
    static mut BEGUN: [bool; 3] = [false; 3];
    static mut DONE: [bool; 3] = [false; 3];

    fn update_set(k: usize) {
        unsafe {
            BEGUN[k] = true;
            let r = shared().update_from(SETS[k].unwrap());
            assert!(r.is_ok(), "[C05] update rejected");
            DONE[k] = true;
        }
    }
    fn load_and_check() -> Option<usize> {
        unsafe {
            let done = DONE;
            let l = shared().load();
            match l {
                None => {
                    assert!(!done[0] && !done[1] && !done[2], "[C05] completed update not loaded");
                    None
                }
                Some(l) => {
                    let b = l.ghost_kept();
                    let is = |k: usize| BEGUN[k] && b[0] == VALUES[k][0] && b[1] == VALUES[k][1];
                    assert!(is(0) || is(1) || is(2), "[C05] loaded buckets are not those of one update");
                    assert!(!(OVERWRITTEN && DONE[2]) || is(2), "[C05] an overwritten update came back");
                    Some(if is(1) && !is(0) && !is(2) { 1 } else { 0 })
                }
            }
        }
    }
    /// Our data was loaded by another thread before that thread's own update
    /// began: from then on ours must not come back.
    static mut OVERWRITTEN: bool = false;
    fn other() {
        let seen = if kani::any() { load_and_check() } else { None };
        if kani::any() {
            unsafe { OVERWRITTEN = seen == Some(1) };
            update_set(2);
        }
    }
    fn any_values() -> [[u64; 2]; 3] {
        [[kani::any(), kani::any()], [kani::any(), kani::any()], [kani::any(), kani::any()]]
    }
    /// Any configuration and contents; two arbitrary buckets are looked at.
    fn setup() {
        unsafe {
            let (g, m): (u8, u8) = (kani::any(), kani::any());
            kani::assume(valid(g, m) && g <= 24);
            SHARED = Some(RwLockHistogram::new(g, m));
            // memory that is never read: only the values at the witnesses are known
            let t = total(g, m);
            let d = [data(t), data(t), data(t)];
            VALUES = any_values();
            SETS = [Some(d[0]), Some(d[1]), Some(d[2])];
            histogram::WITNESS = Some([(d[0].as_ptr(), VALUES[0]), (d[1].as_ptr(), VALUES[1]), (d[2].as_ptr(), VALUES[2])]);
        }
        start();
    }
    /// Bounded: the smallest configuration (2 buckets), all of them compared.
    fn small() {
        unsafe {
            SHARED = Some(RwLockHistogram::new(0, 1));
            VALUES = any_values();
            SETS = [Some(&VALUES[0]), Some(&VALUES[1]), Some(&VALUES[2])];
        }
        start();
    }
    fn start() {
        if kani::any() {
            update_set(0);
        }
        unsafe {
            env::ENV = Some(other);
            env::BUDGET = 2;
        }
    }

    fn update_then_load() {
        update_set(1);
        unsafe { env::BUDGET = 0 };
        let l = shared().load();
        unsafe {
            match l {
                None => assert!(false, "[C05] completed update not loaded"),
                Some(l) => {
                    let b = l.ghost_kept();
                    let is = |k: usize| b[0] == VALUES[k][0] && b[1] == VALUES[k][1];
                    assert!(is(1) || (DONE[2] && is(2)), "[C05] latest update lost");
                    assert!(!(OVERWRITTEN && DONE[2]) || is(2), "[C05] an overwritten update came back");
                }
            }
            kani::cover!(DONE[0] && DONE[2]);
            kani::cover!(!DONE[0] && DONE[2]);
            kani::cover!(!DONE[2]);
        }
    }
    fn load_once() {
        let l = load_and_check();
        unsafe {
            kani::cover!(l.is_some() && DONE[2]);
            kani::cover!(l.is_none());
        }
    }

    #[kani::proof]
    #[kani::unwind(5)]
    fn update_is_one_step() {
        setup();
        update_then_load();
    }
    #[kani::proof]
    #[kani::unwind(5)]
    fn load_is_one_step() {
        setup();
        load_once();
    }
    #[kani::proof]
    #[kani::unwind(5)]
    fn bounded_update_is_one_step() {
        small();
        update_then_load();
    }
    #[kani::proof]
    #[kani::unwind(5)]
    fn bounded_load_is_one_step() {
        small();
        load_once();
    }

    #[kani::proof]
    #[kani::unwind(5)]
    fn as_metric() {
        let h = RwLockHistogram::new(3, 64);
        assert!(h.is_enabled(), "[C05] disabled");
        match h.as_any().and_then(|a| a.downcast_ref::<RwLockHistogram>()) {
            Some(p) => assert!(std::ptr::eq(p, &h), "[C05] as_any"),
            None => assert!(false, "[C05] as_any"),
        }
        match Metric::value(&h) {
            Some(Value::Other(o)) => match o.downcast_ref::<RwLockHistogram>() {
                Some(p) => assert!(std::ptr::eq(p, &h), "[C05] value is another histogram"),
                None => assert!(false, "[C05] value is not the histogram"),
            },
            _ => assert!(false, "[C05] value is not the histogram"),
        }
        assert!(h.load().is_none(), "[C05] observing counts as an update");
        kani::cover!(true);
    }
}
