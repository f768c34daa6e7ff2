//! C06: registration and removal of dynamic metrics.
//!
//! The registry's map is a contract stand-in that tracks the keys touched here
//! exactly; no operation on the whole map may occur, so the entries of any
//! number of further metrics stay as they are. At every acquisition of the
//! registry lock another thread may step: it inspects the list.
#![allow(static_mut_refs)]
#![allow(deprecated)]
use metriken::{metrics, DynBoxedMetric, DynPinnedMetric, Metric, MetricBuilder, MetricEntry, Value};
use std::any::Any;
use vshim::{collections, env};

pub struct M {
    id: u64,
}
impl Metric for M {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.id))
    }
}

/// A metric that looks at the list while it is being dropped.
pub struct Watch {
    id: u64,
}
pub static mut WATCH_DROPPED: bool = false;
impl Drop for Watch {
    fn drop(&mut self) {
        let me: *const Watch = self;
        let list = metrics();
        for e in list.dynamic_metrics() {
            assert!(target(e) != me as *const (), "[C06] metric is still listed while being dropped");
        }
        unsafe { WATCH_DROPPED = true };
    }
}
impl Metric for Watch {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.id))
    }
}

/// The metric an entry refers to, by identity.
fn target(e: &MetricEntry) -> *const () {
    match e.as_any() {
        Some(a) => a as *const dyn Any as *const (),
        None => std::ptr::null(),
    }
}

#[derive(Clone, Copy)]
pub struct Expect {
    target: *const (),
    id: u64,
    name: &'static str,
    desc: Option<&'static str>,
}

/// What the list must contain (`Some`), and what it may contain because it is
/// being registered or dropped at this moment.
pub static mut MUST: [Option<Expect>; 2] = [None; 2];
pub static mut MAY: Option<Expect> = None;

fn same_text(a: &str, b: &str) -> bool {
    a.len() == b.len() && (a.is_empty() || a.as_bytes()[0] == b.as_bytes()[0])
}

fn is(e: &MetricEntry, x: &Expect) -> bool {
    if target(e) != x.target {
        return false;
    }
    assert!(same_text(e.name(), x.name), "[C06] entry has another name");
    match (e.description(), x.desc) {
        (None, None) => {}
        (Some(a), Some(b)) => assert!(same_text(a, b), "[C06] entry has another description"),
        _ => assert!(false, "[C06] entry has another description"),
    }
    match Metric::value(&**e) {
        Some(Value::Counter(v)) => assert!(v == x.id, "[C06] entry reports another metric"),
        _ => assert!(false, "[C06] entry reports another metric"),
    }
    true
}

pub fn check_list() {
    let list = metrics();
    unsafe {
        let mut seen = [0u8; 2];
        let mut it = list.dynamic_metrics();
        let mut n = 0;
        while n < 3 {
            if let Some(e) = it.next() {
                let mut known = false;
                let mut k = 0;
                while k < 2 {
                    if let Some(x) = &MUST[k] {
                        if is(e, x) {
                            seen[k] += 1;
                            known = true;
                        }
                    }
                    k += 1;
                }
                if let Some(x) = &MAY {
                    known = known || is(e, x);
                }
                assert!(known, "[C06] entry refers to no live registered metric");
            }
            n += 1;
        }
        assert!(it.next().is_none(), "[C06] more entries than metrics");
        let mut k = 0;
        while k < 2 {
            assert!(seen[k] == MUST[k].is_some() as u8, "[C06] live registered metric is not listed once");
            k += 1;
        }
    }
}

#[cfg(kani)]
mod proofs {
    use super::*;

    const X: usize = 0;
    const Y: usize = 1;

    fn ex(m: &M, name: &'static str, desc: Option<&'static str>) -> Expect {
        Expect { target: m as *const M as *const (), id: m.id, name, desc }
    }

    enum Owner {
        None,
        Boxed(DynBoxedMetric<M>),
        Pinned(std::pin::Pin<Box<DynPinnedMetric<M>>>),
    }

    /// Before: another metric X may exist, boxed, pinned and registered, or
    /// pinned and not registered. Returns its owner.
    fn other(how: u8) -> Owner {
        let owner = match how {
            0 => Owner::None,
            1 => {
                let b = MetricBuilder::new("x").description("p").build(M { id: kani::any() });
                unsafe { MUST[X] = Some(ex(&b, "x", Some("p"))) };
                Owner::Boxed(b)
            }
            _ => {
                let (z, e) = MetricBuilder::new("x").build_pinned(M { id: kani::any() });
                let z = Box::pin(z);
                z.as_ref().register(e);
                unsafe { MUST[X] = Some(ex(&z, "x", None)) };
                Owner::Pinned(z)
            }
        };
        check_list();
        unsafe {
            env::ENV = Some(check_list);
            env::BUDGET = 1;
        }
        owner
    }

    fn done() {
        unsafe {
            env::BUDGET = 0;
            assert!(collections::WHOLE_MAP_OPS == 0, "[C06] entries of other metrics are affected");
        }
        check_list();
    }

    fn boxed(how: u8) {
        let x = other(how);
        let id: u64 = kani::any();
        let desc: bool = kani::any();
        // another metric may have the same name
        let name = if kani::any() { "x" } else if kani::any() { "yy" } else { "" };
        let b = MetricBuilder::new(name);
        let text = if kani::any() { "d" } else { "" };
        let b = if desc { b.description(text) } else { b };
        unsafe { env::BUDGET = 0 };
        let y = b.build(M { id });
        assert!(y.id == id, "[C06] access reaches another metric");
        unsafe { MUST[Y] = Some(ex(&y, name, if desc { Some(text) } else { None })) };
        done();
        // moving the box moves nothing
        let y2 = y;
        done();
        unsafe {
            MAY = MUST[Y];
            MUST[Y] = None;
            env::BUDGET = 1;
        }
        drop(y2);
        unsafe { MAY = None };
        done();
        kani::cover!(desc);
        std::mem::forget(x);
    }

    #[kani::proof]
    #[kani::unwind(6)]
    fn boxed_next_to_boxed() {
        boxed(1)
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn boxed_next_to_pinned() {
        boxed(2)
    }

    #[kani::proof]
    #[kani::unwind(6)]
    fn pinned_lifetime() {
        let x = other(1);
        let id: u64 = kani::any();
        let name = if kani::any() { "x" } else if kani::any() { "yy" } else { "" };
        let (y, e) = MetricBuilder::new(name).build_pinned(M { id });
        done();
        let y = Box::pin(y);
        assert!(y.id == id, "[C06] access reaches another metric");
        done();
        let registered: bool = kani::any();
        if registered {
            y.as_ref().register(e);
            unsafe { MUST[Y] = Some(ex(&y, name, None)) };
        } else {
            drop(e);
        }
        done();
        unsafe {
            MAY = MUST[Y];
            MUST[Y] = None;
            env::BUDGET = 1;
        }
        drop(y);
        unsafe { MAY = None };
        done();
        kani::cover!(!registered);
        kani::cover!(registered);
        std::mem::forget(x);
    }

    /// Registering a pinned metric again replaces its entry.
    #[kani::proof]
    #[kani::unwind(6)]
    fn registered_again() {
        let x = other(1);
        unsafe { env::BUDGET = 0 };
        let (y, e) = MetricBuilder::new("y").description("d").build_pinned(M { id: kani::any() });
        let y = Box::pin(y);
        y.as_ref().register(e);
        unsafe { MUST[Y] = Some(ex(&y, "y", Some("d"))) };
        done();
        y.as_ref().register(MetricBuilder::new("again").into_entry());
        unsafe { MUST[Y] = Some(ex(&y, "again", None)) };
        done();
        unsafe { MUST[Y] = None };
        drop(y);
        done();
        kani::cover!(true);
        std::mem::forget(x);
    }

    /// Dropping one of the others leaves the rest alone.
    fn drop_other(how: u8) {
        let x = other(how);
        unsafe { env::BUDGET = 0 };
        let y = MetricBuilder::new("y").build(M { id: kani::any() });
        unsafe {
            MUST[Y] = Some(ex(&y, "y", None));
            MAY = MUST[X];
            MUST[X] = None;
            env::BUDGET = 1;
        }
        kani::cover!(true);
        drop(x);
        unsafe { MAY = None };
        done();
        assert!(y.id == unsafe { MUST[Y].unwrap().id }, "[C06] access reaches another metric");
        std::mem::forget(y);
    }

    #[kani::proof]
    #[kani::unwind(6)]
    fn drop_boxed_other() {
        drop_other(1)
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn drop_pinned_other() {
        drop_other(2)
    }

    /// A metric is unlisted before its own destructor runs.
    #[kani::proof]
    #[kani::unwind(6)]
    fn unlisted_before_drop() {
        if kani::any() {
            let w = MetricBuilder::new("w").build(Watch { id: 1 });
            let me: *const Watch = &*w;
            let list = metrics();
            let mut n = 0;
            for e in list.dynamic_metrics() {
                assert!(target(e) == me as *const (), "[C06] entry refers to another metric");
                n += 1;
            }
            assert!(n == 1, "[C06] live registered metric is not listed once");
            drop(list);
            drop(w);
        } else {
            let (w, e) = MetricBuilder::new("w").build_pinned(Watch { id: 1 });
            let w = Box::pin(w);
            w.as_ref().register(e);
            drop(w);
        }
        assert!(unsafe { WATCH_DROPPED }, "[C06] dropped metric is kept alive");
        assert!(metrics().dynamic_metrics().count() == 0, "[C06] entry left behind");
        kani::cover!(true);
    }

    /// The older constructors.
    #[kani::proof]
    #[kani::unwind(6)]
    fn deprecated_constructors() {
        let x = other(1);
        unsafe { env::BUDGET = 0 };
        let e = MetricBuilder::new("y").into_entry();
        if kani::any() {
            let y = DynBoxedMetric::new(M { id: 7 }, e);
            unsafe { MUST[Y] = Some(ex(&y, "y", None)) };
            done();
            unsafe { MUST[Y] = None };
            drop(y);
        } else {
            let y = Box::pin(DynPinnedMetric::new(M { id: 8 }));
            done();
            y.as_ref().register(e);
            unsafe { MUST[Y] = Some(ex(&y, "y", None)) };
            done();
            unsafe { MUST[Y] = None };
            drop(y);
        }
        done();
        kani::cover!(true);
        std::mem::forget(x);
    }
}
