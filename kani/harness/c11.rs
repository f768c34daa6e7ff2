//! C11: the builder. The state of a builder, seen through one metadata key, one
//! provided type, the description and the formatter, is arbitrary (each set or
//! not); then one arbitrary further builder call is made; then the metric is
//! built and its entry is inspected. Since every call sequence is a sequence of
//! such steps, and the maps are only ever used per key (WHOLE_MAP_OPS), this
//! covers all sequences.
#![allow(static_mut_refs)]
use metriken::{metrics, DynBoxedMetric, DynPinnedMetric, Format, Metric, MetricBuilder, MetricEntry, Value};
use std::any::Any;
use vshim::collections;

/// Provides an `A` of its own, which one given to the builder takes precedence over.
pub struct M(pub u64, pub A);
impl Metric for M {
    fn provide<'a>(&'a self, request: &mut metriken_core::Request<'a>) {
        request.provide_ref(&self.1);
    }
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.0))
    }
}

#[derive(Clone, Copy, PartialEq)]
pub struct A(u64);

/// A string in static memory that is never freed.
pub fn owned(s: &'static str) -> String {
    unsafe { String::from_raw_parts(s.as_ptr() as *mut u8, s.len(), 0) }
}

pub static mut CALLED: [u32; 3] = [0; 3];
pub const NAMES: [&str; 3] = ["x", "y", "z"];
pub static mut ENTRY: *const () = std::ptr::null();
pub static mut PROMETHEUS: bool = false;
fn called(i: usize, e: &MetricEntry, f: Format) -> String {
    unsafe {
        CALLED[i] += 1;
        ENTRY = e as *const MetricEntry as *const ();
        PROMETHEUS = matches!(f, Format::Prometheus);
    }
    owned(NAMES[i])
}
pub fn first(e: &MetricEntry, f: Format) -> String {
    called(0, e, f)
}
pub fn second(e: &MetricEntry, f: Format) -> String {
    called(1, e, f)
}

/// What the builder has been given so far.
#[derive(Clone, Copy)]
pub struct Given {
    name: &'static str,
    desc: Option<&'static str>,
    key: Option<&'static str>,
    other: Option<&'static str>,
    a: Option<u64>,
    formatter: Option<usize>,
}

fn eq(a: &str, b: &str) -> bool {
    a.len() == b.len() && (a.is_empty() || a.as_bytes()[0] == b.as_bytes()[0])
}
fn eq_opt(a: Option<&str>, b: Option<&'static str>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => eq(a, b),
        _ => false,
    }
}

#[cfg(kani)]
mod proofs {
    use super::*;

    fn describe(b: MetricBuilder, g: &mut Given, d: &'static str) -> MetricBuilder {
        g.desc = Some(d);
        b.description(d)
    }
    fn meta(b: MetricBuilder, g: &mut Given, v: &'static str) -> MetricBuilder {
        g.key = Some(v);
        b.metadata(owned("k"), owned(v))
    }
    fn meta_other(b: MetricBuilder, g: &mut Given, v: &'static str) -> MetricBuilder {
        g.other = Some(v);
        b.metadata(owned("l"), owned(v))
    }
    fn provide(b: MetricBuilder, g: &mut Given) -> MetricBuilder {
        let n: u64 = kani::any();
        g.a = Some(n);
        b.provide(A(n))
    }
    fn formatter(b: MetricBuilder, g: &mut Given, i: usize) -> MetricBuilder {
        g.formatter = Some(i);
        b.formatter(if i == 0 { first } else { second })
    }

    /// A builder in an arbitrary state, and one more call.
    fn builder(op: u8) -> (MetricBuilder, Given) {
        let mut g = Given { name: "", desc: None, key: None, other: None, a: None, formatter: None };
        // strings may be empty
        let empty: bool = kani::any();
        let s = |s: &'static str| if empty { "" } else { s };
        g.name = s("n");
        let mut b = MetricBuilder::new(g.name);
        if kani::any() {
            b = describe(b, &mut g, "d");
        }
        if kani::any() {
            b = meta(b, &mut g, "1");
        }
        if kani::any() {
            b = provide(b, &mut g);
        }
        if kani::any() {
            b = formatter(b, &mut g, 0);
        }
        kani::cover!(g.desc.is_some() && g.key.is_some() && g.a.is_some() && g.formatter.is_some());
        kani::cover!(g.desc.is_none() && g.key.is_none() && g.a.is_none() && g.formatter.is_none());
        match op {
            0 => b = describe(b, &mut g, s("e")),
            1 => b = meta(b, &mut g, s("2")),
            2 => b = meta_other(b, &mut g, s("3")),
            3 => b = provide(b, &mut g),
            4 => b = formatter(b, &mut g, 1),
            _ => {}
        }
        (b, g)
    }

    fn inspect(e: &MetricEntry, g: Given) {
        assert!(eq(e.name(), g.name), "[C11] another name");
        assert!(eq_opt(e.description(), g.desc), "[C11] another description");
        let m = e.metadata();
        assert!(eq_opt(m.get("k"), g.key), "[C11] another metadata value");
        assert!(eq_opt(m.get("l"), g.other), "[C11] another metadata value");
        assert!(m.get("z").is_none(), "[C11] metadata that was not given");
        assert!(m.len() == g.key.is_some() as usize + g.other.is_some() as usize, "[C11] other metadata pairs");
        match e.request_ref::<A>() {
            Some(x) => assert!(x.0 == g.a.unwrap_or(7), "[C11] another provided value"),
            None => assert!(false, "[C11] another provided value"),
        }
    }

    /// Contract of the default formatter (its text is C12's).
    fn default_stub(e: &MetricEntry, f: Format) -> String {
        called(2, e, f)
    }

    fn formatting(e: &MetricEntry, g: Given) {
        let prometheus: bool = kani::any();
        let s = e.formatted(if prometheus { Format::Prometheus } else { Format::Simple });
        let want = match g.formatter {
            Some(i) => i,
            None => 2,
        };
        unsafe {
            let mut i = 0;
            while i < 3 {
                assert!(CALLED[i] == (i == want) as u32, "[C11] another formatter");
                i += 1;
            }
            assert!(ENTRY == e as *const MetricEntry as *const () && PROMETHEUS == prometheus, "[C11] formatter called with another entry or format");
            assert!(eq(&s, NAMES[want]), "[C11] not the formatter's result");
        }
        std::mem::forget(s);
    }

    fn run(op: u8, boxed: bool, look: fn(&MetricEntry, Given)) {
        let (b, g) = builder(op);
        let boxed_metric: DynBoxedMetric<M>;
        let pinned_metric: std::pin::Pin<Box<DynPinnedMetric<M>>>;
        if boxed {
            boxed_metric = b.build(M(1, A(7)));
            std::mem::forget(boxed_metric);
        } else {
            let (p, e) = b.build_pinned(M(1, A(7)));
            pinned_metric = Box::pin(p);
            pinned_metric.as_ref().register(e);
            std::mem::forget(pinned_metric);
        }
        let list = metrics();
        let mut it = list.dynamic_metrics();
        match it.next() {
            Some(e) => look(e, g),
            None => assert!(false, "[C11] not listed"),
        }
        unsafe { assert!(collections::WHOLE_MAP_OPS == 0, "[shim] operation on a whole map") };
    }

    macro_rules! op {
        ($($n:expr, $a:ident, $b:ident, $c:ident, $d:ident;)*) => {$(
            #[kani::proof]
            #[kani::unwind(5)]
            fn $a() {
                run($n, true, inspect);
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn $b() {
                run($n, false, inspect);
            }
            #[kani::proof]
            #[kani::unwind(5)]
            #[kani::stub(metriken_core::default_formatter, default_stub)]
            fn $c() {
                run($n, true, formatting);
            }
            #[kani::proof]
            #[kani::unwind(5)]
            #[kani::stub(metriken_core::default_formatter, default_stub)]
            fn $d() {
                run($n, false, formatting);
            }
        )*};
    }
    op!(
        0, boxed_description, pinned_description, boxed_description_format, pinned_description_format;
        1, boxed_metadata, pinned_metadata, boxed_metadata_format, pinned_metadata_format;
        2, boxed_other_key, pinned_other_key, boxed_other_key_format, pinned_other_key_format;
        3, boxed_provide, pinned_provide, boxed_provide_format, pinned_provide_format;
        4, boxed_formatter, pinned_formatter, boxed_formatter_format, pinned_formatter_format;
        5, boxed_nothing, pinned_nothing, boxed_nothing_format, pinned_nothing_format;
    );
}
