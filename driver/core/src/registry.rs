//! C06 (lifetime of dynamic metrics) and C09 (registration is transparent).
use crate::ctx::{set_case, Ctx};
use crate::{check, same};
use metriken::{metrics, Counter, DynBoxedMetric, Gauge, Metric, MetricBuilder, MetricEntry, Value};
use metriken_core::dynmetrics::DynPinnedMetric;
use metriken_core::Request;
use std::any::Any;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

/// A metric with N extra bytes and an identity.
struct Sized_<const N: usize> {
    id: u64,
    _pad: [u8; N],
}
impl<const N: usize> Metric for Sized_<N> {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.id))
    }
}

#[repr(align(64))]
struct Aligned(u64);
impl Metric for Aligned {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.0))
    }
}

/// Zero-sized metrics; their identity is the type.
struct Zst<const N: u64>;
impl<const N: u64> Metric for Zst<N> {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(N))
    }
}

/// A metric that notes its own drop and must be unlisted by then.
struct Noisy {
    id: u64,
}
static NOISY_LISTED: AtomicBool = AtomicBool::new(false);
impl Drop for Noisy {
    fn drop(&mut self) {
        let m = metrics();
        for e in m.dynamic_metrics() {
            if e.metadata().get("id") == Some(&self.id.to_string()) {
                NOISY_LISTED.store(true, Ordering::SeqCst);
            }
        }
        self.id = u64::MAX;
    }
}
impl Metric for Noisy {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.id))
    }
}

enum Live {
    Boxed(Box<dyn Owner>),
    Pinned(Box<dyn PinnedDyn>),
}
trait PinnedDyn {
    fn register(&self, e: MetricEntry);
    fn inner_id(&self) -> u64;
}
trait Owner {
    fn inner_id(&self) -> u64;
}
struct Bx<M: Metric>(DynBoxedMetric<M>);
impl<M: Metric> Owner for Bx<M> {
    fn inner_id(&self) -> u64 {
        id_of(&*self.0)
    }
}
struct P<M: Metric>(Pin<Box<DynPinnedMetric<M>>>);
impl<M: Metric> PinnedDyn for P<M> {
    fn register(&self, e: MetricEntry) {
        self.0.as_ref().register(e)
    }
    fn inner_id(&self) -> u64 {
        id_of(&**self.0)
    }
}

fn id_of(m: &dyn Metric) -> u64 {
    match m.value() {
        Some(Value::Counter(v)) => v,
        Some(Value::Gauge(v)) => v as u64,
        _ => u64::MAX,
    }
}

struct Slot {
    id: u64,
    lazy: bool,
    live: Live,
    // name, description if registered
    listed: Option<(String, Option<String>)>,
}

/// Some metrics share their name.
fn name_of(id: u64) -> String {
    match id % 5 {
        0 => "same".into(),
        1 if id % 2 == 0 => String::new(),
        _ => format!("m{id}"),
    }
}

fn builder(id: u64, desc: bool) -> MetricBuilder {
    let b = MetricBuilder::new(name_of(id)).metadata("id", id.to_string());
    if desc {
        b.description(format!("d{id}"))
    } else {
        b
    }
}

const KINDS: usize = 9;

fn make(id: u64, kind: usize, boxed: bool, desc: bool) -> (Live, Option<MetricEntry>) {
    fn go<M: Metric>(m: M, id: u64, boxed: bool, desc: bool) -> (Live, Option<MetricEntry>) {
        if boxed {
            (Live::Boxed(Box::new(Bx(builder(id, desc).build(m)))), None)
        } else {
            let (p, e) = builder(id, desc).build_pinned(m);
            (Live::Pinned(Box::new(P(Box::pin(p)))), Some(e))
        }
    }
    match kind {
        0 => go(Counter::with_value(id), id, boxed, desc),
        1 => go(Gauge::with_value(id as i64), id, boxed, desc),
        2 => go(Sized_::<0> { id, _pad: [] }, id, boxed, desc),
        3 => go(Sized_::<1> { id, _pad: [0] }, id, boxed, desc),
        4 => go(Sized_::<300> { id, _pad: [0; 300] }, id, boxed, desc),
        5 => go(Aligned(id), id, boxed, desc),
        6 => go(Noisy { id }, id, boxed, desc),
        7 => go(Sized_::<4096> { id, _pad: [0; 4096] }, id, boxed, desc),
        _ => go(metriken::Lazy::<Counter, _>::new(move || Counter::with_value(id)), id, boxed, desc),
    }
}

/// The listing is exactly what the model says.
fn compare(slots: &[Slot]) {
    let m = metrics();
    let mut want: Vec<(u64, String, Option<String>)> = slots
        .iter()
        .filter_map(|s| s.listed.clone().map(|(n, d)| (s.id, n, d)))
        .collect();
    want.sort();
    // names first: an entry of a dropped metric must not be followed
    let mut names: Vec<String> = m.dynamic_metrics().map(|e| e.name().to_string()).collect();
    let mut want_names: Vec<String> = want.iter().map(|w| w.1.clone()).collect();
    names.sort();
    want_names.sort();
    same!(names, want_names, "names of the listed dynamic metrics");
    let mut got: Vec<(u64, String, Option<String>)> = Vec::new();
    for e in m.dynamic_metrics() {
        let name = e.name().to_string();
        let value = match Metric::value(&**e) {
            Some(Value::Counter(v)) => v,
            Some(Value::Gauge(v)) => v as u64,
            // an uninitialised lazy metric: identified by its metadata
            None if !e.is_enabled() => e.metadata().get("id").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX),
            _ => u64::MAX,
        };
        check!(e.metadata().get("id") == Some(&value.to_string()), "entry {name} refers to another metric: value {value}, id {:?}", e.metadata().get("id"));
        got.push((value, name, e.description().map(|s| s.to_string())));
    }
    got.sort();
    same!(got, want, "listed dynamic metrics (id, name, description)");
    let all = m.iter().count();
    same!(all, want.len() + m.static_metrics().len(), "number of listed metrics");
}

pub fn run(c: &mut Ctx) {
    let mut next_id = 1u64;
    for round in 0..c.scale(400, 4000) {
        let mut slots: Vec<Slot> = Vec::new();
        let mut hist = String::new();
        let steps = 1 + c.below(if round % 10 == 0 { 60 } else { 14 });
        for _ in 0..steps {
            let n = slots.len();
            match c.below(10) {
                0..=4 => {
                    let (kind, boxed, desc) = (c.below(KINDS), c.chance(1, 2), c.chance(1, 2));
                    let id = next_id;
                    next_id += 1;
                    hist.push_str(&format!("; build m{id} kind {kind} boxed {boxed} description {desc}"));
                    set_case(hist.clone());
                    let (live, entry) = make(id, kind, boxed, desc);
                    let mut s = Slot { id, lazy: kind == 8, live, listed: None };
                    let meta = (name_of(id), desc.then(|| format!("d{id}")));
                    if boxed {
                        s.listed = Some(meta);
                    } else if let (Some(e), true) = (entry, c.chance(4, 5)) {
                        hist.push_str(&format!("; register m{id}"));
                        set_case(hist.clone());
                        if let Live::Pinned(p) = &s.live {
                            p.register(e);
                        }
                        s.listed = Some(meta);
                    }
                    slots.push(s);
                }
                5 if n > 0 && c.chance(1, 2) => {
                    // Registering a pinned metric (again) replaces its entry.
                    let i = c.below(n);
                    let (k, desc) = (c.below(3), c.chance(1, 2));
                    let s = &mut slots[i];
                    if let Live::Pinned(p) = &s.live {
                        let id = s.id;
                        hist.push_str(&format!("; register m{id} as m{id}-{k} description {desc}"));
                        set_case(hist.clone());
                        let b = MetricBuilder::new(format!("m{id}-{k}"));
                        let b = if desc { b.description(format!("e{k}")) } else { b };
                        p.register(b.into_entry());
                        s.listed = Some((format!("m{id}-{k}"), desc.then(|| format!("e{k}"))));
                    }
                }
                5 if n > 0 => {
                    // Move the owner around: the entry must follow the metric.
                    let (i, j) = (c.below(n), c.below(n));
                    hist.push_str(&format!("; swap owners of m{} and m{}", slots[i].id, slots[j].id));
                    slots.swap(i, j);
                }
                _ if n > 0 => {
                    let i = c.below(n);
                    hist.push_str(&format!("; drop m{}", slots[i].id));
                    set_case(hist.clone());
                    let s = slots.remove(i);
                    let got = match &s.live {
                        Live::Pinned(p) => p.inner_id(),
                        Live::Boxed(p) => p.inner_id(),
                    };
                    check!(s.lazy || got == s.id, "access through the owner reaches another metric: {got}");
                    drop(s);
                    check!(!NOISY_LISTED.load(Ordering::SeqCst), "a metric was still listed while being dropped");
                }
                _ => {}
            }
            set_case(hist.clone());
            compare(&slots);
        }
        hist.push_str("; drop all");
        set_case(hist.clone());
        while !slots.is_empty() {
            let i = if round % 3 == 0 { 0 } else { slots.len() - 1 };
            drop(slots.remove(i));
            compare(&slots);
        }
        c.eval(&hist, || hist.clone());
    }
    // many live at once
    set_case("300 live metrics, dropped in a scattered order".into());
    let mut slots: Vec<Slot> = Vec::new();
    for i in 0..300u64 {
        let (live, _) = make(next_id, i as usize % KINDS, true, i % 2 == 0);
        slots.push(Slot { id: next_id, lazy: false, live, listed: Some((name_of(next_id), (i % 2 == 0).then(|| format!("d{next_id}")))) });
        next_id += 1;
    }
    compare(&slots);
    while !slots.is_empty() {
        let i = c.below(slots.len());
        drop(slots.swap_remove(i));
        if slots.len() % 16 == 0 {
            compare(&slots);
        }
    }
    compare(&slots);
    c.eval("300", || "300 live metrics".into());
    // pinned metrics side by side in one allocation
    fn dense<M: Metric>(c: &mut Ctx, what: &str, next_id: &mut u64, make: fn(u64) -> M) {
        for n in [2usize, 3, 7, 40] {
            set_case(format!("{n} pinned metrics ({what}, {} bytes each) side by side in one allocation", std::mem::size_of::<DynPinnedMetric<M>>()));
            let mut row = Vec::with_capacity(n);
            let mut want = Vec::new();
            let mut entries = Vec::new();
            for _ in 0..n {
                let id = *next_id;
                *next_id += 1;
                let (p, e) = builder(id, false).build_pinned(make(id));
                row.push(Some(p));
                entries.push(e);
                want.push(Some(name_of(id)));
            }
            let check_all = |want: &[Option<String>]| {
                let mut names: Vec<String> = metrics().dynamic_metrics().map(|e| e.name().to_string()).collect();
                names.sort();
                let mut w: Vec<String> = want.iter().flatten().cloned().collect();
                w.sort();
                same!(names, w, "names of the listed dynamic metrics");
                for e in metrics().dynamic_metrics() {
                    let v = id_of(e.metric());
                    check!(e.name() == name_of(v) || v == 0, "entry {} refers to another metric: {v}", e.name());
                }
            };
            for (p, e) in row.iter().zip(entries) {
                // `row` keeps its buffer until the end and each metric stays in its place
                unsafe { Pin::new_unchecked(p.as_ref().unwrap()) }.register(e);
            }
            check_all(&want);
            for k in 0..n {
                let i = (k * 7 + 1) % n;
                let i = (0..n).map(|d| (i + d) % n).find(|i| row[*i].is_some()).unwrap();
                row[i] = None;
                want[i] = None;
                check_all(&want);
            }
            c.eval((what, n), || format!("{n} pinned {what} side by side"));
        }
    }
    dense(c, "counter", &mut next_id, Counter::with_value);
    dense(c, "zero-sized", &mut next_id, |_| Zst::<0>);
    dense(c, "one byte larger", &mut next_id, |id| Sized_::<1> { id, _pad: [0] });
    dense(c, "aligned", &mut next_id, Aligned);
    // zero-sized metric types, distinct entries
    set_case("zero-sized metrics, boxed and pinned".into());
    {
        let a = MetricBuilder::new("z1").metadata("id", "1").build(Zst::<1>);
        let b = MetricBuilder::new("z2").metadata("id", "2").build(Zst::<2>);
        let b2 = MetricBuilder::new("z3").metadata("id", "1").build(Zst::<1>);
        let list = || {
            let m = metrics();
            let mut v: Vec<_> = m.dynamic_metrics().map(|e| (e.name().to_string(), id_of(e.metric()))).collect();
            v.sort();
            v
        };
        same!(list(), vec![("z1".to_string(), 1), ("z2".to_string(), 2), ("z3".to_string(), 1)], "zero-sized metrics listed");
        drop(b);
        same!(list(), vec![("z1".to_string(), 1), ("z3".to_string(), 1)], "after dropping z2");
        drop(a);
        same!(list(), vec![("z3".to_string(), 1)], "after dropping z1");
        drop(b2);
        same!(list(), vec![], "after dropping all");
        let (p, e) = MetricBuilder::new("zp").build_pinned(Zst::<4>);
        let p = Box::pin(p);
        p.as_ref().register(e);
        let (q, f) = MetricBuilder::new("zq").build_pinned(Zst::<4>);
        let q = Box::pin(q);
        q.as_ref().register(f);
        drop(q);
        same!(list(), vec![("zp".to_string(), 4)], "pinned zero-sized");
        drop(p);
        same!(list(), vec![], "none left");
    }
    c.eval("zst", || "zero-sized metrics".into());
    // re-registration of a pinned metric replaces or repeats its entry; never leaves one behind
    set_case("pinned metric registered repeatedly".into());
    for n in 1..6 {
        let (p, e) = MetricBuilder::new("first").description("one").build_pinned(Counter::with_value(9));
        let p = Box::pin(p);
        p.as_ref().register(e);
        for k in 1..n {
            let (_tmp, e) = MetricBuilder::new(format!("again{k}")).build_pinned(Counter::with_value(1));
            p.as_ref().register(e);
        }
        {
            let m = metrics();
            let last = if n == 1 { "first".to_string() } else { format!("again{}", n - 1) };
            let names: Vec<_> = m.dynamic_metrics().map(|e| e.name().to_string()).collect();
            check!(names.contains(&last), "latest registration missing: {names:?}");
            for e in m.dynamic_metrics() {
                same!(id_of(e.metric()), 9, "entry of another metric");
                check!(e.is(&**p), "entry does not recognise its metric");
            }
        }
        drop(p);
        same!(metrics().dynamic_metrics().count(), 0, "entries left behind");
        c.eval(("rereg", n), || format!("registered {n} times"));
    }
    // unwinding drops them too
    set_case("dropped by unwinding".into());
    let r = crate::ctx::catch(|| {
        let _a = MetricBuilder::new("unwind").build(Counter::new());
        panic!("unwind");
    });
    check!(r.is_err(), "panic");
    same!(metrics().dynamic_metrics().count(), 0, "entries left behind by unwinding");
    c.eval("unwind", || "dropped by unwinding".into());
    // a list that is held for long while others register and drop
    for hold in [0u64, 30, 250, c.scale(1300, 5000) as u64] {
        set_case(format!("#the list of metrics is held for {hold} ms while a metric is built, one registered and two dropped"));
        let a = MetricBuilder::new("dropped").build(Counter::with_value(1));
        let (p, entry) = MetricBuilder::new("dropped.pinned").build_pinned(Counter::with_value(2));
        let p = Box::pin(p);
        p.as_ref().register(entry);
        let (q, entry) = MetricBuilder::new("registered").build_pinned(Counter::with_value(3));
        let q = Box::pin(q);
        let held = std::sync::Barrier::new(5);
        let built = std::thread::scope(|s| {
            let (held, q) = (&held, &q);
            s.spawn(move || {
                held.wait();
                drop(a);
            });
            s.spawn(move || {
                held.wait();
                drop(p);
            });
            s.spawn(move || {
                held.wait();
                q.as_ref().register(entry);
            });
            let built = s.spawn(move || {
                held.wait();
                MetricBuilder::new("built").build(Counter::with_value(4))
            });
            let m = metrics();
            held.wait();
            std::thread::sleep(std::time::Duration::from_millis(hold));
            let mut now: Vec<(&str, u64)> = m.dynamic_metrics().map(|e| (e.name(), id_of(e.metric()))).collect();
            now.sort();
            same!(now, [("dropped", 1), ("dropped.pinned", 2)], "list while it is held");
            drop(m);
            built.join().unwrap()
        });
        let m = metrics();
        let mut now: Vec<&str> = m.dynamic_metrics().map(|e| e.name()).collect();
        now.sort();
        same!(now, ["built", "registered"], "list after it was held");
        drop(m);
        drop(built);
        drop(q);
        same!(metrics().dynamic_metrics().count(), 0, "entries left behind");
        c.eval(("held", hold), || format!("list held for {hold} ms"));
    }
    // concurrent builders, droppers and readers
    for round in 0..c.scale(12, 120) {
        set_case(format!("#concurrent builders and readers, round {round}"));
        let stop = AtomicBool::new(false);
        let keep = MetricBuilder::new("keep").description("kept").build(Counter::with_value(77));
        std::thread::scope(|s| {
            let workers: Vec<_> = (0..4u64)
                .map(|t| {
                    s.spawn(move || {
                        for i in 0..150u64 {
                            let id = (t + 1) * 1_000_000 + i;
                            let a: DynBoxedMetric<Counter> = MetricBuilder::new(format!("m{id}")).build(Counter::with_value(id));
                            let b = MetricBuilder::new(format!("m{}", id + 500_000)).build(Sized_::<40> { id: id + 500_000, _pad: [1; 40] });
                            let m = metrics();
                            let mine: Vec<u64> = m.dynamic_metrics().filter(|e| e.name() == format!("m{id}")).map(|e| id_of(e.metric())).collect();
                            drop(m);
                            check!(mine == [id], "own live metric listed as {mine:?}");
                            if i % 2 == 0 {
                                drop(a);
                                let m = metrics();
                                check!(m.dynamic_metrics().all(|e| e.name() != format!("m{id}")), "dropped metric still listed");
                                check!(m.dynamic_metrics().any(|e| e.name() == format!("m{}", id + 500_000)), "live metric lost by another's drop");
                                drop(m);
                                drop(b);
                            } else {
                                drop(b);
                                drop(a);
                            }
                        }
                    })
                })
                .collect();
            for _ in 0..2 {
                let stop = &stop;
                s.spawn(move || {
                    while !stop.load(Ordering::Relaxed) {
                        let m = metrics();
                        let mut kept = 0;
                        for e in m.dynamic_metrics() {
                            let id = id_of(e.metric());
                            if e.name() == "keep" {
                                kept += 1;
                                check!(id == 77 && e.description() == Some("kept"), "kept entry changed");
                            } else {
                                check!(e.name() == format!("m{id}"), "entry {} refers to metric {id}", e.name());
                            }
                        }
                        check!(kept == 1, "unrelated metric listed {kept} times");
                    }
                });
            }
            for w in workers {
                w.join().unwrap();
            }
            stop.store(true, Ordering::Relaxed);
        });
        same!(keep.value(), 77, "kept metric");
        drop(keep);
        same!(metrics().dynamic_metrics().count(), 0, "entries left behind");
        c.eval(("conc", round), || "4 builders, 2 readers".into());
    }
}

// ---------------------------------------------------------------- C09

#[derive(Default)]
struct Odd {
    enabled: AtomicBool,
    any: AtomicU64,
    kind: AtomicU64,
    value: AtomicU64,
    provides: AtomicBool,
    text: String,
}

impl Metric for Odd {
    fn is_enabled(&self) -> bool {
        self.enabled.load(Ordering::SeqCst)
    }
    fn as_any(&self) -> Option<&dyn Any> {
        match self.any.load(Ordering::SeqCst) {
            0 => None,
            1 => Some(self),
            _ => Some(&self.value),
        }
    }
    fn value(&self) -> Option<Value<'_>> {
        let v = self.value.load(Ordering::SeqCst);
        match self.kind.load(Ordering::SeqCst) {
            0 => None,
            1 => Some(Value::Counter(v)),
            2 => Some(Value::Gauge(v as i64)),
            _ => Some(Value::Other(&self.kind)),
        }
    }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        if self.provides.load(Ordering::SeqCst) {
            r.provide_value(self.value.load(Ordering::SeqCst))
                .provide_ref::<str>(&self.text)
                .provide_ref(&self.text)
                .provide_value(self as *const Odd as usize);
        }
    }
}

#[metriken::metric(name = "odd.static", description = "static odd", metadata = { a = "b" })]
static STATIC_ODD: Odd = Odd {
    enabled: AtomicBool::new(false),
    any: AtomicU64::new(0),
    kind: AtomicU64::new(0),
    value: AtomicU64::new(0),
    provides: AtomicBool::new(false),
    text: String::new(),
};
#[metriken::metric]
static STATIC_COUNTER: Counter = Counter::with_value(4);
#[metriken::metric(metadata = { x = "1" })]
static STATIC_GAUGE: Gauge = Gauge::with_value(-4);

/// A metric type that relies on the trait's default methods.
struct Defaults(bool);
impl Metric for Defaults {
    fn as_any(&self) -> Option<&dyn Any> {
        self.0.then_some(self as &dyn Any)
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
}

fn shape(v: &Option<Value>) -> (u8, u64) {
    match v {
        None => (0, 0),
        Some(Value::Counter(x)) => (1, *x),
        Some(Value::Gauge(x)) => (2, *x as u64),
        Some(Value::Other(x)) => (3, *x as *const dyn Any as *const () as u64),
        _ => (9, 0),
    }
}
fn any_shape(m: &dyn Metric) -> Option<(u64, std::any::TypeId)> {
    m.as_any().map(|a| (a as *const dyn Any as *const () as u64, a.type_id()))
}

fn agree(e: &MetricEntry, m: &dyn Metric, what: &str) {
    for who in [&**e as &dyn Metric, e.metric()] {
        same!(who.is_enabled(), m.is_enabled(), "{what}: enabled");
        same!(shape(&who.value()), shape(&m.value()), "{what}: value");
        same!(any_shape(who), any_shape(m), "{what}: as_any");
    }
    same!(e.request_value::<u64>(), metriken_core::request_value::<u64>(m), "{what}: provided u64 value");
    same!(e.request_ref::<str>().map(|s| s.as_ptr()), metriken_core::request_ref::<str>(m).map(|s| s.as_ptr()), "{what}: provided str");
    same!(e.request_ref::<String>().map(|s| s as *const String), metriken_core::request_ref::<String>(m).map(|s| s as *const String), "{what}: provided String");
    same!(e.request_value::<usize>(), metriken_core::request_value::<usize>(m), "{what}: provided identity");
    same!(e.request_value::<i8>(), None, "{what}: unprovided type");
    same!(e.request_ref::<u64>(), metriken_core::request_ref::<u64>(m), "{what}: provided u64 ref");
}

pub fn transparent(c: &mut Ctx) {
    set_case("static entries".into());
    for round in 0..c.scale(3, 12) {
        let boxed = MetricBuilder::new("odd.boxed").metadata("k", "v").provide(5u8).build(Odd { text: "boxed".into(), ..Odd::default() });
        let (p, e) = MetricBuilder::new("odd.pinned").build_pinned(Odd { text: "pinned".into(), ..Odd::default() });
        let pinned = Box::pin(p);
        if round % 3 != 2 {
            pinned.as_ref().register(e);
        }
        let others: Vec<DynBoxedMetric<Counter>> = (0..5u64).map(|i| MetricBuilder::new(format!("c{i}")).build(Counter::with_value(i))).collect();
        let big = MetricBuilder::new("big").build(Sized_::<700> { id: 700, _pad: [0; 700] });
        let small = MetricBuilder::new("small").build(Sized_::<1> { id: 1, _pad: [0] });
        let deft = MetricBuilder::new("deft").build(Defaults(true));
        let deff = MetricBuilder::new("deff").build(Defaults(false));
        let unregistered: Vec<Counter> = (0..3).map(Counter::with_value).collect();
        let m = metrics();
        // every reachable state of the metric, as seen by the entry
        for e in [false, true] {
            for a in 0..3 {
                for k in 0..4 {
                    for p in [false, true] {
                        for v in [0u64, 1, u64::MAX, 1 << 63] {
                            set_case(format!("metric state enabled={e} any={a} kind={k} provides={p} value={v}"));
                            let targets: [(&Odd, &str); 3] = [(&STATIC_ODD, "odd.static"), (&boxed, "odd.boxed"), (&pinned, "odd.pinned")];
                            for (o, _) in targets {
                                o.enabled.store(e, Ordering::SeqCst);
                                o.any.store(a, Ordering::SeqCst);
                                o.kind.store(k, Ordering::SeqCst);
                                o.provides.store(p, Ordering::SeqCst);
                                o.value.store(v, Ordering::SeqCst);
                            }
                            for (o, name) in targets {
                                if let Some(entry) = m.iter().find(|e| e.name() == name) {
                                    agree(entry, o, name);
                                }
                            }
                            c.eval((e, a, k, p, v, round % 3), || format!("odd metric enabled={e} any={a} kind={k} provides={p} value={v}"));
                        }
                    }
                }
            }
        }
        // what the registration supplies stays in force next to it
        for e in m.iter() {
            match e.name() {
                "odd.static" => same!(e.metadata().get("a"), Some("b"), "static metadata"),
                "odd.boxed" => {
                    same!(e.metadata().get("k"), Some("v"), "boxed metadata");
                    same!(e.request_ref::<u8>(), Some(&5), "provided value");
                }
                _ => {}
            }
        }
        set_case("each entry agrees with and recognises its own metric only".into());
        let mut all: Vec<(&str, &dyn Metric)> = vec![
            ("odd.static", &STATIC_ODD), ("STATIC_COUNTER", &STATIC_COUNTER), ("STATIC_GAUGE", &STATIC_GAUGE),
            ("odd.boxed", &*boxed), ("odd.pinned", &**pinned), ("big", &*big), ("small", &*small), ("deft", &*deft), ("deff", &*deff),
        ];
        let names: Vec<String> = (0..5).map(|i| format!("c{i}")).collect();
        for (i, o) in others.iter().enumerate() {
            all.push((&names[i], &**o));
        }
        for u in &unregistered {
            all.push(("", u));
        }
        STATIC_COUNTER.add(1);
        STATIC_GAUGE.sub(1);
        others[2].add(1 + round as u64);
        for entry in m.iter() {
            let mut own = 0;
            for (name, metric) in &all {
                let is = entry.is(*metric);
                let expected = entry.name() == *name;
                own += is as usize;
                check!(is == expected, "entry {} is() says {is} for metric {name:?}", entry.name());
                if expected {
                    agree(entry, *metric, name);
                }
                c.eval(("is", entry.name().to_string(), name.to_string()), || format!("{} is {name}", entry.name()));
            }
            same!(own, all.iter().filter(|(name, _)| *name == entry.name()).count(), "metrics that entry {} recognises", entry.name());
        }
        drop(m);
    }
    // entries without a metric
    set_case("entry without a metric".into());
    for e in [
        MetricBuilder::new("none").into_entry(),
        MetricBuilder::new("none").description("d").metadata("a", "b").into_entry(),
        MetricBuilder::new("none").build_pinned(Counter::with_value(3)).1,
    ] {
        check!(!e.is_enabled(), "enabled");
        check!(Metric::value(&*e).is_none(), "has a value");
        check!(e.as_any().is_none(), "as_any");
        check!(!e.is(&STATIC_COUNTER), "recognises a metric");
        same!(e.name(), "none", "name");
        c.eval(("null", e.description().is_some()), || "entry without metric".into());
    }
}
