//! C14: what a snapshot contains.
use crate::ctx::{set_case, Ctx};
use crate::gen::{sorted, Meta};
use crate::{check, same};
use metriken::{metric, metrics, AtomicHistogram, Counter, DynBoxedMetric, Format, Gauge, Lazy, Metric, MetricBuilder, MetricEntry, RwLockHistogram, Value};
use metriken_exposition::{Snapshot, SnapshotterBuilder};
use std::any::Any;
use std::collections::HashSet;
use std::sync::Mutex;
use std::time::SystemTime;

#[metric(name = "static.counter", description = "a counter", metadata = { unit = "x" })]
static C: Counter = Counter::new();
#[metric(name = "static.gauge")]
static G: Gauge = Gauge::new();
#[metric(name = "static.hist", formatter = loud)]
static H: AtomicHistogram = AtomicHistogram::new(2, 8);
#[metric(name = "static.lazy")]
static L: Lazy<Counter> = Lazy::new(Counter::new);
#[metric(name = "static.lazy.unused")]
static U: Lazy<Counter> = Lazy::new(|| panic!("observed"));

fn loud(e: &MetricEntry, f: Format) -> String {
    match f {
        Format::Simple => format!("{}!", e.name()),
        _ => "wrong format".into(),
    }
}

struct Off;
impl Metric for Off {
    fn is_enabled(&self) -> bool {
        false
    }
    fn as_any(&self) -> Option<&dyn Any> {
        None
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
}
struct Odd;
impl Metric for Odd {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Other(self))
    }
}
/// A metric of another type that reports a counter or gauge value.
struct Custom(i64, bool);
impl Metric for Custom {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(if self.1 { Value::Counter(self.0 as u64) } else { Value::Gauge(self.0) })
    }
}

#[allow(dead_code)]
enum Kept {
    C(DynBoxedMetric<Counter>),
    G(DynBoxedMetric<Gauge>),
    A(DynBoxedMetric<AtomicHistogram>),
    R(DynBoxedMetric<RwLockHistogram>),
    L(DynBoxedMetric<Lazy<Gauge>>),
    Off(DynBoxedMetric<Off>),
    Odd(DynBoxedMetric<Odd>),
    X(DynBoxedMetric<Custom>),
}

static ACCEPT: Mutex<Option<HashSet<String>>> = Mutex::new(None);
fn accept(e: &MetricEntry) -> bool {
    ACCEPT.lock().unwrap().as_ref().unwrap().contains(e.name())
}
fn none(_: &MetricEntry) -> bool {
    false
}

#[derive(Debug, PartialEq, Clone)]
enum Want {
    C(String, u64, std::collections::BTreeMap<String, String>),
    G(String, i64, std::collections::BTreeMap<String, String>),
    H(String, (u8, u8), Vec<u64>, std::collections::BTreeMap<String, String>),
}

fn expected(filter: u8) -> Vec<Want> {
    let mut out = Vec::new();
    for e in &metrics() {
        let keep = match filter {
            0 => true,
            1 => accept(e),
            _ => false,
        };
        if !keep {
            continue;
        }
        let name = e.formatted(Format::Simple);
        let mut md: std::collections::BTreeMap<String, String> = Default::default();
        let mut it = e.metadata().iter();
        while let Some((k, v)) = it.next() {
            md.insert(k.into(), v.into());
        }
        let own = md.clone();
        if let Some(d) = e.description() {
            md.insert("description".into(), d.into());
        }
        match Metric::value(e.metric()) {
            Some(Value::Counter(v)) => out.push(Want::C(name, v, md)),
            Some(Value::Gauge(v)) => out.push(Want::G(name, v, md)),
            Some(Value::Other(o)) => {
                let h = if let Some(h) = o.downcast_ref::<AtomicHistogram>() {
                    h.load()
                } else if let Some(h) = o.downcast_ref::<RwLockHistogram>() {
                    h.load()
                } else {
                    None
                };
                if let Some(h) = h {
                    let cfg = (h.config().grouping_power(), h.config().max_value_power());
                    let mut md = own;
                    md.insert("grouping_power".into(), cfg.0.to_string());
                    md.insert("max_value_power".into(), cfg.1.to_string());
                    if let Some(d) = e.description() {
                        md.insert("description".into(), d.into());
                    }
                    out.push(Want::H(name, cfg, h.as_slice().to_vec(), md));
                }
            }
            _ => {}
        }
    }
    out
}

/// How a metric is described; often as the one before it.
#[derive(Clone)]
struct Spec {
    name: String,
    description: Option<String>,
    metadata: Vec<(String, String)>,
    loud: bool,
    kind: usize,
    value: u64,
}

fn spec(c: &mut Ctx, i: usize, last: Option<&Spec>) -> Spec {
    let new = Spec {
        name: if c.chance(1, 3) { c.string() } else { format!("m{i}") },
        description: if c.chance(1, 2) { Some(c.string()) } else { None },
        metadata: (0..c.below(4)).map(|_| (crate::gen::key(c), c.string())).collect(),
        loud: c.chance(1, 4),
        kind: c.below(10),
        value: c.value_u64(),
    };
    let Some(last) = last else { return new };
    if !c.chance(1, 3) {
        return new;
    }
    // the same metric again, differing in at most one respect
    let mut s = last.clone();
    match c.below(7) {
        0 => s.name = new.name,
        1 => s.description = new.description,
        2 => s.metadata = new.metadata,
        3 => s.loud = new.loud,
        4 => s.kind = new.kind,
        5 => s.value = new.value,
        _ => {}
    }
    s
}

fn build(c: &mut Ctx, s: &Spec, log: &mut Vec<String>) -> Kept {
    let mut b = MetricBuilder::new(s.name.clone());
    let mut what = format!("{:?}", s.name);
    if let Some(d) = &s.description {
        what += &format!(" description {d:?}");
        b = b.description(d.clone());
    }
    for (k, v) in &s.metadata {
        what += &format!(" {k:?}={v:?}");
        b = b.metadata(k.clone(), v.clone());
    }
    if s.loud {
        b = b.formatter(loud);
        what += " own formatter";
    }
    let k = match s.kind {
        0 | 1 => {
            let v = s.value;
            what += &format!(" counter {v}");
            Kept::C(b.build(Counter::with_value(v)))
        }
        2 | 3 => {
            let v = s.value as i64;
            what += &format!(" gauge {v}");
            Kept::G(b.build(Gauge::with_value(v)))
        }
        4 => {
            let (gp, mvp) = *c.pick(&[(0u8, 1u8), (2, 8), (3, 64), (7, 10)]);
            let h = AtomicHistogram::new(gp, mvp);
            let n = c.below(4);
            for _ in 0..n {
                let v = c.value_u64();
                let _ = h.increment(if mvp == 64 { v } else { v & ((1 << mvp) - 1) });
            }
            what += &format!(" atomic histogram ({gp},{mvp}), {n} values");
            Kept::A(b.build(h))
        }
        5 => {
            let h = RwLockHistogram::new(1, 6);
            let n = h.config().total_buckets();
            let filled = c.chance(2, 3);
            if filled {
                let zero = c.chance(1, 3);
                let v: Vec<u64> = (0..n).map(|_| if zero { 0 } else { c.value_u64() }).collect();
                h.update_from(&v).unwrap();
            }
            what += &format!(" bulk histogram, updated: {filled}");
            Kept::R(b.build(h))
        }
        6 => {
            let l: Lazy<Gauge> = Lazy::new(|| Gauge::with_value(-3));
            let used = c.chance(1, 2);
            if used {
                Lazy::force(&l);
            }
            what += &format!(" lazy gauge, used: {used}");
            Kept::L(b.build(l))
        }
        7 => {
            what += " disabled";
            Kept::Off(b.build(Off))
        }
        8 => {
            what += " other kind";
            Kept::Odd(b.build(Odd))
        }
        _ => {
            let (v, k) = (s.value as i64, c.chance(1, 2));
            what += &format!(" custom {v} counter: {k}");
            Kept::X(b.build(Custom(v, k)))
        }
    };
    log.push(what);
    k
}

pub fn run(c: &mut Ctx) {
    for round in 0..c.scale(1500, 20000) {
        if round == 20 {
            H.increment(3).unwrap();
            L.add(5);
        }
        C.set(c.value_u64());
        G.set(c.value_u64() as i64);
        let mut log = Vec::new();
        let mut last: Option<Spec> = None;
        let mut kept: Vec<Kept> = Vec::new();
        for i in 0..c.below(9) {
            let s = spec(c, i, last.as_ref());
            kept.push(build(c, &s, &mut log));
            last = Some(s);
        }
        let filter = *c.pick(&[0u8, 0, 1, 1, 1, 2]);
        let names: Vec<String> = metrics().iter().map(|e| e.name().to_string()).collect();
        let set: HashSet<String> = names.into_iter().filter(|_| c.chance(1, 2)).collect();
        let mut shown: Vec<&String> = set.iter().collect();
        shown.sort();
        let case = format!("dynamic metrics {log:?}, filter {}", match filter { 0 => "none".into(), 1 => format!("{shown:?}"), _ => "rejects all".to_string() });
        set_case(case.clone());
        drop(shown);
        *ACCEPT.lock().unwrap() = Some(set);
        let mut b = SnapshotterBuilder::new();
        let mut own: Meta = Meta::new();
        let early = c.chance(1, 2);
        if early {
            b = match filter { 0 => b, 1 => b.filter(accept), _ => b.filter(none) };
        }
        for _ in 0..c.below(4) {
            let (k, v) = (crate::gen::key(c), c.string());
            own.insert(k.clone(), v.clone());
            b = b.metadata(k, v);
        }
        if !early {
            b = match filter { 0 => b, 1 => b.filter(accept), _ => b.filter(none) };
        }
        let s = b.build();
        let want = expected(filter);
        let before = SystemTime::now();
        for again in 0..2 {
            let (systemtime, metadata, cs, gs, hs) = match s.snapshot() {
                Snapshot::V1(s) => (s.systemtime, s.metadata, s.counters, s.gauges, s.histograms),
                Snapshot::V2(s) => (s.systemtime, s.metadata, s.counters, s.gauges, s.histograms),
            };
            check!(systemtime >= before && systemtime <= SystemTime::now(), "time of the snapshot");
            same!(sorted(&metadata), sorted(&own), "metadata of the snapshot (take {again})");
            let got: Vec<Want> = cs.into_iter().map(|x| Want::C(x.name, x.value, sorted(&x.metadata))).collect();
            same!(got, want.iter().filter(|w| matches!(w, Want::C(..))).cloned().collect::<Vec<_>>(), "counters");
            let got: Vec<Want> = gs.into_iter().map(|x| Want::G(x.name, x.value, sorted(&x.metadata))).collect();
            same!(got, want.iter().filter(|w| matches!(w, Want::G(..))).cloned().collect::<Vec<_>>(), "gauges");
            let got: Vec<Want> = hs
                .into_iter()
                .map(|x| Want::H(x.name, (x.value.config().grouping_power(), x.value.config().max_value_power()), x.value.as_slice().to_vec(), sorted(&x.metadata)))
                .collect();
            same!(got, want.iter().filter(|w| matches!(w, Want::H(..))).cloned().collect::<Vec<_>>(), "histograms");
        }
        check!(Lazy::get(&U).is_none(), "taking a snapshot initialised a lazy metric");
        c.eval(&case, || case.chars().take(400).collect());
        drop(kept);
    }
}
