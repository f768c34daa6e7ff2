//! Generated snapshots, and an independent model of what the file must hold.
use crate::ctx::Ctx;
use metriken_exposition::{Counter, Gauge, Histogram, Snapshot, SnapshotV1, SnapshotV2};
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, SystemTime};

pub type Meta = HashMap<String, String>;

pub const KEYS: &[&str] = &[
    "metric", "name", "op", "state", "direction", "unit", "grouping_power", "max_value_power", "id", "description",
    "metric_type", "a", "b", "zz", "A", "Metric", "metric ", "ID", "names", "", "é", "if", "m", "o", "source", "timestamp",
];

pub fn key(c: &mut Ctx) -> String {
    if c.chance(3, 4) {
        c.pick(KEYS).to_string()
    } else {
        c.string()
    }
}

pub fn meta(c: &mut Ctx) -> Meta {
    let n = match c.below(5) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => c.below(6),
        _ => c.below(16),
    };
    let mut m: Meta = (0..n).map(|_| (key(c), c.string())).collect();
    match c.below(4) {
        0 => {
            m.remove("metric");
        }
        1 | 2 if n > 0 => {
            let v = c.string();
            m.insert("metric".into(), v);
        }
        _ => {}
    }
    m
}

/// The column name of a metric (C15).
pub fn canon(name: &str, meta: &Meta) -> String {
    let Some(base) = meta.get("metric") else { return name.to_string() };
    let mut parts = vec![base.clone()];
    let first = ["name", "op", "state", "direction"];
    for k in first {
        parts.extend(meta.get(k).cloned());
    }
    let mut rest: Vec<(&String, &String)> = meta
        .iter()
        .filter(|(k, _)| !first.contains(&k.as_str()) && !["metric", "unit", "grouping_power", "max_value_power", "id"].contains(&k.as_str()))
        .collect();
    rest.sort();
    parts.extend(rest.into_iter().map(|(_, v)| v.clone()));
    parts.extend(meta.get("id").cloned());
    parts.join("/")
}

pub struct Names {
    pub list: Vec<(String, Meta)>,
}

impl Names {
    /// A small pool so that metrics recur across snapshots and kinds.
    pub fn new(c: &mut Ctx) -> Self {
        let n = 1 + c.below(7);
        let mut list: Vec<(String, Meta)> = (0..n)
            .map(|_| {
                let name = c.string();
                let m = meta(c);
                (name, m)
            })
            .collect();
        // the same name with other metadata
        if c.chance(1, 2) {
            let (n, _) = c.pick(&list).clone();
            let m = meta(c);
            list.push((n, m));
        }
        // other metadata that makes no difference to the column name
        if c.chance(1, 2) {
            let (n, mut m) = c.pick(&list).clone();
            m.insert(if m.contains_key("metric") { "unit".into() } else { "foo".into() }, c.string());
            list.push((n, m));
        }
        Names { list }
    }
    fn pick(&self, c: &mut Ctx) -> (String, Meta) {
        c.pick(&self.list).clone()
    }
}

pub fn histogram(c: &mut Ctx) -> ::histogram::Histogram {
    let (gp, mvp) = *c.pick(&[(0u8, 1u8), (0, 3), (1, 3), (2, 6), (3, 64), (7, 8), (5, 20), (0, 64)]);
    let n = ::histogram::Config::new(gp, mvp).unwrap().total_buckets();
    let density = c.below(4);
    let v: Vec<u64> = (0..n)
        .map(|_| match density {
            0 => 0,
            1 => (c.below(8) == 0) as u64,
            2 => {
                if c.chance(1, 3) {
                    c.value_u64()
                } else {
                    0
                }
            }
            _ => c.u64() | 1,
        })
        .collect();
    ::histogram::Histogram::from_buckets(gp, mvp, v).unwrap()
}

pub fn time(c: &mut Ctx) -> SystemTime {
    let ns = match c.below(4) {
        0 => c.below(5) as u64,
        1 => 1_700_000_000_000_000_000 + c.u64() % 1_000_000_000_000_000_000,
        2 => u64::MAX - c.below(3) as u64,
        _ => c.value_u64(),
    };
    SystemTime::UNIX_EPOCH + Duration::from_nanos(ns)
}

pub fn span(c: &mut Ctx) -> Duration {
    match c.below(3) {
        0 => Duration::from_nanos(c.below(3) as u64),
        _ => Duration::from_nanos(c.value_u64()),
    }
}

pub fn snapshot(c: &mut Ctx, names: &Names) -> Snapshot {
    let many = if c.chance(1, 4) { 8 } else { 3 };
    let counters: Vec<Counter> = (0..c.below(many))
        .map(|_| {
            let (name, metadata) = names.pick(c);
            Counter { name, metadata, value: c.value_u64() }
        })
        .collect();
    let gauges: Vec<Gauge> = (0..c.below(many))
        .map(|_| {
            let (name, metadata) = names.pick(c);
            Gauge { name, metadata, value: c.value_u64() as i64 }
        })
        .collect();
    let histograms: Vec<Histogram> = (0..c.below(many))
        .map(|_| {
            let (name, metadata) = names.pick(c);
            Histogram { name, metadata, value: histogram(c) }
        })
        .collect();
    let metadata = if c.chance(1, 2) { Meta::new() } else { meta(c) };
    let systemtime = time(c);
    if c.chance(1, 2) {
        Snapshot::V1(SnapshotV1 { systemtime, metadata, counters, gauges, histograms })
    } else {
        Snapshot::V2(SnapshotV2 { systemtime, duration: span(c), metadata, counters, gauges, histograms })
    }
}

/// The parts of a snapshot, read without the crate's accessors.
pub struct Parts {
    pub time: u64,
    pub duration: Option<u64>,
    pub metadata: Meta,
    pub counters: Vec<Counter>,
    pub gauges: Vec<Gauge>,
    pub histograms: Vec<Histogram>,
}

pub fn parts(s: &Snapshot) -> Parts {
    let ns = |t: &SystemTime| t.duration_since(SystemTime::UNIX_EPOCH).unwrap().as_nanos() as u64;
    match s {
        Snapshot::V1(s) => Parts {
            time: ns(&s.systemtime),
            duration: None,
            metadata: s.metadata.clone(),
            counters: s.counters.clone(),
            gauges: s.gauges.clone(),
            histograms: s.histograms.clone(),
        },
        Snapshot::V2(s) => Parts {
            time: ns(&s.systemtime),
            duration: Some(s.duration.as_nanos() as u64),
            metadata: s.metadata.clone(),
            counters: s.counters.clone(),
            gauges: s.gauges.clone(),
            histograms: s.histograms.clone(),
        },
    }
}

pub fn show(s: &Snapshot) -> String {
    let p = parts(s);
    let mut o = format!("{{time {} ns, duration {:?}, metadata {:?}", p.time, p.duration, sorted(&p.metadata));
    for x in &p.counters {
        o += &format!(", counter {:?} {} {:?}", x.name, x.value, sorted(&x.metadata));
    }
    for x in &p.gauges {
        o += &format!(", gauge {:?} {} {:?}", x.name, x.value, sorted(&x.metadata));
    }
    for x in &p.histograms {
        let nz: Vec<(usize, u64)> = x.value.as_slice().iter().copied().enumerate().filter(|p| p.1 != 0).take(5).collect();
        o += &format!(", histogram {:?} {:?} nonzero {:?} {:?}", x.name, x.value.config(), nz, sorted(&x.metadata));
    }
    o + "}"
}

pub fn sorted(m: &Meta) -> BTreeMap<String, String> {
    m.clone().into_iter().collect()
}

/// Snapshots with many metrics of every kind, each holding some of them.
pub fn many(c: &mut Ctx) -> Vec<Snapshot> {
    let meta = |i: usize| if i % 3 == 0 { Meta::from([("metric".to_string(), "m".to_string()), ("id".to_string(), i.to_string())]) } else { Meta::new() };
    (0..4)
        .map(|k| {
            let ids: Vec<usize> = (0..300).filter(|i| i % (k + 1) == 0 || c.chance(1, 4)).map(|i| (i * 7919) % 300).collect();
            let counters = ids.iter().map(|i| Counter { name: format!("c{i}"), value: c.value_u64(), metadata: meta(*i) }).collect();
            let gauges = ids.iter().rev().map(|i| Gauge { name: format!("c{i}"), value: c.value_u64() as i64, metadata: meta(*i) }).collect();
            let histograms = ids.iter().take(60).map(|i| Histogram { name: format!("h{i}"), value: histogram(c), metadata: meta(*i) }).collect();
            Snapshot::V2(SnapshotV2 { systemtime: time(c), duration: span(c), metadata: Meta::new(), counters, gauges, histograms })
        })
        .collect()
}
