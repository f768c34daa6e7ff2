//! C11: what a built metric carries, against the sequence of builder calls.
use crate::ctx::{set_case, Ctx};
use crate::meta::check_map;
use crate::same;
use metriken::{default_formatter, metrics, Counter, DynBoxedMetric, DynPinnedMetric, Format, Gauge, Metadata, MetricBuilder, MetricEntry};
use std::collections::BTreeMap;
use std::pin::Pin;

#[derive(Debug, PartialEq, Clone, Copy)]
struct P1(u64);
#[derive(Debug, PartialEq, Clone, Copy)]
struct P2(u64);
type P3 = (String, u64);

fn f1(e: &MetricEntry, f: Format) -> String {
    format!("f1:{}:{}", e.name(), matches!(f, Format::Prometheus))
}
fn f2(e: &MetricEntry, f: Format) -> String {
    format!("f2:{:?}:{}:{}", e.description(), e.metadata().len(), matches!(f, Format::Simple))
}
fn f3(e: &MetricEntry, f: Format) -> String {
    default_formatter(e, f) + "!"
}

#[derive(Clone, Debug)]
enum Call {
    Desc(String),
    Meta(String, String),
    Fmt(usize),
    Prov(usize, u64),
}

/// A metric that provides things itself: what the builder was given comes first.
struct Own {
    meta: Metadata,
    p1: P1,
    p2: P2,
}
impl metriken::Metric for Own {
    fn as_any(&self) -> Option<&dyn std::any::Any> {
        Some(self)
    }
    fn value(&self) -> Option<metriken::Value<'_>> {
        None
    }
    fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) {
        r.provide_ref(&self.meta).provide_ref(&self.p1).provide_ref(&self.p2);
    }
}
fn own() -> Own {
    Own { meta: Metadata::new([("own".to_string(), "x".to_string()), ("k".to_string(), "own".to_string())].into()), p1: P1(991), p2: P2(992) }
}

enum Built {
    BoxedOwn(#[allow(dead_code)] DynBoxedMetric<Own>),
    Boxed(#[allow(dead_code)] DynBoxedMetric<Counter>),
    BoxedGauge(#[allow(dead_code)] DynBoxedMetric<Gauge>),
    Pinned(#[allow(dead_code)] Pin<Box<DynPinnedMetric<Counter>>>),
}

fn one(c: &mut Ctx, name: &str, calls: &[Call], probes: &[String]) {
    let fmts: [fn(&MetricEntry, Format) -> String; 4] = [f1, f2, f3, default_formatter];
    let mut desc = None;
    let mut meta = BTreeMap::new();
    let mut fmt = None;
    let mut prov: [Option<u64>; 3] = [None; 3];
    for call in calls {
        match call {
            Call::Desc(d) => desc = Some(d.clone()),
            Call::Meta(k, v) => {
                meta.insert(k.clone(), v.clone());
            }
            Call::Fmt(i) => fmt = Some(*i),
            Call::Prov(t, v) => prov[*t] = Some(*v),
        }
    }
    for how in 0..4 {
        set_case(format!("MetricBuilder::new({name:?}), then {calls:?}, built as {}", ["boxed counter", "boxed gauge", "boxed metric with own metadata", "pinned counter"][how]));
        let mut b = if how == 1 { MetricBuilder::new(std::borrow::Cow::Owned(name.to_string())) } else { MetricBuilder::new(name.to_string()) };
        for call in calls {
            b = match call {
                Call::Desc(d) => b.description(d.clone()),
                Call::Meta(k, v) => b.metadata(k.clone(), v.as_str()),
                Call::Fmt(i) => b.formatter(fmts[*i]),
                Call::Prov(0, v) => b.provide(P1(*v)),
                Call::Prov(1, v) => b.provide(P2(*v)),
                Call::Prov(_, v) => b.provide::<P3>((format!("p{v}"), *v)),
            };
        }
        let built = match how {
            0 => Built::Boxed(b.build(Counter::new())),
            1 => Built::BoxedGauge(b.build(Gauge::new())),
            2 => Built::BoxedOwn(b.build(own())),
            _ => {
                let (m, e) = b.build_pinned(Counter::new());
                same!(e.name(), name, "name of the pinned entry");
                same!(e.description().map(str::to_string), desc, "description of the pinned entry");
                let m = Box::pin(m);
                m.as_ref().register(e);
                Built::Pinned(m)
            }
        };
        let list = metrics();
        same!(list.dynamic_metrics().count(), 1, "dynamic metrics");
        let e = list.dynamic_metrics().next().unwrap();
        same!(e.name(), name, "name");
        same!(e.description().map(str::to_string), desc, "description");
        same!(e.request_ref::<P1>().copied(), prov[0].or((how == 2).then_some(991)).map(P1), "provided P1");
        same!(e.request_ref::<P2>().copied(), prov[1].or((how == 2).then_some(992)).map(P2), "provided P2");
        same!(e.request_ref::<P3>().cloned(), prov[2].map(|v| (format!("p{v}"), v)), "provided P3");
        same!(e.request_ref::<i128>().is_some(), false, "provided Gauge");
        for prometheus in [false, true] {
            let f = || if prometheus { Format::Prometheus } else { Format::Simple };
            let want = match fmt {
                Some(i) => fmts[i](e, f()),
                None => default_formatter(e, f()),
            };
            same!(e.formatted(f()), want, "formatted (formatter {fmt:?}, prometheus {prometheus})");
        }
        let m: &Metadata = e.metadata();
        same!(e.request_ref::<Metadata>().map(|x| x as *const _), Some(m as *const _), "requested metadata");
        check_map(c, m, &meta, probes, "built metric");
        drop(list);
        drop(built);
        same!(metrics().dynamic_metrics().count(), 0, "dynamic metrics after drop");
        c.eval((name, format!("{calls:?}"), how), || format!("{name:?} {calls:?}"));
    }
}

pub fn run(c: &mut Ctx) {
    one(c, "n", &[], &["a".into(), "".into()]);
    // all orders of one call of each kind, and each kind twice
    let menu = |i: usize, round: u64| match i {
        0 => Call::Desc(format!("d{round}")),
        1 => Call::Meta("k".into(), format!("v{round}")),
        2 => Call::Fmt(round as usize % 3),
        3 => Call::Prov(0, round),
        4 => Call::Prov(1, round + 100),
        _ => Call::Meta(format!("k{round}"), "w".into()),
    };
    for a in 0..6 {
        one(c, "n", &[menu(a, 0)], &[]);
        one(c, "n", &[menu(a, 0), menu(a, 1)], &[]);
        for b in 0..6 {
            one(c, "n", &[menu(a, 0), menu(b, 1)], &[]);
            for d in 0..6 {
                one(c, "n", &[menu(a, 0), menu(b, 1), menu(d, 2)], &["k".into(), "K".into()]);
            }
        }
    }
    for _ in 0..c.scale(250, 4000) {
        let name = c.string();
        let n = c.below(14);
        let keys: Vec<String> = (0..1 + c.below(4)).map(|_| c.string()).collect();
        let calls: Vec<Call> = (0..n)
            .map(|_| match c.below(6) {
                0 => Call::Desc(c.string()),
                1 | 2 => {
                    let k = if c.chance(2, 3) { c.pick(&keys).clone() } else { c.string() };
                    Call::Meta(k, c.string())
                }
                3 => Call::Fmt(c.below(4)),
                _ => Call::Prov(c.below(3), c.value_u64()),
            })
            .collect();
        let mut probes = keys;
        probes.push(c.string());
        one(c, &name, &calls, &probes);
    }
}
