//! C10: metadata as a map; C12: the default formatter.
use crate::ctx::{set_case, Ctx};
use crate::{check, same};
use metriken::{default_formatter, metrics, Counter, Format, Metadata, MetricBuilder};
use std::collections::{BTreeMap, HashMap};

type Pair = (String, String);

#[metriken::metric(name = "meta.none")]
static NONE: Counter = Counter::new();
#[metriken::metric(name = "meta.one", metadata = { k = "v" })]
static ONE: Counter = Counter::new();
#[metriken::metric(name = "meta.many", metadata = { a = "1", b = "", "" = "empty key", "q\"uote" = "a\"b\\c\nd", unit = "x", id = "7", "id " = "8" })]
static MANY: Counter = Counter::new();

#[metriken::metric(name = "meta.big", metadata = { k0 = "v0", k1 = "v7", k2 = "v3", k3 = "v10", k4 = "v6", k5 = "v2", k6 = "v9", k7 = "v5", k8 = "v1", k9 = "v8", k10 = "v4", k11 = "v0", k12 = "v7", k13 = "v3", k14 = "v10", k15 = "v6", k16 = "v2", k17 = "v9", k18 = "v5", k19 = "v1", k20 = "v8", k21 = "v4", k22 = "v0", k23 = "v7", k24 = "v3", k25 = "v10", k26 = "v6", k27 = "v2", k28 = "v9", k29 = "v5", k30 = "v1", k31 = "v8", k32 = "v4", k33 = "v0", k34 = "v7", k35 = "v3", k36 = "v10", k37 = "v6", k38 = "v2", k39 = "v9" })]
static BIG: Counter = Counter::new();

fn own((k, v): (&str, &str)) -> Pair {
    (k.to_string(), v.to_string())
}

/// All the ways of looking at `m` agree with `want`.
pub fn check_map(c: &mut Ctx, m: &Metadata, want: &BTreeMap<String, String>, probes: &[String], what: &str) {
    let n = want.len();
    set_case(format!("{what}: metadata {want:?}"));
    same!(m.len(), n, "len");
    same!(m.is_empty(), n == 0, "is_empty");
    for k in want.keys().chain(probes) {
        set_case(format!("{what}: metadata {want:?}, key {k:?}"));
        same!(m.get(k).map(str::to_string), want.get(k).cloned(), "get");
        same!(m.contains_key(k), want.contains_key(k), "contains_key");
    }
    set_case(format!("{what}: metadata {want:?}, iteration"));
    let list: Vec<Pair> = {
        let mut v = Vec::new();
        let mut it = m.iter();
        while let Some(p) = it.next() {
            v.push(own(p));
            check!(v.len() <= n, "iteration yields more than {n} entries: {v:?}");
        }
        check!(it.next().is_none() && it.next().is_none(), "iteration continues after its end");
        v
    };
    let mut sorted = list.clone();
    sorted.sort();
    same!(sorted, want.clone().into_iter().collect::<Vec<_>>(), "iterated entries");
    same!(m.into_iter().map(own).collect::<Vec<_>>(), list, "into_iter");
    for pos in 0..=n + 1 {
        let at = || {
            let mut it = m.iter();
            for i in 0..pos {
                same!(it.next().map(own), list.get(i).cloned(), "step {i}");
            }
            it
        };
        let rest = &list[pos.min(n)..];
        set_case(format!("{what}: metadata {want:?}, after {pos} steps"));
        same!(at().size_hint(), (rest.len(), Some(rest.len())), "size_hint");
        same!(at().len(), rest.len(), "len of the iterator");
        same!(at().count(), rest.len(), "count");
        same!(at().last().map(own), rest.last().cloned(), "last");
        same!(at().map(own).collect::<Vec<_>>(), rest.to_vec(), "collect");
        same!(at().fold(Vec::new(), |mut v, p| { v.push(own(p)); v }), rest.to_vec(), "fold");
        let mut v = Vec::new();
        at().for_each(|p| v.push(own(p)));
        same!(v, rest.to_vec(), "for_each");
        let mut a = at();
        let mut b = a.clone();
        let first = a.next().map(own);
        same!(b.next().map(own), first, "clone");
        same!(a.clone().map(own).collect::<Vec<_>>(), rest.get(1..).unwrap_or(&[]).to_vec(), "clone after a step");
        same!(b.map(own).collect::<Vec<_>>(), a.map(own).collect::<Vec<_>>(), "clone continues");
        for k in (0..=rest.len() + 1).chain([usize::MAX]) {
            let mut it = at();
            same!(it.nth(k).map(own), rest.get(k).cloned(), "nth({k})");
            let left: Vec<Pair> = rest.iter().skip(k.saturating_add(1)).cloned().collect();
            same!(it.len(), left.len(), "len after nth({k})");
            same!(it.map(own).collect::<Vec<_>>(), left, "rest after nth({k})");
        }
    }
    c.eval((want, what), || format!("{what} {want:?}"));
}

fn random_map(c: &mut Ctx) -> BTreeMap<String, String> {
    let n = match c.below(6) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => c.below(40),
        _ => c.below(8),
    };
    (0..n).map(|_| (c.string(), c.string())).collect()
}

fn statics() -> Vec<(&'static str, Vec<(&'static str, &'static str)>)> {
    vec![
        ("meta.none", vec![]),
        ("meta.one", vec![("k", "v")]),
        ("meta.many", vec![("a", "1"), ("b", ""), ("", "empty key"), ("q\"uote", "a\"b\\c\nd"), ("unit", "x"), ("id", "7"), ("id ", "8")]),
        ("meta.big", vec![("k0", "v0"), ("k1", "v7"), ("k2", "v3"), ("k3", "v10"), ("k4", "v6"), ("k5", "v2"), ("k6", "v9"), ("k7", "v5"), ("k8", "v1"), ("k9", "v8"), ("k10", "v4"), ("k11", "v0"), ("k12", "v7"), ("k13", "v3"), ("k14", "v10"), ("k15", "v6"), ("k16", "v2"), ("k17", "v9"), ("k18", "v5"), ("k19", "v1"), ("k20", "v8"), ("k21", "v4"), ("k22", "v0"), ("k23", "v7"), ("k24", "v3"), ("k25", "v10"), ("k26", "v6"), ("k27", "v2"), ("k28", "v9"), ("k29", "v5"), ("k30", "v1"), ("k31", "v8"), ("k32", "v4"), ("k33", "v0"), ("k34", "v7"), ("k35", "v3"), ("k36", "v10"), ("k37", "v6"), ("k38", "v2"), ("k39", "v9")]),
    ]
}

pub fn run(c: &mut Ctx) {
    check_map(c, &Metadata::default(), &BTreeMap::new(), &["a".into(), "".into()], "default");
    for (name, pairs) in statics() {
        let list = metrics();
        let e = list.static_metrics().iter().find(|e| e.name() == name).expect("declared static metric");
        let want: BTreeMap<String, String> = pairs.iter().map(|p| own(*p)).collect();
        let probes: Vec<String> = ["", "a", "k", "K", "v", "1", "id", "i", "unit", "description"].iter().map(|s| s.to_string()).collect();
        check_map(c, e.metadata(), &want, &probes, "static");
        check_map(c, &e.metadata().clone(), &want, &probes, "clone of static");
    }
    for _ in 0..c.scale(300, 4000) {
        let want = random_map(c);
        let mut probes: Vec<String> = (0..4).map(|_| c.string()).collect();
        probes.extend(want.values().cloned());
        probes.extend(want.keys().take(3).flat_map(|k| [format!("{k} "), k.to_uppercase(), k.chars().skip(1).collect()]));
        let map: HashMap<String, String> = want.clone().into_iter().collect();
        let m = Metadata::new(map.clone());
        check_map(c, &m, &want, &probes, "Metadata::new");
        if c.chance(1, 4) {
            check_map(c, &m.clone(), &want, &probes, "clone");
            check_map(c, &Metadata::from(map), &want, &probes, "From<HashMap>");
        }
    }
}

// ---- C12 ---------------------------------------------------------------

fn unescape(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(ch) = it.next() {
        match ch {
            '\\' => match it.next()? {
                '\\' => out.push('\\'),
                '"' => out.push('"'),
                'n' => out.push('\n'),
                _ => return None,
            },
            '"' | '\n' => return None,
            ch => out.push(ch),
        }
    }
    Some(out)
}

fn escape(s: &str) -> String {
    let mut out = String::new();
    for ch in s.chars() {
        if ch == '\n' {
            out += "\\n";
        } else {
            if ch == '\\' || ch == '"' {
                out.push('\\');
            }
            out.push(ch);
        }
    }
    out
}

fn check_format(c: &mut Ctx, name: &str, order: &[Pair], simple: &str, prom: &str, what: &str) {
    set_case(format!("{what}: name {name:?}, metadata {order:?}"));
    same!(simple, name, "simple format");
    if order.is_empty() {
        same!(prom, name, "Prometheus format without metadata");
    } else {
        // any order of the labels
        let labels: Vec<String> = order.iter().map(|(k, v)| format!("{k}=\"{}\"", escape(v))).collect();
        let body = prom.strip_prefix(name).and_then(|r| r.strip_prefix('{')).and_then(|r| r.strip_suffix('}'));
        let Some(body) = body else { crate::ctx::fail(&format!("Prometheus format {prom:?} is not name{{labels}}")) };
        if body != labels.join(", ") {
            // the order of the labels is free
            let mut rest = body;
            let mut left = labels.clone();
            loop {
                // longest label first: a label may be a prefix of another one only up to its closing quote
                let Some(i) = left.iter().position(|l| rest.strip_prefix(l.as_str()).is_some_and(|r| r.is_empty() || r.starts_with(", "))) else {
                    crate::ctx::fail(&format!("Prometheus labels {body:?}, expected those of {labels:?}"))
                };
                let l = left.swap_remove(i);
                rest = &rest[l.len()..];
                if rest.is_empty() {
                    break;
                }
                rest = &rest[2..];
            }
            check!(left.is_empty(), "Prometheus labels {body:?} lack {left:?}");
        }
        for (k, v) in order {
            let l = format!("{k}=\"{}\"", escape(v));
            let val = &l[k.len() + 2..l.len() - 1];
            same!(unescape(val), Some(v.clone()), "recovered value");
        }
    }
    c.eval((name, order), || format!("{name:?} {order:?}"));
}

pub fn formatter(c: &mut Ctx) {
    for (name, pairs) in statics() {
        let list = metrics();
        let e = list.static_metrics().iter().find(|e| e.name() == name).expect("declared static metric");
        let order: Vec<Pair> = pairs.iter().map(|p| own(*p)).collect();
        check_format(c, name, &order, &default_formatter(e, Format::Simple), &default_formatter(e, Format::Prometheus), "static metric");
        check_format(c, name, &order, &e.formatted(Format::Simple), &e.formatted(Format::Prometheus), "static metric, formatted()");
    }
    let mut singles: Vec<Pair> = (0u32..0x300).filter_map(char::from_u32).map(|ch| ("k".to_string(), format!("x{ch}y"))).collect();
    singles.extend(["\\n", "\\\\", "\\\"", "\"\"", "\n\n", "\\", "\"", "\n", "a\\\nb", "\u{1F980}", "\u{2028}", "a=\"b\", c=\"d"].iter().map(|v| ("k".to_string(), v.to_string())));
    for (k, v) in singles {
        let m = MetricBuilder::new("n").metadata(k.clone(), v.clone()).build(Counter::new());
        let list = metrics();
        let e = list.dynamic_metrics().next().expect("listed");
        check_format(c, "n", &[(k, v)], &default_formatter(e, Format::Simple), &default_formatter(e, Format::Prometheus), "one label");
        drop(list);
        drop(m);
    }
    for _ in 0..c.scale(500, 8000) {
        let name = c.string();
        let want = random_map(c);
        let order: Vec<Pair> = want.clone().into_iter().collect();
        let mut b = MetricBuilder::new(name.clone());
        for (k, v) in &order {
            b = b.metadata(k.clone(), v.clone());
        }
        let m = b.build(Counter::new());
        let list = metrics();
        let e = list.dynamic_metrics().next().expect("listed");
        check_format(c, &name, &order, &default_formatter(e, Format::Simple), &default_formatter(e, Format::Prometheus), "default_formatter");
        check_format(c, &name, &order, &e.formatted(Format::Simple), &e.formatted(Format::Prometheus), "formatted()");
        drop(list);
        drop(m);
    }
}
