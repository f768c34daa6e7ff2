//! C19: serialised snapshots read back unchanged.
use crate::ctx::{set_case, Ctx};
use crate::gen::*;
use crate::{check, same};
use metriken_exposition::{Snapshot, SnapshotV1, SnapshotV2};
use std::time::{Duration, SystemTime};

fn equal(a: &Snapshot, b: &Snapshot, what: &str) {
    same!(matches!(b, Snapshot::V1(_)), matches!(a, Snapshot::V1(_)), "{what}: version");
    same!(b.systemtime(), a.systemtime(), "{what}: time");
    same!(b.duration(), a.duration(), "{what}: duration");
    same!(show(b), show(a), "{what}: content");
    let (x, y) = (parts(a), parts(b));
    for (h, k) in x.histograms.iter().zip(&y.histograms) {
        check!(h.value.as_slice() == k.value.as_slice() && h.value.config() == k.value.config(), "{what}: histogram buckets");
    }
}

/// Metadata that looks like the fields of a snapshot, times of any size, and
/// the shapes in which one part or another is empty.
fn vary(c: &mut Ctx, s: Snapshot) -> Snapshot {
    let (v1, mut p) = (matches!(s, Snapshot::V1(_)), parts(&s));
    let mut meta = match &s {
        Snapshot::V1(s) => s.metadata.clone(),
        Snapshot::V2(s) => s.metadata.clone(),
    };
    const FIELDS: &[&str] = &["secs", "nanos", "secs_since_epoch", "duration", "systemtime", "metadata", "counters", "name", "value", "V1", "V2", "type", "0", "1"];
    if c.chance(1, 2) {
        for _ in 0..1 + c.below(3) {
            let k = c.pick(FIELDS).to_string();
            meta.insert(k, if c.chance(1, 2) { "0".into() } else { c.string() });
        }
    }
    match c.below(8) {
        0 => meta.clear(),
        1 => p.counters.clear(),
        2 => p.gauges.clear(),
        3 => p.histograms.clear(),
        4 => p.counters.iter_mut().for_each(|x| x.metadata.clear()),
        5 => {
            p.counters.clear();
            p.gauges.clear();
            p.histograms.clear();
            meta.clear();
        }
        _ => {}
    }
    for x in p.gauges.iter_mut() {
        if c.chance(1, 6) {
            x.value = *c.pick(&[0, -1, i64::MIN, i64::MAX, 127, 128, -32, -33, -128, -129]);
        }
    }
    for x in p.counters.iter_mut() {
        if c.chance(1, 6) {
            x.value = *c.pick(&[0, 1, u64::MAX, 127, 128, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, i64::MAX as u64 + 1]);
        }
    }
    let secs = |c: &mut Ctx| *c.pick(&[0u64, 1, 127, 128, 1_700_000_000, u32::MAX as u64, 1 << 40, i64::MAX as u64]);
    let nanos = |c: &mut Ctx| *c.pick(&[0u32, 1, 999_999_999, 1_000, 1_000_000, 123_456_789]);
    let far = c.chance(1, 2);
    let systemtime = if far { SystemTime::UNIX_EPOCH + Duration::new(secs(c), nanos(c)) } else { s.systemtime() };
    if v1 {
        Snapshot::V1(SnapshotV1 { systemtime, metadata: meta, counters: p.counters, gauges: p.gauges, histograms: p.histograms })
    } else {
        let duration = match (far, s.duration()) {
            (false, Some(d)) => d,
            _ => Duration::new(if c.chance(1, 8) { u64::MAX } else { secs(c) }, nanos(c)),
        };
        Snapshot::V2(SnapshotV2 { systemtime, duration, metadata: meta, counters: p.counters, gauges: p.gauges, histograms: p.histograms })
    }
}

pub fn run(c: &mut Ctx) {
    for _ in 0..c.scale(3000, 40000) {
        let names = Names::new(c);
        let mut s = snapshot(c, &names);
        if c.chance(1, 2) {
            s = vary(c, s);
        }
        set_case(show(&s));
        let j = Snapshot::to_json(&s).expect("json");
        check!(j.last() == Some(&b'\n') && !j[..j.len() - 1].contains(&b'\n'), "JSON is not one line");
        match serde_json::from_slice::<Snapshot>(&j) {
            Ok(b) => equal(&s, &b, "JSON"),
            Err(e) => crate::ctx::fail(&format!("JSON not read back: {e}")),
        }
        let m = Snapshot::to_msgpack(&s).expect("msgpack");
        match rmp_serde::from_slice::<Snapshot>(&m) {
            Ok(b) => equal(&s, &b, "msgpack"),
            Err(e) => crate::ctx::fail(&format!("msgpack not read back: {e}")),
        }
        c.eval(show(&s), || show(&s).chars().take(300).collect());
    }
}
