//! C15, C16, C17: the written file, read back with the parquet crate.
use crate::ctx::{set_case, Ctx};
use crate::gen::*;
use crate::{check, same};
use arrow::array::{Array, ArrayRef, Int64Array, ListArray, UInt64Array};
use arrow::datatypes::DataType;
use metriken_exposition::{Counter, Gauge, Histogram, ParquetCompression, ParquetHistogramType, ParquetOptions, ParquetSchema, Snapshot, SnapshotV1};
use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::SystemTime;

/// A sink whose content outlives the writer.
#[derive(Clone, Default)]
pub struct Sink(pub Arc<Mutex<Vec<u8>>>);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub struct Opt {
    pub sparse: bool,
    pub batch: usize,
    pub zstd: Option<i32>,
}

impl Opt {
    pub fn any(c: &mut Ctx) -> Self {
        Opt {
            sparse: c.chance(1, 2),
            batch: *c.pick(&[1usize, 2, 3, 100, 50_000]),
            zstd: *c.pick(&[None, Some(1), Some(3)]),
        }
    }
    pub fn build(&self) -> ParquetOptions {
        let comp = match self.zstd {
            None => ParquetCompression::none(),
            Some(l) => ParquetCompression::zstd(l).unwrap(),
        };
        // in an order that depends on the options, some of it twice
        let kind = if self.sparse { ParquetHistogramType::Sparse } else { ParquetHistogramType::Standard };
        let o = ParquetOptions::new();
        match (self.batch + self.zstd.unwrap_or(0) as usize) % 4 {
            0 => o.histogram_type(kind).max_batch_size(self.batch).compression(comp),
            1 => o.compression(comp).max_batch_size(self.batch).histogram_type(kind),
            2 => o.max_batch_size(7).max_batch_size(self.batch).histogram_type(kind).compression(comp),
            _ => o.compression(comp).histogram_type(ParquetHistogramType::Sparse).histogram_type(kind).max_batch_size(self.batch),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cell {
    U(Option<u64>),
    I(Option<i64>),
    L(Option<Vec<u64>>),
}

#[derive(Debug)]
pub struct Column {
    pub name: String,
    pub kind: DataType,
    pub nullable: bool,
    pub meta: BTreeMap<String, String>,
}

pub struct Contents {
    pub columns: Vec<Column>,
    pub rows: Vec<Vec<Cell>>,
    pub meta: Vec<(String, Option<String>)>,
    pub groups: Vec<usize>,
    pub zstd: bool,
}

fn cells(a: &ArrayRef) -> Vec<Cell> {
    let opt = |i: usize| !a.is_null(i);
    if let Some(v) = a.as_any().downcast_ref::<UInt64Array>() {
        (0..v.len()).map(|i| Cell::U(opt(i).then(|| v.value(i)))).collect()
    } else if let Some(v) = a.as_any().downcast_ref::<Int64Array>() {
        (0..v.len()).map(|i| Cell::I(opt(i).then(|| v.value(i)))).collect()
    } else if let Some(v) = a.as_any().downcast_ref::<ListArray>() {
        (0..v.len())
            .map(|i| {
                Cell::L(opt(i).then(|| {
                    let x = v.value(i);
                    let x = x.as_any().downcast_ref::<UInt64Array>().expect("list of u64");
                    check!(x.null_count() == 0, "null inside a histogram");
                    x.values().to_vec()
                }))
            })
            .collect()
    } else {
        crate::ctx::fail(&format!("column of type {:?}", a.data_type()))
    }
}

pub fn read(bytes: Vec<u8>) -> Contents {
    let b = match ParquetRecordBatchReaderBuilder::try_new(bytes::Bytes::from(bytes)) {
        Ok(b) => b,
        Err(e) => crate::ctx::fail(&format!("the written file cannot be read: {e}")),
    };
    let columns: Vec<Column> = b
        .schema()
        .fields()
        .iter()
        .map(|f| Column {
            name: f.name().clone(),
            kind: f.data_type().clone(),
            nullable: f.is_nullable(),
            meta: f.metadata().clone().into_iter().filter(|(k, _)| k != "PARQUET:field_id").collect(),
        })
        .collect();
    let meta = b
        .metadata()
        .file_metadata()
        .key_value_metadata()
        .cloned()
        .unwrap_or_default()
        .into_iter()
        .filter(|kv| kv.key != "ARROW:schema")
        .map(|kv| (kv.key, kv.value))
        .collect();
    let groups: Vec<usize> = b.metadata().row_groups().iter().map(|g| g.num_rows() as usize).collect();
    let zstd = b
        .metadata()
        .row_groups()
        .first()
        .map(|g| matches!(g.column(0).compression(), parquet::basic::Compression::ZSTD(_)))
        .unwrap_or(false);
    let mut rows = Vec::new();
    for batch in b.build().expect("reader") {
        let batch = match batch {
            Ok(b) => b,
            Err(e) => crate::ctx::fail(&format!("the written file cannot be read: {e}")),
        };
        let cols: Vec<Vec<Cell>> = batch.columns().iter().map(cells).collect();
        for i in 0..batch.num_rows() {
            rows.push(cols.iter().map(|c| c[i].clone()).collect());
        }
    }
    Contents { columns, rows, meta, groups, zstd }
}

pub fn write(seen: &[Snapshot], pushed: &[Snapshot], o: Opt, extra: Option<Meta>) -> Contents {
    let mut s = if seen.len() % 2 == 0 { ParquetSchema::new() } else { ParquetSchema::default() };
    for x in seen {
        s.push(x.clone());
    }
    let sink = Sink::default();
    let mut w = match s.finalize(sink.clone(), o.build(), extra) {
        Ok(w) => w,
        Err(e) => crate::ctx::fail(&format!("finalize failed: {e}")),
    };
    for x in pushed {
        if let Err(e) = w.push(x.clone()) {
            crate::ctx::fail(&format!("push failed: {e}"));
        }
    }
    let m = match w.finalize() {
        Ok(m) => m,
        Err(e) => crate::ctx::fail(&format!("closing the writer failed: {e}")),
    };
    same!(m.num_rows, pushed.len() as i64, "number of rows reported");
    let bytes = std::mem::take(&mut *sink.0.lock().unwrap());
    read(bytes)
}

pub struct Model {
    counters: BTreeMap<String, Meta>,
    gauges: BTreeMap<String, Meta>,
    histograms: BTreeMap<String, Meta>,
    meta: Meta,
}

pub fn model(seen: &[Snapshot]) -> Model {
    let mut m = Model { counters: Default::default(), gauges: Default::default(), histograms: Default::default(), meta: Meta::new() };
    for s in seen {
        let p = parts(s);
        for x in p.counters {
            m.counters.entry(canon(&x.name, &x.metadata)).or_insert(x.metadata);
        }
        for x in p.gauges {
            m.gauges.entry(canon(&x.name, &x.metadata)).or_insert(x.metadata);
        }
        for x in p.histograms {
            m.histograms.entry(canon(&x.name, &x.metadata)).or_insert(x.metadata);
        }
        if m.meta.is_empty() {
            m.meta = p.metadata;
        }
    }
    m
}

fn is_u64_list(t: &DataType) -> bool {
    matches!(t, DataType::List(f) if *f.data_type() == DataType::UInt64)
}

pub fn check_schema(got: &Contents, m: &Model, o: Opt, extra: &Option<Meta>) {
    let mut it = got.columns.iter();
    let mut col = |name: String, kind: &str, nullable: bool, meta: Option<(&Meta, &str)>| {
        let Some(c) = it.next() else { crate::ctx::fail(&format!("column {name:?} is missing")) };
        same!(c.name, name, "column name");
        let ok = match kind {
            "u64" => c.kind == DataType::UInt64,
            "i64" => c.kind == DataType::Int64,
            _ => is_u64_list(&c.kind),
        };
        check!(ok, "column {name:?} has type {:?}, expected {kind}", c.kind);
        same!(c.nullable, nullable, "nullability of column {name:?}");
        if let Some((meta, t)) = meta {
            let mut want = sorted(meta);
            want.insert("metric_type".into(), t.into());
            same!(c.meta, want, "metadata of column {name:?}");
        }
    };
    col("timestamp".into(), "u64", false, None);
    col("duration".into(), "u64", true, None);
    for (n, md) in &m.counters {
        col(n.clone(), "u64", true, Some((md, "counter")));
    }
    for (n, md) in &m.gauges {
        col(n.clone(), "i64", true, Some((md, "gauge")));
    }
    for (n, md) in &m.histograms {
        if o.sparse {
            col(format!("{n}:bucket_indices"), "list", true, Some((md, "sparse_histogram")));
            col(format!("{n}:bucket_counts"), "list", true, Some((md, "sparse_histogram")));
        } else {
            col(format!("{n}:buckets"), "list", true, Some((md, "histogram")));
        }
    }
    if let Some(c) = it.next() {
        crate::ctx::fail(&format!("column {:?} too many", c.name));
    }
    let mut want = sorted(&m.meta);
    if let Some(e) = extra {
        want.extend(sorted(e));
    }
    let mut got_meta: Vec<(String, Option<String>)> = got.meta.clone();
    got_meta.sort();
    same!(got_meta, want.into_iter().map(|(k, v)| (k, Some(v))).collect::<Vec<_>>(), "file metadata");
}

pub fn check_rows(got: &Contents, m: &Model, pushed: &[Snapshot], o: Opt) {
    same!(got.rows.len(), pushed.len(), "number of rows");
    for (i, s) in pushed.iter().enumerate() {
        let p = parts(s);
        let row = &got.rows[i];
        let mut at = 0;
        let mut cell = |what: String, want: Cell| {
            check!(at < row.len(), "row {i} has only {} columns", row.len());
            same!(row[at], want, "row {i}, {what}");
            at += 1;
        };
        cell("timestamp".into(), Cell::U(Some(p.time)));
        cell("duration".into(), Cell::U(p.duration));
        for n in m.counters.keys() {
            cell(format!("counter {n:?}"), Cell::U(p.counters.iter().rev().find(|x| canon(&x.name, &x.metadata) == *n).map(|x| x.value)));
        }
        for n in m.gauges.keys() {
            cell(format!("gauge {n:?}"), Cell::I(p.gauges.iter().rev().find(|x| canon(&x.name, &x.metadata) == *n).map(|x| x.value)));
        }
        for n in m.histograms.keys() {
            let h = p.histograms.iter().rev().find(|x| canon(&x.name, &x.metadata) == *n).map(|x| x.value.as_slice().to_vec());
            if o.sparse {
                let nz: Option<Vec<(u64, u64)>> = h.map(|v| v.into_iter().enumerate().filter(|p| p.1 != 0).map(|(i, c)| (i as u64, c)).collect());
                cell(format!("bucket indices of {n:?}"), Cell::L(nz.as_ref().map(|v| v.iter().map(|p| p.0).collect())));
                cell(format!("bucket counts of {n:?}"), Cell::L(nz.map(|v| v.iter().map(|p| p.1).collect())));
            } else {
                cell(format!("buckets of {n:?}"), Cell::L(h));
            }
        }
    }
}

fn describe(seen: &[Snapshot], pushed: Option<&[Snapshot]>, o: Opt, extra: &Option<Meta>) -> String {
    let l = |v: &[Snapshot]| v.iter().map(show).collect::<Vec<_>>().join("\n    ");
    format!(
        "{o:?}, metadata passed {:?}\n  schema from\n    {}\n  rows\n    {}",
        extra.as_ref().map(sorted),
        l(seen),
        pushed.map(l).unwrap_or("as above".into())
    )
}

fn extra(c: &mut Ctx) -> Option<Meta> {
    match c.below(3) {
        0 => None,
        1 => Some(Meta::new()),
        _ => Some(meta(c)),
    }
}

/// C15
pub fn names(c: &mut Ctx) {
    let o = Opt { sparse: false, batch: 10, zstd: None };
    // all subsets of the keys with a role, two further keys
    let special = ["metric", "name", "op", "state", "direction", "unit", "grouping_power", "max_value_power", "id", "aa", "zz"];
    let base = SystemTime::UNIX_EPOCH;
    let mut cases: Vec<(String, Meta)> = Vec::new();
    for bits in 0..1u32 << special.len() {
        let md: Meta = special.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|(i, k)| (k.to_string(), format!("v{i}"))).collect();
        cases.push(("n".into(), md));
    }
    for _ in 0..c.scale(1500, 20000) {
        let n = c.string();
        let m = meta(c);
        cases.push((n, m));
    }
    for chunk in cases.chunks(64) {
        // one snapshot per case, so each name is looked up in its own row too
        let snaps: Vec<Snapshot> = chunk
            .iter()
            .map(|(n, m)| {
                // rebuild the map so that its iteration order differs
                let mut other = Meta::new();
                for (k, v) in sorted(m).into_iter().rev() {
                    other.insert(k, v);
                }
                Snapshot::V1(SnapshotV1 {
                    systemtime: base,
                    metadata: Meta::new(),
                    counters: vec![Counter { name: n.clone(), value: 1, metadata: m.clone() }],
                    gauges: vec![Gauge { name: n.clone(), value: 1, metadata: other }],
                    histograms: vec![Histogram { name: n.clone(), value: ::histogram::Histogram::new(0, 1).unwrap(), metadata: m.clone() }],
                })
            })
            .collect();
        let want: std::collections::BTreeSet<String> = chunk.iter().map(|(n, m)| canon(n, m)).collect();
        set_case(format!("names and metadata {:?}", chunk.iter().map(|(n, m)| (n, sorted(m))).collect::<Vec<_>>()));
        let got = write(&snaps, &snaps, o, None);
        let names: Vec<&String> = got.columns.iter().skip(2).map(|c| &c.name).collect();
        let n = want.len();
        if names.len() != 3 * n || !names[..n].iter().copied().eq(want.iter()) || !names[n..2 * n].iter().copied().eq(want.iter()) {
            // find the single metric that is wrong
            for (nm, m) in chunk {
                set_case(format!("name {nm:?}, metadata {:?}", sorted(m)));
                let one = snaps.iter().find(|s| parts(s).counters[0].metadata == *m && parts(s).counters[0].name == *nm).unwrap().clone();
                let got = write(&[one.clone()], &[one], o, None);
                same!(got.columns.iter().skip(2).map(|c| c.name.clone()).collect::<Vec<_>>(), vec![canon(nm, m), canon(nm, m), canon(nm, m) + ":buckets"], "column names");
            }
            crate::ctx::fail(&format!("column names {names:?}, expected {want:?} per kind"));
        }
        for (i, (nm, m)) in chunk.iter().enumerate() {
            set_case(format!("name {nm:?}, metadata {:?}", sorted(m)));
            let col = want.iter().position(|w| *w == canon(nm, m)).unwrap();
            check!(got.rows[i][2 + col] == Cell::U(Some(1)) && got.rows[i][2 + n + col] == Cell::I(Some(1)), "the row does not have the reading in the column of its name");
            c.eval((nm, sorted(m)), || format!("{nm:?} {:?} -> {:?}", sorted(m), canon(nm, m)));
        }
    }
}

/// C16
pub fn schema(c: &mut Ctx) {
    for _ in 0..c.scale(600, 8000) {
        let names = Names::new(c);
        let seen: Vec<Snapshot> = (0..c.below(6)).map(|_| snapshot(c, &names)).collect();
        let o = Opt::any(c);
        let e = extra(c);
        set_case(describe(&seen, Some(&[]), o, &e));
        // no rows, or one row so that the file is a complete one
        let pushed: &[Snapshot] = if c.chance(1, 2) || seen.is_empty() { &[] } else { &seen[..1] };
        let got = write(&seen, pushed, o, e.clone());
        check_schema(&got, &model(&seen), o, &e);
        c.eval(describe(&seen, None, o, &e), || describe(&seen, None, o, &e).chars().take(400).collect());
    }
    // many columns
    let n = c.scale(300, 3000);
    let many: Vec<Counter> = (0..n).map(|i| Counter { name: format!("c{}", (i * 7919) % n), value: i as u64, metadata: Meta::new() }).collect();
    let s = vec![Snapshot::V1(SnapshotV1 { systemtime: SystemTime::UNIX_EPOCH, metadata: Meta::new(), counters: many, gauges: vec![], histograms: vec![] })];
    let o = Opt { sparse: false, batch: 10, zstd: None };
    set_case(format!("{n} counters"));
    let got = write(&s, &s, o, None);
    check_schema(&got, &model(&s), o, &None);
    check_rows(&got, &model(&s), &s, o);
}

/// C17
pub fn rows(c: &mut Ctx) {
    for _ in 0..c.scale(500, 6000) {
        let names = Names::new(c);
        let n = match c.below(8) {
            0 => 0,
            1 => 1,
            2 => c.below(20),
            _ => 2 + c.below(4),
        };
        let all: Vec<Snapshot> = (0..n).map(|_| snapshot(c, &names)).collect();
        // the schema may know less or more than the rows
        let seen: Vec<Snapshot> = match c.below(4) {
            0 if n > 1 => all[..n / 2].to_vec(),
            1 => {
                let mut v = all.clone();
                v.push(snapshot(c, &names));
                v.reverse();
                v
            }
            _ => all.clone(),
        };
        let o = Opt::any(c);
        let d = describe(&seen, Some(&all), o, &None);
        set_case(d.clone());
        let got = write(&seen, &all, o, None);
        let m = model(&seen);
        check_rows(&got, &m, &all, o);
        let groups: usize = got.groups.iter().sum();
        same!(groups, n, "rows over all row groups");
        check!(got.groups.iter().all(|g| *g <= o.batch), "row group larger than the batch size");
        c.eval(&d, || d.chars().take(400).collect());
    }
    // many metrics of every kind
    let all = many(c);
    for o in [Opt { sparse: false, batch: 3, zstd: None }, Opt { sparse: true, batch: 100, zstd: Some(1) }] {
        set_case(format!("four snapshots with up to 300 metrics per kind, {o:?}"));
        let got = write(&all, &all, o, None);
        check_schema(&got, &model(&all), o, &None);
        check_rows(&got, &model(&all), &all, o);
    }
    // more rows than one batch
    let names = Names::new(c);
    let k = 2500;
    let all: Vec<Snapshot> = (0..k).map(|_| {
        let mut s = snapshot(c, &names);
        if let Snapshot::V1(x) = &mut s {
            x.histograms.clear();
        } else if let Snapshot::V2(x) = &mut s {
            x.histograms.truncate(1);
            for h in &mut x.histograms {
                h.value = ::histogram::Histogram::new(0, 3).unwrap();
            }
        }
        s
    }).collect();
    for o in [Opt { sparse: false, batch: 1000, zstd: None }, Opt { sparse: true, batch: 7, zstd: Some(1) }] {
        set_case(format!("{k} snapshots over one pool of names, {o:?}"));
        let got = write(&all, &all, o, None);
        check_rows(&got, &model(&all), &all, o);
    }
}
