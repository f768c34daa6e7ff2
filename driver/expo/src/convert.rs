//! C18: conversion of msgpack streams.
use crate::ctx::{set_case, Ctx};
use crate::file::{check_rows, check_schema, model, read, Opt, Sink};
use crate::gen::*;
use crate::{check, same};
use metriken_exposition::{MsgpackToParquet, Snapshot};
use std::io::{Cursor, ErrorKind, Read, Seek, SeekFrom, Write};

fn encode(all: &[Snapshot]) -> (Vec<u8>, Vec<usize>) {
    let mut out = Vec::new();
    let mut ends = vec![0];
    for s in all {
        out.extend(Snapshot::to_msgpack(s).expect("msgpack"));
        ends.push(out.len());
    }
    (out, ends)
}

const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidData,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::PermissionDenied,
];

/// An input that fails.
struct Faulty {
    kind: ErrorKind,
    inner: Cursor<Vec<u8>>,
    /// fails when this many bytes have been read in total
    read_at: Option<usize>,
    total: usize,
    seek_fails: bool,
    /// at most this many bytes per read
    step: usize,
    /// the fault happens once only
    once: bool,
    /// whether the fault happened
    hit: std::sync::Arc<std::sync::atomic::AtomicBool>,
}
impl Read for Faulty {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut n = b.len().min(self.step);
        if let Some(k) = self.read_at {
            if self.total >= k {
                if self.once {
                    self.read_at = None;
                }
                self.hit.store(true, std::sync::atomic::Ordering::SeqCst);
                return Err(std::io::Error::new(self.kind, "input fault"));
            }
            n = n.min(k - self.total);
        }
        let n = self.inner.read(&mut b[..n])?;
        self.total += n;
        Ok(n)
    }
}
impl Seek for Faulty {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        if self.seek_fails {
            self.hit.store(true, std::sync::atomic::Ordering::SeqCst);
            return Err(std::io::Error::new(self.kind, "seek fault"));
        }
        self.inner.seek(p)
    }
}

/// An output that fails after some bytes, for good or once only, or on flush.
struct Full {
    kind: ErrorKind,
    left: usize,
    /// room for everything after the first failure
    once: bool,
    failed: std::sync::Arc<std::sync::atomic::AtomicUsize>,
    written: std::sync::Arc<std::sync::atomic::AtomicUsize>,
}
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 && !b.is_empty() {
            self.failed.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if self.once {
                self.left = usize::MAX;
            }
            return Err(std::io::Error::new(self.kind, "output full"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.written.fetch_add(n, std::sync::atomic::Ordering::SeqCst);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn converter(o: Opt, extra: &[(String, String)]) -> MsgpackToParquet {
    let mut m = MsgpackToParquet::with_options(o.build());
    for (k, v) in extra {
        m = m.metadata(k.clone(), v.clone());
    }
    m
}

fn clean_input(data: &[u8], step: usize) -> Faulty {
    Faulty { kind: ErrorKind::Other, inner: Cursor::new(data.to_vec()), read_at: None, total: 0, seek_fails: false, step, once: false, hit: Default::default() }
}

fn check_output(bytes: Vec<u8>, rows: i64, all: &[Snapshot], o: Opt, extra: &[(String, String)]) {
    same!(rows, all.len() as i64, "returned number of rows");
    let got = read(bytes);
    let m = model(all);
    let e: Meta = extra.iter().cloned().collect();
    check_schema(&got, &m, o, &Some(e));
    check_rows(&got, &m, all, o);
    let mut want = Vec::new();
    let mut left = all.len();
    while left > 0 {
        want.push(left.min(o.batch));
        left -= left.min(o.batch);
    }
    same!(got.groups, want, "rows per row group");
    if !all.is_empty() {
        same!(got.zstd, o.zstd.is_some(), "zstd compression");
    }
}

pub fn run(c: &mut Ctx) {
    let dir = std::env::temp_dir().join(format!("driver-expo-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    for round in 0..c.scale(120, 1500) {
        let names = Names::new(c);
        let n = match c.below(6) {
            0 => 0,
            1 => 1,
            2 => c.below(12),
            _ => 2 + c.below(3),
        };
        let big = round == 1 || round == 2;
        let all: Vec<Snapshot> = if big { many(c) } else { (0..n).map(|_| snapshot(c, &names)).collect() };
        let n = all.len();
        let (data, ends) = encode(&all);
        let mut o = Opt::any(c);
        if big {
            // row groups that are written out while later snapshots are read
            o.batch = round;
        }
        let extra: Vec<(String, String)> = (0..c.below(4)).map(|_| (key(c), c.string())).collect();
        let d = format!("{o:?}, metadata {extra:?}, {n} snapshots, {} bytes:\n  {}", data.len(), all.iter().map(show).collect::<Vec<_>>().join("\n  "));
        set_case(d.clone());
        // plain conversion, whatever the sizes of the reads
        let sink = Sink::default();
        let step = *c.pick(&[1usize, 7, 1 << 20]);
        match converter(o, &extra).convert_file_handle(clean_input(&data, step), sink.clone()) {
            Ok(r) => check_output(std::mem::take(&mut sink.0.lock().unwrap()), r, &all, o, &extra),
            Err(e) => crate::ctx::fail(&format!("conversion of a valid stream failed: {e}")),
        }
        c.eval(&d, || d.chars().take(400).collect());
        // by path
        if round % 8 == 0 {
            let (i, out) = (dir.join("in"), dir.join("out"));
            std::fs::write(&i, &data).unwrap();
            match converter(o, &extra).convert_file_path(&i, &out) {
                Ok(r) => check_output(std::fs::read(&out).unwrap(), r, &all, o, &extra),
                Err(e) => crate::ctx::fail(&format!("conversion by path failed: {e}")),
            }
            check!(converter(o, &extra).convert_file_path(dir.join("missing"), &out).is_err(), "missing input accepted");
            check!(converter(o, &extra).convert_file_path(&i, dir.join("no/such/dir")).is_err(), "impossible output accepted");
            // the default converter
            match MsgpackToParquet::new().convert_file_path(&i, &out) {
                Ok(r) => {
                    same!(r, all.len() as i64, "returned number of rows");
                    let std = Opt { sparse: false, batch: 50_000, zstd: None };
                    let (got, m) = (read(std::fs::read(&out).unwrap()), model(&all));
                    check_schema(&got, &m, std, &None);
                    check_rows(&got, &m, &all, std);
                }
                Err(e) => crate::ctx::fail(&format!("default conversion failed: {e}")),
            }
        }
        let kind = *c.pick(&KINDS);
        // truncation inside a snapshot
        for _ in 0..6 {
            let cut = c.below(data.len() + 1);
            set_case(format!("input cut to {cut} bytes; {d}"));
            let sink = Sink::default();
            let r = converter(o, &extra).convert_file_handle(clean_input(&data[..cut], 1 << 20), sink.clone());
            match ends.iter().position(|e| *e == cut) {
                Some(k) => match r {
                    Ok(r) => check_output(std::mem::take(&mut sink.0.lock().unwrap()), r, &all[..k], o, &extra),
                    Err(e) => crate::ctx::fail(&format!("conversion of a valid stream failed: {e}")),
                },
                None => check!(r.is_err(), "truncated input accepted"),
            }
            c.eval((&d, "cut", cut), || format!("cut at {cut}"));
        }
        // corruption
        for _ in 0..6 {
            if data.is_empty() {
                break;
            }
            let mut bad = data.clone();
            let at = c.below(bad.len());
            match c.below(3) {
                0 => bad[at] ^= 1 << c.below(8),
                1 => bad[at] = c.u64() as u8,
                _ => bad.insert(at, c.u64() as u8),
            }
            set_case(format!("byte {at} corrupted, now {:?}...; {d}", &bad[at..(at + 4).min(bad.len())]));
            // what a reader of the stream makes of it
            let mut decoded = Vec::new();
            let mut cur = Cursor::new(&bad);
            let mut ok = true;
            while (cur.position() as usize) < bad.len() {
                match rmp_serde::from_read::<_, Snapshot>(&mut cur) {
                    Ok(s) => decoded.push(s),
                    Err(_) => {
                        ok = false;
                        break;
                    }
                }
            }
            let r = converter(o, &extra).convert_file_handle(clean_input(&bad, 1 << 20), Sink::default());
            if !ok {
                check!(r.is_err(), "corrupt input accepted");
            } else if let Ok(r) = r {
                same!(r, decoded.len() as i64, "returned number of rows");
            }
            c.eval((&d, "corrupt", at), || format!("corrupt at {at}"));
        }
        // faults of the input, in either pass, lasting or not
        for k in 0..12 {
            if data.is_empty() {
                break;
            }
            // between snapshots, or anywhere
            let at = if k % 2 == 0 { *c.pick(&ends) + data.len() * c.below(2) } else { c.below(2 * data.len()) };
            let once = c.chance(1, 2);
            set_case(format!("input fails {} after {at} bytes read ({kind:?}); {d}", if once { "once" } else { "for good" }));
            let mut i = clean_input(&data, *c.pick(&[1usize, 64, 1 << 20]));
            i.read_at = Some(at);
            i.kind = kind;
            i.once = once;
            let hit = i.hit.clone();
            let r = converter(o, &extra).convert_file_handle(i, Sink::default());
            if hit.load(std::sync::atomic::Ordering::SeqCst) {
                check!(r.is_err(), "error of the input not returned");
            }
            c.eval((&d, "read", at, once), || format!("read fault at {at}"));
        }
        // seeking back fails (a stream that fits the buffer is sought too)
        set_case(format!("seeking fails; {d}"));
        let mut i = clean_input(&data, 1 << 20);
        i.seek_fails = true;
        i.kind = kind;
        let hit = i.hit.clone();
        let r = converter(o, &extra).convert_file_handle(i, Sink::default());
        if hit.load(std::sync::atomic::Ordering::SeqCst) {
            check!(r.is_err(), "error of seeking not returned");
        }
        // faults of the output
        let total = {
            let w = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
            let out = Full { kind, left: usize::MAX, once: false, failed: Default::default(), written: w.clone() };
            converter(o, &extra).convert_file_handle(clean_input(&data, 1 << 20), out).expect("conversion");
            w.load(std::sync::atomic::Ordering::SeqCst)
        };
        for k in 0..if big { 40 } else { 6 } {
            let kind = *c.pick(&KINDS);
            // the metadata order, and so the length, may vary a little
            let left = if k == 0 { 0 } else { c.below(total.saturating_sub(64).max(1)) };
            set_case(format!("output full after {left} bytes ({kind:?}); {d}"));
            let out = Full { kind, left, once: false, failed: Default::default(), written: Default::default() };
            let r = converter(o, &extra).convert_file_handle(clean_input(&data, 1 << 20), out);
            check!(r.is_err(), "error of the output not returned");
            set_case(format!("output fails once, after {left} bytes ({kind:?}); {d}"));
            let failed = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
            let out = Full { kind, left, once: true, failed: failed.clone(), written: Default::default() };
            let r = converter(o, &extra).convert_file_handle(clean_input(&data, 1 << 20), out);
            if failed.load(std::sync::atomic::Ordering::SeqCst) > 0 {
                check!(r.is_err(), "error of the output not returned");
            }
            c.eval((&d, "write", left), || format!("write fault at {left}"));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
