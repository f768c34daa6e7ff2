//! Shared by the drivers: random choices, case bookkeeping, failure reports.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

pub struct Ctx {
    pub thorough: bool,
    pub ints: Vec<i128>,
    pub strs: Vec<String>,
    pub evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    state: u64,
}

static CASE: Mutex<String> = Mutex::new(String::new());
thread_local! {
    static EXPECT_PANIC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
static PROPERTY: Mutex<String> = Mutex::new(String::new());

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Report a violation with its failing case and end the process.
pub fn fail(msg: &str) -> ! {
    let case = CASE.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let prop = PROPERTY.lock().unwrap_or_else(|e| e.into_inner()).clone();
    println!(
        "DRIVER-FAIL {{\"property\":{},\"message\":{},\"case\":{}}}",
        json(&prop),
        json(msg),
        json(&case)
    );
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(1) }
}

extern "C" {
    fn _exit(code: i32) -> !;
}

/// Describe the case being run (shown if it fails, panics or hangs).
pub fn set_case(s: String) {
    if let Ok(path) = std::env::var("DRIVER_CASE_FILE") {
        // Only the start of long phases is recorded on disk, for hangs.
        if s.starts_with('#') {
            let _ = std::fs::write(path, &s);
        }
    }
    *CASE.lock().unwrap_or_else(|e| e.into_inner()) = s;
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($msg:tt)*) => {
        if !$cond { $crate::ctx::fail(&format!($($msg)*)) }
    };
}

#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($msg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b { $crate::ctx::fail(&format!("{}: got {:?}, expected {:?}", format!($($msg)*), a, b)) }
    }};
}

/// Run `f`, returning Err if it panics; panics outside of this are failures.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    EXPECT_PANIC.with(|e| e.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ());
    EXPECT_PANIC.with(|e| e.set(false));
    r
}

impl Ctx {
    pub fn new(property: &str) -> Self {
        *PROPERTY.lock().unwrap() = property.to_string();
        std::panic::set_hook(Box::new(|info| {
            if !EXPECT_PANIC.with(|e| e.get()) {
                fail(&format!("unexpected panic: {info}"));
            }
        }));
        let seed: u64 = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let mut ints = Vec::new();
        let mut strs = Vec::new();
        // Literals found in the sources under test: "i <number>" / "s <hex of utf-8>".
        if let Some(text) = std::env::var("DRIVER_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()) {
            for line in text.lines() {
                if let Some(n) = line.strip_prefix("i ") {
                    if let Ok(n) = n.parse::<i128>() {
                        ints.push(n);
                    }
                } else if let Some(h) = line.strip_prefix("s ") {
                    let bytes: Vec<u8> = (0..h.len() / 2)
                        .filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok())
                        .collect();
                    if let Ok(s) = String::from_utf8(bytes) {
                        strs.push(s);
                    }
                }
            }
        }
        Ctx {
            thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
            ints,
            strs,
            evals: 0,
            distinct: HashSet::new(),
            samples: Vec::new(),
            state: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03,
        }
    }

    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Record one evaluated case; `key` decides whether it is a new one.
    pub fn eval(&mut self, key: impl Hash, sample: impl FnOnce() -> String) {
        self.evals += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        if self.distinct.insert(h.finish()) && (self.samples.len() < 5 && self.evals % 7 == 1) {
            self.samples.push(sample());
        }
    }

    pub fn finish(self) {
        let samples: Vec<String> = self.samples.iter().map(|s| json(s)).collect();
        println!(
            "DRIVER-OK {{\"evaluations\":{},\"distinct\":{},\"samples\":[{}]}}",
            self.evals,
            self.distinct.len(),
            samples.join(",")
        );
    }

    pub fn u64(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }

    /// Interesting 64-bit values: extremes, powers of two and neighbours,
    /// literals of the sources and their neighbours, random ones.
    pub fn special_u64(&self) -> Vec<u64> {
        let mut v = vec![0, 1, 2, 3, 7, 10, 100, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MIN as u64];
        for p in 0..64 {
            let b = 1u64 << p;
            v.extend([b, b.wrapping_sub(1), b.wrapping_add(1), !b, b.wrapping_neg()]);
        }
        for &i in &self.ints {
            let b = i as u64;
            v.extend([b, b.wrapping_sub(1), b.wrapping_add(1), b.wrapping_neg()]);
        }
        v.sort();
        v.dedup();
        v
    }
    pub fn value_u64(&mut self) -> u64 {
        match self.below(4) {
            0 => self.below(8) as u64,
            1 => self.u64(),
            _ => {
                let s = self.special_u64();
                *self.pick(&s)
            }
        }
    }

    /// Interesting strings: awkward characters, literals of the sources.
    pub fn string(&mut self) -> String {
        const POOL: &[&str] = &[
            "", "a", "b", "name", "metric", "unit", "id", "op", "state", "direction", "description",
            "grouping_power", "max_value_power", "metric_type", "timestamp", "duration", "value",
            "\"", "\\", "\n", "\\n", "\\\"", "\"\n\\", "a\"b", "{", "}", "=", ", ", ",", "a=\"b\", c",
            "/", ":", " ", "\t", "\r", "\r\n", "\0", "é", "ß", "日本", "🦀", "\u{2028}", "\u{7f}", "\u{85}", "'", "%", "$", "0", "-1", "A", "Z",
        ];
        match self.below(8) {
            0..=2 => self.pick(POOL).to_string(),
            3 if !self.strs.is_empty() => {
                let i = self.below(self.strs.len());
                self.strs[i].clone()
            }
            4 => {
                let n = self.below(4);
                (0..n).map(|_| self.pick(POOL).to_string()).collect()
            }
            5 => {
                let n = self.below(40);
                (0..n).map(|_| char::from_u32(self.below(0x250) as u32).unwrap()).collect()
            }
            _ => {
                let n = 1 + self.below(6);
                (0..n).map(|_| (b'a' + self.below(26) as u8) as char).collect()
            }
        }
    }
}
