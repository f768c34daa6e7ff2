//! Contract stand-in for the `histogram` crate.
//!
//! * `Config`: the validity rule and the number of buckets of the real crate
//!   (same formulas); which bucket a value belongs to is left abstract.
//! * `AtomicHistogram`: instead of buckets, a ghost log of the additions made
//!   to each instance. `add` panics for the value 2^max_value_power (as the
//!   real one does: index out of bounds) and rejects larger ones.
//! * `Histogram`: real bucket memory. If a harness sets `WITNESS`, only the
//!   buckets at two witness positions are kept; the only operations then
//!   are whole-slice copies, clones and the length. The harness leaves the
//!   witnesses arbitrary, so they stand for every bucket.

#[non_exhaustive]
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Error {
    MaxPowerTooHigh,
    MaxPowerTooLow,
    InvalidPercentile,
    OutOfRange,
    IncompatibleParameters,
    IncompatibleTimeRange,
    Overflow,
    Underflow,
    InvalidSubset,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Config {
    grouping_power: u8,
    max_value_power: u8,
}

impl Config {
    pub const fn new(grouping_power: u8, max_value_power: u8) -> Result<Self, Error> {
        if max_value_power > 64 {
            return Err(Error::MaxPowerTooHigh);
        }
        if grouping_power >= max_value_power {
            return Err(Error::MaxPowerTooLow);
        }
        Ok(Self {
            grouping_power,
            max_value_power,
        })
    }
    pub const fn grouping_power(&self) -> u8 {
        self.grouping_power
    }
    pub const fn max_value_power(&self) -> u8 {
        self.max_value_power
    }
    pub const fn total_buckets(&self) -> usize {
        let div = 1usize << self.grouping_power;
        2 * div + (self.max_value_power - self.grouping_power - 1) as usize * div
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Bucket;

/// Ghost log of additions by the verified thread and by the environment.
pub static mut ADDS: u32 = 0;
pub static mut ADD_VALUE: u64 = 0;
pub static mut ADD_COUNT: u64 = 0;
pub static mut ENV_ADDS: u32 = 0;
pub static mut CREATED: u32 = 0;
pub static mut DRAINS: u32 = 0;

pub struct AtomicHistogram {
    config: Config,
    id: u32,
    adds: std::cell::Cell<u32>,
}
unsafe impl Sync for AtomicHistogram {}

impl AtomicHistogram {
    pub fn new(p: u8, n: u8) -> Result<Self, Error> {
        Ok(Self::with_config(&Config::new(p, n)?))
    }
    pub fn with_config(config: &Config) -> Self {
        unsafe { CREATED += 1 };
        Self {
            config: *config,
            id: unsafe { CREATED },
            adds: std::cell::Cell::new(0),
        }
    }
    pub fn increment(&self, value: u64) -> Result<(), Error> {
        self.add(value, 1)
    }
    pub fn add(&self, value: u64, count: u64) -> Result<(), Error> {
        vshim::env::preempt();
        let mvp = self.config.max_value_power as u32;
        if mvp < 64 {
            if value > 1 << mvp {
                return Err(Error::OutOfRange);
            }
            assert!(value != 1 << mvp, "index out of bounds in the histogram");
        }
        self.adds.set(self.adds.get().wrapping_add(1));
        unsafe {
            if vshim::env::in_env() {
                ENV_ADDS += 1;
            } else {
                ADDS += 1;
                ADD_VALUE = value;
                ADD_COUNT = count;
            }
        }
        Ok(())
    }
    pub fn drain(&self) -> Histogram {
        unsafe { DRAINS += 1 };
        self.load()
    }
    /// The loaded histogram is the state of this instance: identified by it
    /// and by the number of additions it has seen.
    pub fn load(&self) -> Histogram {
        vshim::env::preempt();
        Histogram {
            config: self.config,
            buckets: Buckets { all: Box::new([]), len: self.config.total_buckets(), kept: [0; 2], opaque: true },
            source: Some((self.id, self.adds.get())),
        }
    }
}

/// If set, data slices stand for memory of which only the values at two
/// arbitrary positions are known, by the address of the slice.
pub static mut WITNESS: Option<[(*const u64, [u64; 2]); 3]> = None;
fn values(src: *const u64) -> [u64; 2] {
    unsafe {
        match WITNESS {
            Some([a, b, c]) => {
                if src == a.0 {
                    a.1
                } else if src == b.0 {
                    b.1
                } else if src == c.0 {
                    c.1
                } else {
                    panic!("[shim] unknown data")
                }
            }
            None => panic!("[shim] no data"),
        }
    }
}

/// The buckets as a slice that can be written.
#[derive(Debug, PartialEq, Eq)]
pub struct Buckets {
    all: Box<[u64]>,
    len: usize,
    kept: [u64; 2],
    /// known by its source only
    opaque: bool,
}
impl Buckets {
    fn zero(len: usize) -> Self {
        let all: Box<[u64]> = match unsafe { WITNESS } {
            Some(_) => Box::new([]),
            None => vec![0; len].into(),
        };
        Self { all, len, kept: [0; 2], opaque: false }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn copy_from_slice(&mut self, src: &[u64]) {
        assert!(!self.opaque, "[shim] loaded buckets written");
        assert!(self.len == src.len(), "copy_from_slice: source slice length does not match destination slice length");
        match unsafe { WITNESS } {
            Some(_) => self.kept = values(src.as_ptr()),
            None => self.all.copy_from_slice(src),
        }
    }
    pub fn clone_from_slice(&mut self, src: &[u64]) {
        self.copy_from_slice(src)
    }
    fn concrete(&self) {
        assert!(unsafe { WITNESS }.is_none() && !self.opaque, "[shim] single buckets accessed");
    }
}
impl Clone for Buckets {
    fn clone(&self) -> Self {
        let all: Box<[u64]> = match unsafe { WITNESS } {
            Some(_) => Box::new([]),
            None => self.all.clone(),
        };
        Self { all, len: self.len, kept: self.kept, opaque: self.opaque }
    }
}
impl std::ops::Deref for Buckets {
    type Target = [u64];
    fn deref(&self) -> &[u64] {
        self.concrete();
        &self.all
    }
}
impl std::ops::DerefMut for Buckets {
    fn deref_mut(&mut self) -> &mut [u64] {
        self.concrete();
        &mut self.all
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Histogram {
    config: Config,
    buckets: Buckets,
    source: Option<(u32, u32)>,
}

impl Histogram {
    pub fn new(p: u8, n: u8) -> Result<Self, Error> {
        Ok(Self::with_config(&Config::new(p, n)?))
    }
    pub fn with_config(config: &Config) -> Self {
        Self {
            config: *config,
            buckets: Buckets::zero(config.total_buckets()),
            source: None,
        }
    }
    pub fn from_buckets(p: u8, n: u8, buckets: Vec<u64>) -> Result<Self, Error> {
        let config = Config::new(p, n)?;
        if config.total_buckets() != buckets.len() {
            return Err(Error::IncompatibleParameters);
        }
        let mut b = Buckets::zero(buckets.len());
        b.copy_from_slice(&buckets);
        Ok(Self { config, buckets: b, source: None })
    }
    pub fn config(&self) -> Config {
        self.config
    }
    pub fn as_slice(&self) -> &[u64] {
        &self.buckets
    }
    pub fn as_mut_slice(&mut self) -> &mut Buckets {
        &mut self.buckets
    }
    /// The buckets at the witness positions, all buckets being (0, 1) without any.
    pub fn ghost_kept(&self) -> [u64; 2] {
        match unsafe { WITNESS } {
            Some(_) => self.buckets.kept,
            None => [self.buckets.all[0], self.buckets.all[1]],
        }
    }
    pub fn ghost_len(&self) -> usize {
        self.buckets.len
    }
    pub fn ghost_source(&self) -> Option<(u32, u32)> {
        self.source
    }
}

pub struct SparseHistogram;
