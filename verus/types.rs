
// ----------------------------------------------------- time (contract)
/// A point in time: nanoseconds since the Unix epoch.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SystemTime { x: u64 }
impl View for SystemTime { type V = int; uninterp spec fn view(&self) -> int; }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { x: u64 }
impl View for Duration { type V = nat; uninterp spec fn view(&self) -> nat; }
#[verifier::external_body]
#[derive(Debug)]
pub struct SystemTimeError { x: u64 }
#[verifier::external_body]
pub const fn unix_epoch() -> (r: SystemTime) ensures r@ == 0 { SystemTime { x: 0 } }
impl SystemTime {
    pub exec const UNIX_EPOCH: SystemTime ensures Self::UNIX_EPOCH@ == 0 { unix_epoch() }
    #[verifier::external_body]
    pub fn now() -> (r: SystemTime) { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(&self, o: SystemTime) -> (r: Result<Duration, SystemTimeError>)
        ensures self@ >= o@ ==> r is Ok && r->Ok_0@ == self@ - o@, self@ < o@ ==> r is Err { unimplemented!() }
}
impl Duration {
    #[verifier::external_body]
    pub fn as_nanos(&self) -> (r: u128) ensures r == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_micros(&self) -> (r: u128) ensures r == self@ / 1_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) ensures r == self@ / 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r == self@ / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_nanos(&self) -> (r: u32) ensures r == self@ % 1_000_000_000 { unimplemented!() }
}

// ----------------------------------------------- histogram crate (contract)
pub mod histogram {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub struct Histogram { x: u64 }
    impl View for Histogram { type V = Seq<u64>; uninterp spec fn view(&self) -> Seq<u64>; }
    impl Histogram {
        #[verifier::external_body]
        pub fn as_slice(&self) -> (r: &[u64]) ensures r@ == self@ { unimplemented!() }
        pub uninterp spec fn powers(&self) -> (u8, u8);
        #[verifier::external_body]
        pub fn config(&self) -> (r: Config) ensures r@ == self.powers() { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Config { x: u64 }
    impl View for Config { type V = (u8, u8); uninterp spec fn view(&self) -> (u8, u8); }
    impl Config {
        #[verifier::external_body]
        pub fn grouping_power(&self) -> (r: u8) ensures r == self@.0 { unimplemented!() }
        #[verifier::external_body]
        pub fn max_value_power(&self) -> (r: u8) ensures r == self@.1 { unimplemented!() }
    }
    /// Indices of the non-zero buckets, ascending.
    pub open spec fn nonzero(b: Seq<u64>) -> Seq<usize> decreases b.len() {
        if b.len() == 0 { Seq::empty() }
        else if b.last() == 0 { nonzero(b.drop_last()) }
        else { nonzero(b.drop_last()).push((b.len() - 1) as usize) }
    }
    pub struct SparseHistogram { pub index: Vec<usize>, pub count: Vec<u64> }
    impl SparseHistogram {
        #[verifier::external_body]
        pub fn from(h: &Histogram) -> (r: SparseHistogram)
            ensures r.index@ == nonzero(h@), r.count@ == nonzero(h@).map_values(|i: usize| h@[i as int]) { unimplemented!() }
    }
    }
}

// ------------------------------------------------------- snapshots (code)
//# item metriken-exposition struct Counter
pub struct Counter { pub name: String, pub value: u64, pub metadata: HashMap<String, String> }
//# end
//# item metriken-exposition struct Gauge
pub struct Gauge { pub name: String, pub value: i64, pub metadata: HashMap<String, String> }
//# end
//# item metriken-exposition struct Histogram
pub struct Histogram { pub name: String, pub value: histogram::Histogram, pub metadata: HashMap<String, String> }
//# end
//# item metriken-exposition struct SnapshotV1
pub struct SnapshotV1 {
    pub systemtime: SystemTime,
    pub metadata: HashMap<String, String>,
    pub counters: Vec<Counter>,
    pub gauges: Vec<Gauge>,
    pub histograms: Vec<Histogram>
}
//# end
//# item metriken-exposition struct SnapshotV2
pub struct SnapshotV2 {
    pub systemtime: SystemTime,
    pub duration: Duration,
    pub metadata: HashMap<String, String>,
    pub counters: Vec<Counter>,
    pub gauges: Vec<Gauge>,
    pub histograms: Vec<Histogram>
}
//# end
//# item metriken-exposition enum Snapshot
pub enum Snapshot { V2(SnapshotV2), V1(SnapshotV1) }
//# end

impl Snapshot {
    pub open spec fn time(self) -> int { match self { Snapshot::V1(s) => s.systemtime@, Snapshot::V2(s) => s.systemtime@ } }
    pub open spec fn dur(self) -> Option<nat> { match self { Snapshot::V1(s) => None, Snapshot::V2(s) => Some(s.duration@) } }
    pub open spec fn md(self) -> SMap { match self { Snapshot::V1(s) => text_map(s.metadata@), Snapshot::V2(s) => text_map(s.metadata@) } }
    pub open spec fn cs(self) -> Seq<Counter> { match self { Snapshot::V1(s) => s.counters@, Snapshot::V2(s) => s.counters@ } }
    pub open spec fn gs(self) -> Seq<Gauge> { match self { Snapshot::V1(s) => s.gauges@, Snapshot::V2(s) => s.gauges@ } }
    pub open spec fn hs(self) -> Seq<Histogram> { match self { Snapshot::V1(s) => s.histograms@, Snapshot::V2(s) => s.histograms@ } }

//# item metriken-exposition impl Snapshot fn systemtime
    pub fn systemtime(&self) -> ‹SystemTime›«(r: SystemTime) ensures r@ == self.time()» {
        match self { Snapshot::V1(s) => s.systemtime, Snapshot::V2(s) => s.systemtime }
    }
//# end
//# item metriken-exposition impl Snapshot fn duration
    pub fn duration(&self) -> ‹Option<Duration>›«(r: Option<Duration>)
        ensures r is Some <==> self.dur() is Some, r is Some ==> r->0@ == self.dur()->0» {
        match self { Snapshot::V1(_) => None, Snapshot::V2(s) => Some(s.duration) }
    }
//# end
//# item metriken-exposition impl Snapshot fn metadata
    pub fn metadata(&mut self) -> ‹HashMap<String, String>›«(r: HashMap<String, String>)
        ensures text_map(r@) == old(self).md(),
            final(self).time() == old(self).time(), final(self).dur() == old(self).dur(), final(self).cs() == old(self).cs(),
            final(self).gs() == old(self).gs(), final(self).hs() == old(self).hs()» {
        match self { Snapshot::V1(s) => std::mem::take(&mut s.metadata), Snapshot::V2(s) => std::mem::take(&mut s.metadata) }
    }
//# end
//# item metriken-exposition impl Snapshot fn counters
    pub fn counters(&mut self) -> ‹Vec<Counter>›«(r: Vec<Counter>)
        ensures r@ == old(self).cs(),
            final(self).time() == old(self).time(), final(self).dur() == old(self).dur(), final(self).md() == old(self).md(),
            final(self).gs() == old(self).gs(), final(self).hs() == old(self).hs()» {
        match self { Snapshot::V1(s) => std::mem::take(&mut s.counters), Snapshot::V2(s) => std::mem::take(&mut s.counters) }
    }
//# end
//# item metriken-exposition impl Snapshot fn gauges
    pub fn gauges(&mut self) -> ‹Vec<Gauge>›«(r: Vec<Gauge>)
        ensures r@ == old(self).gs(),
            final(self).time() == old(self).time(), final(self).dur() == old(self).dur(), final(self).md() == old(self).md(),
            final(self).cs() == old(self).cs(), final(self).hs() == old(self).hs()» {
        match self { Snapshot::V1(s) => std::mem::take(&mut s.gauges), Snapshot::V2(s) => std::mem::take(&mut s.gauges) }
    }
//# end
//# item metriken-exposition impl Snapshot fn histograms
    pub fn histograms(&mut self) -> ‹Vec<Histogram>›«(r: Vec<Histogram>)
        ensures r@ == old(self).hs(),
            final(self).time() == old(self).time(), final(self).dur() == old(self).dur(), final(self).md() == old(self).md(),
            final(self).cs() == old(self).cs(), final(self).gs() == old(self).gs()» {
        match self { Snapshot::V1(s) => std::mem::take(&mut s.histograms), Snapshot::V2(s) => std::mem::take(&mut s.histograms) }
    }
//# end
}
