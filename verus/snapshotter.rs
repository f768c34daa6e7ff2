
// ------------------------------------------- metrics and filters (contract)
/// What one reading of a metric gives.
pub ghost enum ReadingV { Nothing, Counter(u64), Gauge(i64), Histogram(histogram::Histogram) }
/// The metric was found to have this reading.
pub uninterp spec fn reads(m: MetricEntry, r: ReadingV) -> bool;
pub enum Value { Counter(u64), Gauge(i64), Other(Box<AnyMetric>) }
#[verifier::external_body]
pub struct AnyMetric { x: u8 }
/// Another kind of metric, or a histogram of one of the two kinds.
pub enum Kind { Atomic, Locked, Other }
impl AnyMetric {
    pub uninterp spec fn kind(&self) -> Kind;
    pub uninterp spec fn owner(&self) -> MetricEntry;
    #[verifier::external_body]
    pub fn downcast_ref<T: IsMetric>(&self) -> (r: Option<&T>)
        ensures r is Some <==> self.kind() == T::kind_of(), r is Some ==> r->0.belongs_to() == self.owner() { unimplemented!() }
}
pub trait IsMetric: Sized { spec fn kind_of() -> Kind; spec fn belongs_to(&self) -> MetricEntry; }
#[verifier::external_body]
pub struct AtomicHistogram { x: u8 }
impl IsMetric for AtomicHistogram { open spec fn kind_of() -> Kind { Kind::Atomic } uninterp spec fn belongs_to(&self) -> MetricEntry; }
#[verifier::external_body]
pub struct RwLockHistogram { x: u8 }
impl IsMetric for RwLockHistogram { open spec fn kind_of() -> Kind { Kind::Locked } uninterp spec fn belongs_to(&self) -> MetricEntry; }
pub open spec fn loaded(r: Option<histogram::Histogram>) -> ReadingV { match r { Some(h) => ReadingV::Histogram(h), None => ReadingV::Nothing } }
impl AtomicHistogram {
    #[verifier::external_body]
    pub fn load(&self) -> (r: Option<histogram::Histogram>) ensures reads(self.belongs_to(), loaded(r)) { unimplemented!() }
}
impl RwLockHistogram {
    #[verifier::external_body]
    pub fn load(&self) -> (r: Option<histogram::Histogram>) ensures reads(self.belongs_to(), loaded(r)) { unimplemented!() }
}
impl MetricEntry {
    pub uninterp spec fn simple(&self) -> Str;
    pub uninterp spec fn prom(&self) -> Str;
    pub uninterp spec fn described(&self) -> Option<Str>;
    #[verifier::external_body]
    pub fn value(&self) -> (r: Option<Value>)
        ensures match r {
            None => reads(*self, ReadingV::Nothing),
            Some(Value::Counter(v)) => reads(*self, ReadingV::Counter(v)),
            Some(Value::Gauge(v)) => reads(*self, ReadingV::Gauge(v)),
            Some(Value::Other(o)) => o.owner() == *self && (o.kind() == Kind::Other ==> reads(*self, ReadingV::Nothing)),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn formatted(&self, f: metriken::Format) -> (r: String) ensures r@ == (if f is Simple { self.simple() } else { self.prom() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn description(&self) -> (r: Option<&str>) ensures r is Some <==> self.described() is Some, r is Some ==> r->0@ == self.described()->0 { unimplemented!() }
}
pub mod metriken {
    use super::*;
    verus! {
    pub enum Format { Simple, Prometheus }
    #[verifier::external_body]
    pub struct Metrics { x: u8 }
    #[verifier::external_body]
    pub fn metrics() -> (r: Metrics) { unimplemented!() }
    /// These were the listed metrics, in listing order (C06, C07).
    pub uninterp spec fn listing(s: Seq<&MetricEntry>) -> bool;
    impl<'a> IntoIt for &'a Metrics { type Item = &'static MetricEntry; open spec fn enumerates(self, s: Seq<&'static MetricEntry>) -> bool { listing(s) }
        #[verifier::external_body] fn into_iter_v(self) -> (r: Iter<&'static MetricEntry>) { unimplemented!() } }
    impl Metrics {
        #[verifier::external_body]
        pub fn iter_v(&self) -> (r: Iter<&'static MetricEntry>) ensures listing(r@) { unimplemented!() }
    }
    }
}
/// `fn(&MetricEntry) -> bool`
#[verifier::external_body]
pub struct Filter { f: fn(&MetricEntry) -> bool }
impl Filter {
    /// The filter gave this answer.
    pub uninterp spec fn answers(&self, m: MetricEntry, r: bool) -> bool;
    #[verifier::external_body]
    pub fn call(&self, m: &MetricEntry) -> (r: bool) ensures self.answers(*m, r) { unimplemented!() }
    /// A closure as a function.
    #[verifier::external_body]
    pub fn of<F: Fn(&MetricEntry) -> bool>(f: F) -> (r: Self)
        requires forall|m: &MetricEntry| f.requires((m,)),
        ensures forall|m: &MetricEntry, b: bool| #[trigger] r.answers(*m, b) ==> f.ensures((m,), b) { unimplemented!() }
}

// ------------------------------------------------------------- C14 (spec)
/// A rejected metric gives nothing, a selected one its reading.
pub open spec fn taken(f: Filter, m: MetricEntry, r: ReadingV) -> bool {
    f.answers(m, false) && r is Nothing || f.answers(m, true) && reads(m, r)
}
/// The metadata of a reading.
pub open spec fn described(m: MetricEntry) -> SMap {
    match m.described() { Some(d) => m.metadata_of().insert("description"@, d), None => m.metadata_of() }
}
pub open spec fn described_histogram(m: MetricEntry, h: histogram::Histogram) -> SMap {
    let x = m.metadata_of().insert("grouping_power"@, decimal(h.powers().0 as int)).insert("max_value_power"@, decimal(h.powers().1 as int));
    match m.described() { Some(d) => x.insert("description"@, d), None => x }
}
pub ghost struct ReadV<T> { pub name: Str, pub value: T, pub metadata: SMap }
pub open spec fn cv(c: Counter) -> ReadV<u64> { ReadV { name: c.name@, value: c.value, metadata: text_map(c.metadata@) } }
pub open spec fn gv(c: Gauge) -> ReadV<i64> { ReadV { name: c.name@, value: c.value, metadata: text_map(c.metadata@) } }
pub open spec fn hv(c: Histogram) -> ReadV<histogram::Histogram> { ReadV { name: c.name@, value: c.value, metadata: text_map(c.metadata@) } }
pub open spec fn counters_of(ms: Seq<&MetricEntry>, rs: Seq<ReadingV>) -> Seq<ReadV<u64>> decreases rs.len() {
    if rs.len() == 0 { Seq::empty() } else {
        let p = counters_of(ms, rs.drop_last());
        let m = *ms[rs.len() - 1];
        match rs.last() { ReadingV::Counter(v) => p.push(ReadV { name: m.simple(), value: v, metadata: described(m) }), _ => p }
    }
}
pub open spec fn gauges_of(ms: Seq<&MetricEntry>, rs: Seq<ReadingV>) -> Seq<ReadV<i64>> decreases rs.len() {
    if rs.len() == 0 { Seq::empty() } else {
        let p = gauges_of(ms, rs.drop_last());
        let m = *ms[rs.len() - 1];
        match rs.last() { ReadingV::Gauge(v) => p.push(ReadV { name: m.simple(), value: v, metadata: described(m) }), _ => p }
    }
}
pub open spec fn histograms_of(ms: Seq<&MetricEntry>, rs: Seq<ReadingV>) -> Seq<ReadV<histogram::Histogram>> decreases rs.len() {
    if rs.len() == 0 { Seq::empty() } else {
        let p = histograms_of(ms, rs.drop_last());
        let m = *ms[rs.len() - 1];
        match rs.last() { ReadingV::Histogram(h) => p.push(ReadV { name: m.simple(), value: h, metadata: described_histogram(m, h) }), _ => p }
    }
}
/// The snapshot of these metrics, found with these readings.
pub open spec fn snapshot_of(ms: Seq<&MetricEntry>, rs: Seq<ReadingV>, x: Snapshot) -> bool {
    &&& x.cs().map_values(|c: Counter| cv(c)) == counters_of(ms, rs)
    &&& x.gs().map_values(|c: Gauge| gv(c)) == gauges_of(ms, rs)
    &&& x.hs().map_values(|c: Histogram| hv(c)) == histograms_of(ms, rs)
}
pub open spec fn all_taken(f: Filter, ms: Seq<&MetricEntry>, rs: Seq<ReadingV>) -> bool {
    rs.len() <= ms.len() && forall|i: int| 0 <= i < rs.len() ==> taken(f, *ms[i], #[trigger] rs[i])
}

// ------------------------------------------------------------ C14 (proofs)
pub proof fn lemma_copied(m: SMap, s: Seq<(&str, &str)>, t: Seq<(String, String)>)
    requires lists_text(m, texts(s)), t.len() == s.len(),
        forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0@ == s[i].0@ && t[i].1@ == s[i].1@,
    ensures text_map(map_of(t)) == m,
{
    let e = texts(s);
    lemma_map_of(t);
    let r = map_of(t);
    assert forall|k: Str| text_map(r).contains_key(k) <==> m.contains_key(k) by {
        if r.contains_key(k) {
            let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == k && r[k] == t[i].1;
            assert(e[i].0 == k);
        }
        if m.contains_key(k) {
            let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k;
            assert(t[i].0@ == k);
        }
    }
    assert forall|k: Str| m.contains_key(k) implies text_map(r)[k] == m[k] by {
        assert(text_map(r).contains_key(k));
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == k && r[k] == t[i].1;
        assert(e[i].0 == k && m[k] == e[i].1);
    }
    assert(text_map(r) =~= m);
}
pub proof fn lemma_map_of(t: Seq<(String, String)>)
    ensures
        forall|k: Str| #[trigger] map_of(t).contains_key(k) ==> exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == k && map_of(t)[k] == t[i].1,
        forall|i: int| 0 <= i < t.len() ==> map_of(t).contains_key((#[trigger] t[i]).0@),
    decreases t.len(),
{
    if t.len() > 0 {
        let d = t.drop_last();
        let n = t.len() - 1;
        lemma_map_of(d);
        assert forall|k: Str| #[trigger] map_of(t).contains_key(k) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == k && map_of(t)[k] == t[i].1 by {
            if k == t[n].0@ { assert(map_of(t)[k] == t[n].1); }
            else {
                assert(map_of(d).contains_key(k));
                let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0@ == k && map_of(d)[k] == d[i].1;
                assert(t[i].0@ == k && map_of(t)[k] == t[i].1);
            }
        }
        assert forall|i: int| 0 <= i < t.len() implies map_of(t).contains_key((#[trigger] t[i]).0@) by {
            if i < n { assert(d[i] == t[i]); assert(map_of(d).contains_key(d[i].0@)); }
        }
    }
}
pub broadcast proof fn lemma_text_insert(m: Map<Str, String>, k: Str, v: String)
    ensures #[trigger] text_map(m.insert(k, v)) == text_map(m).insert(k, v@),
{
    assert(text_map(m.insert(k, v)) =~= text_map(m).insert(k, v@));
}
pub proof fn lemma_step(ms: Seq<&MetricEntry>, rs: Seq<ReadingV>, r: ReadingV)
    ensures
        rs.push(r).drop_last() == rs,
        !(r is Counter) ==> counters_of(ms, rs.push(r)) == counters_of(ms, rs),
        !(r is Gauge) ==> gauges_of(ms, rs.push(r)) == gauges_of(ms, rs),
        !(r is Histogram) ==> histograms_of(ms, rs.push(r)) == histograms_of(ms, rs),
{
    assert(rs.push(r).drop_last() =~= rs);
}

// ------------------------------------------------------------- C14 (code)
//# item metriken-exposition struct Snapshotter
pub struct Snapshotter { filter: ‹fn(&MetricEntry) -> bool›«Filter», metadata: HashMap<String, String> }
//# end
//# item metriken-exposition struct SnapshotterBuilder
pub struct SnapshotterBuilder { snapshotter: Snapshotter }
//# end
impl Snapshotter {
    pub closed spec fn selects(&self) -> Filter { self.filter }
    pub closed spec fn given(&self) -> SMap { text_map(self.metadata@) }
}
impl SnapshotterBuilder {
    pub closed spec fn so_far(&self) -> Snapshotter { self.snapshotter }
}
/// Selects everything, no metadata.
pub open spec fn plain(s: Snapshotter) -> bool {
    (forall|m: &MetricEntry, b: bool| #[trigger] s.selects().answers(*m, b) ==> b) && s.given() == Map::<Str, Str>::empty()
}
impl Default for SnapshotterBuilder {
    /// `#[derive(Default)]`
    fn default() -> (r: Self) ensures plain(r.so_far()) { SnapshotterBuilder { snapshotter: Default::default() } }
}
impl SnapshotterBuilder {
//# item metriken-exposition impl SnapshotterBuilder fn new
    pub fn new() -> ‹Self›«(r: Self) ensures plain(r.so_far())» {
        Self::default()
    }
//# end
//# item metriken-exposition impl SnapshotterBuilder fn build
    pub fn build(self) -> ‹Snapshotter›«(r: Snapshotter) ensures r == self.so_far()» {
        self.snapshotter
    }
//# end
//# item metriken-exposition impl SnapshotterBuilder fn filter
    pub fn filter(self, filter: ‹fn(&MetricEntry) -> bool›«Filter») -> ‹Self›«(r: Self)
        ensures r.so_far().selects() == filter, r.so_far().given() == self.so_far().given()» {
        let mut this = self;
        this.snapshotter.filter = filter;
        this
    }
//# end
//# item metriken-exposition impl SnapshotterBuilder fn metadata
    pub fn metadata(self, key: String, value: String) -> ‹Self›«(r: Self)
        ensures r.so_far().selects() == self.so_far().selects(), r.so_far().given() == self.so_far().given().insert(key@, value@)» {
        «broadcast use lemma_text_insert;»
        let mut this = self;
        this.snapshotter.metadata.insert(key, value);
        this
    }
//# end
}
impl Default for Snapshotter {
//# item metriken-exposition impl Default for Snapshotter fn default
    fn default() -> ‹Self›«(r: Self) ensures plain(r)» {
        «proof { assert(text_map(Map::<Str, String>::empty()) =~= Map::<Str, Str>::empty()); }»
        Self {
            filter: «Filter::of(» |p_0 «: &MetricEntry»| «-> (r: bool) ensures r» { let _ = p_0; true } «)»,
            metadata: HashMap::new()
        }
    }
//# end
}
impl Snapshotter {
//# item metriken-exposition impl Snapshotter fn snapshot
    pub fn snapshot(&self) -> ‹Snapshot›«(r: Snapshot)
        ensures
            r.md() == self.given(),
            exists|ms: Seq<&MetricEntry>, rs: Seq<ReadingV>| metriken::listing(ms) && rs.len() == ms.len() && all_taken(self.selects(), ms, rs) && #[trigger] snapshot_of(ms, rs, r),
    »{
        «broadcast use lemma_text_insert;»
        let ts = SystemTime::now();
        let mut counters: Vec<Counter> = Vec::new();
        let mut gauges: Vec<Gauge> = Vec::new();
        let mut histograms: Vec<Histogram> = Vec::new();
        let mut it_0 = (&metriken::metrics()).into_iter_v();
        «let ghost ms = it_0@;
        let ghost mut rs = Seq::<ReadingV>::empty();
        proof {
            assert(counters@.map_values(|c: Counter| cv(c)) =~= counters_of(ms, rs));
            assert(gauges@.map_values(|c: Gauge| gv(c)) =~= gauges_of(ms, rs));
            assert(histograms@.map_values(|c: Histogram| hv(c)) =~= histograms_of(ms, rs));
        }»
        loop «
            invariant
                rs.len() <= ms.len(), it_0@ == ms.skip(rs.len() as int), metriken::listing(ms), all_taken(self.selects(), ms, rs),
                counters@.map_values(|c: Counter| cv(c)) == counters_of(ms, rs),
                gauges@.map_values(|c: Gauge| gv(c)) == gauges_of(ms, rs),
                histograms@.map_values(|c: Histogram| hv(c)) == histograms_of(ms, rs),
            ensures rs.len() == ms.len(),
            decreases it_0@.len(),
        »{ match it_0.next() { None => { break; } Some(metric) => {
            «let ghost n = rs.len() as int;
            let ghost rs0 = rs;
            let ghost c0 = counters@;
            let ghost g0 = gauges@;
            let ghost h0 = histograms@;
            proof { assert(metric == ms[n]); }»
            if !(self.filter)‹(metric)›«.call(metric)» {
                «proof { lemma_step(ms, rs, ReadingV::Nothing); rs = rs.push(ReadingV::Nothing); }»
                continue;
            }
            match metric.value() {
                Some(Value::Counter(value)) => {
                    let mut counter = Counter {
                        name: metric.formatted(metriken::Format::Simple),
                        value,
                        metadata: HashMap::from_iter(
                            metric
                                .metadata()
                                .into_iter_v()
                                .map(|p_0 «: (&str, &str)»| «-> (r: (String, String)) ensures r.0@ == p_0.0@, r.1@ == p_0.1@» { let (k, v) = p_0; (k.to_string_v(), v.to_string_v()) })
                        )
                    };
                    «proof {
                        let t = choose|t: Seq<(String, String)>| counter.metadata@ == map_of(t) && exists|s: Seq<(&str, &str)>| lists_text(metric.metadata_of(), #[trigger] texts(s)) && t.len() == s.len()
                            && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0@ == s[i].0@ && t[i].1@ == s[i].1@;
                        let s = choose|s: Seq<(&str, &str)>| lists_text(metric.metadata_of(), #[trigger] texts(s)) && t.len() == s.len()
                            && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0@ == s[i].0@ && t[i].1@ == s[i].1@;
                        lemma_copied(metric.metadata_of(), s, t);
                        assert(text_map(counter.metadata@) == metric.metadata_of());
                    }»
                    if let Some(description) = metric.description().map(|v «: &str»| «-> (r: String) ensures r@ == v@» { v.to_string_v() }) {
                        counter
                            .metadata
                            .insert("description".to_string_v(), description);
                    }
                    «proof {
                        assert(text_map(counter.metadata@) =~= described(*metric));
                        lemma_step(ms, rs, ReadingV::Counter(value));
                        rs = rs.push(ReadingV::Counter(value));
                        assert(c0.push(counter).map_values(|c: Counter| cv(c)) =~= c0.map_values(|c: Counter| cv(c)).push(cv(counter)));
                    }»
                    counters.push(counter);
                }
                Some(Value::Gauge(value)) => {
                    let mut gauge = Gauge {
                        name: metric.formatted(metriken::Format::Simple),
                        value,
                        metadata: HashMap::from_iter(
                            metric
                                .metadata()
                                .into_iter_v()
                                .map(|p_1 «: (&str, &str)»| «-> (r: (String, String)) ensures r.0@ == p_1.0@, r.1@ == p_1.1@» { let (k, v) = p_1; (k.to_string_v(), v.to_string_v()) })
                        )
                    };
                    «proof {
                        let t = choose|t: Seq<(String, String)>| gauge.metadata@ == map_of(t) && exists|s: Seq<(&str, &str)>| lists_text(metric.metadata_of(), #[trigger] texts(s)) && t.len() == s.len()
                            && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0@ == s[i].0@ && t[i].1@ == s[i].1@;
                        let s = choose|s: Seq<(&str, &str)>| lists_text(metric.metadata_of(), #[trigger] texts(s)) && t.len() == s.len()
                            && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0@ == s[i].0@ && t[i].1@ == s[i].1@;
                        lemma_copied(metric.metadata_of(), s, t);
                        assert(text_map(gauge.metadata@) == metric.metadata_of());
                    }»
                    if let Some(description) = metric.description().map(|v «: &str»| «-> (r: String) ensures r@ == v@» { v.to_string_v() }) {
                        gauge
                            .metadata
                            .insert("description".to_string_v(), description);
                    }
                    «proof {
                        assert(text_map(gauge.metadata@) =~= described(*metric));
                        lemma_step(ms, rs, ReadingV::Gauge(value));
                        rs = rs.push(ReadingV::Gauge(value));
                        assert(g0.push(gauge).map_values(|c: Gauge| gv(c)) =~= g0.map_values(|c: Gauge| gv(c)).push(gv(gauge)));
                    }»
                    gauges.push(gauge);
                }
                Some(Value::Other(other)) => {
                    let histogram = if let Some(histogram) = other.downcast_ref::<AtomicHistogram>()
                    {
                        histogram.load()
                    } else if let Some(histogram) = other.downcast_ref::<RwLockHistogram>() {
                        histogram.load()
                    } else {
                        None
                    };
                    «proof {
                        lemma_step(ms, rs, loaded(histogram));
                        rs = rs.push(loaded(histogram));
                    }»
                    if let Some(histogram) = histogram {
                        «let ghost hist = histogram;»
                        let mut metadata = HashMap::from_iter(
                            metric
                                .metadata()
                                .into_iter_v()
                                .map(|p_2 «: (&str, &str)»| «-> (r: (String, String)) ensures r.0@ == p_2.0@, r.1@ == p_2.1@» { let (k, v) = p_2; (k.to_string_v(), v.to_string_v()) })
                        );
                        «proof {
                        let t = choose|t: Seq<(String, String)>| metadata@ == map_of(t) && exists|s: Seq<(&str, &str)>| lists_text(metric.metadata_of(), #[trigger] texts(s)) && t.len() == s.len()
                            && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0@ == s[i].0@ && t[i].1@ == s[i].1@;
                        let s = choose|s: Seq<(&str, &str)>| lists_text(metric.metadata_of(), #[trigger] texts(s)) && t.len() == s.len()
                            && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0@ == s[i].0@ && t[i].1@ == s[i].1@;
                        lemma_copied(metric.metadata_of(), s, t);
                        assert(text_map(metadata@) == metric.metadata_of());
                    }»
                        metadata.insert(
                            "grouping_power".to_string_v(),
                            histogram.config().grouping_power().to_string_v()
                        );
                        metadata.insert(
                            "max_value_power".to_string_v(),
                            histogram.config().max_value_power().to_string_v()
                        );
                        if let Some(description) = metric.description().map(|v «: &str»| «-> (r: String) ensures r@ == v@» { v.to_string_v() }) {
                            metadata.insert("description".to_string_v(), description);
                        }
                        «proof { assert(text_map(metadata@) =~= described_histogram(*metric, hist)); }»
                        let histogram = Histogram {
                            name: metric.formatted(metriken::Format::Simple),
                            value: histogram,
                            metadata
                        };
                        «proof { assert(h0.push(histogram).map_values(|c: Histogram| hv(c)) =~= h0.map_values(|c: Histogram| hv(c)).push(hv(histogram))); }»
                        histograms.push(histogram);
                    }
                }
                _ => «{ proof { lemma_step(ms, rs, ReadingV::Nothing); rs = rs.push(ReadingV::Nothing); }» continue «}»
            }
        }}}
        «let r =»
        Snapshot::V1(SnapshotV1 {
            systemtime: ts,
            metadata: self.metadata.clone(),
            counters,
            gauges,
            histograms
        })
        «; proof { assert(snapshot_of(ms, rs, r)); } r»
    }
//# end
}
