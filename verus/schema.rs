
// ----------------------------------------------------------- options (code)
//# item metriken-exposition struct ParquetCompression
pub struct ParquetCompression { inner: Compression }
//# end
//# item metriken-exposition enum ParquetHistogramType
«#[derive(Clone, Copy, PartialEq, Eq, Structural)]»
pub enum ParquetHistogramType { Standard, Sparse }
//# end
//# item metriken-exposition struct ParquetOptions
pub struct ParquetOptions { compression: ParquetCompression, max_batch_size: usize, histogram_type: ParquetHistogramType }
//# end
//# item metriken-exposition struct ParquetSchema
pub struct ParquetSchema {
    counters: BTreeMap<String, HashMap<String, String>>,
    gauges: BTreeMap<String, HashMap<String, String>>,
    histograms: BTreeMap<String, HashMap<String, String>>,
    metadata: HashMap<String, String>,
    rows: usize
}
//# end
//# item metriken-exposition struct ParquetWriter
pub struct ParquetWriter<W: Write ‹+ Send›> {
    writer: ArrowWriter<W>,
    options: ParquetOptions,
    schema: Arc<Schema>,
    counters: Vec<String>,
    gauges: Vec<String>,
    histograms: Vec<String>
}
//# end

// ------------------------------------------------------------- C16 (spec)
/// A reading: a name and metadata.
pub trait Reading { spec fn rname(self) -> Str; spec fn rmeta(self) -> HashMap<String, String>; }
impl Reading for Counter { open spec fn rname(self) -> Str { self.name@ } open spec fn rmeta(self) -> HashMap<String, String> { self.metadata } }
impl Reading for Gauge { open spec fn rname(self) -> Str { self.name@ } open spec fn rmeta(self) -> HashMap<String, String> { self.metadata } }
impl Reading for Histogram { open spec fn rname(self) -> Str { self.name@ } open spec fn rmeta(self) -> HashMap<String, String> { self.metadata } }
pub open spec fn column<R: Reading>(r: R) -> Str { column_name(r.rname(), text_map(r.rmeta()@)) }

pub type Seen = Map<Str, HashMap<String, String>>;
/// The metrics seen after these further readings: a new name is added with its metadata.
pub open spec fn seen<R: Reading>(m: Seen, rs: Seq<R>) -> Seen decreases rs.len() {
    if rs.len() == 0 { m } else {
        let d = seen(m, rs.drop_last());
        if d.contains_key(column(rs.last())) { d } else { d.insert(column(rs.last()), rs.last().rmeta()) }
    }
}
/// The columns are the union; each keeps the metadata of its first reading.
pub proof fn seen_is_the_union<R: Reading>(m: Seen, rs: Seq<R>)
    ensures
        forall|k: Str| #[trigger] seen(m, rs).contains_key(k) <==> m.contains_key(k) || exists|i: int| 0 <= i < rs.len() && column(#[trigger] rs[i]) == k,
        forall|k: Str| m.contains_key(k) ==> #[trigger] seen(m, rs)[k] == m[k],
        forall|k: Str, i: int| #![trigger seen(m, rs)[k], rs[i]] !m.contains_key(k) && 0 <= i < rs.len() && column(rs[i]) == k
            && (forall|j: int| 0 <= j < i ==> column(#[trigger] rs[j]) != k) ==> seen(m, rs)[k] == rs[i].rmeta(),
    decreases rs.len(),
{
    if rs.len() > 0 {
        let d = rs.drop_last();
        seen_is_the_union(m, d);
        let n = rs.len() - 1;
        assert forall|k: Str| #[trigger] seen(m, rs).contains_key(k) <==> m.contains_key(k) || exists|i: int| 0 <= i < rs.len() && column(#[trigger] rs[i]) == k by {
            if seen(m, d).contains_key(k) && !m.contains_key(k) {
                let i = choose|i: int| 0 <= i < d.len() && column(#[trigger] d[i]) == k;
                assert(rs[i] == d[i]);
            }
            if column(rs[n]) == k { assert(seen(m, rs).contains_key(k)); }
            if exists|i: int| 0 <= i < rs.len() && column(#[trigger] rs[i]) == k {
                let i = choose|i: int| 0 <= i < rs.len() && column(#[trigger] rs[i]) == k;
                if i < n { assert(d[i] == rs[i]); }
            }
        }
        assert forall|k: Str| m.contains_key(k) implies #[trigger] seen(m, rs)[k] == m[k] by {
            assert(seen(m, d).contains_key(k));
            assert(seen(m, d)[k] == m[k]);
        }
        assert forall|k: Str, i: int| #![trigger seen(m, rs)[k], rs[i]] !m.contains_key(k) && 0 <= i < rs.len() && column(rs[i]) == k
            && (forall|j: int| 0 <= j < i ==> column(#[trigger] rs[j]) != k) implies seen(m, rs)[k] == rs[i].rmeta() by {
            if i < n {
                assert(d[i] == rs[i]);
                assert(seen(m, d).contains_key(k));
                assert forall|j: int| 0 <= j < i implies column(#[trigger] d[j]) != k by { assert(d[j] == rs[j]); }
                assert(seen(m, d)[k] == d[i].rmeta());
            } else if seen(m, d).contains_key(k) {
                let j = choose|j: int| 0 <= j < d.len() && column(#[trigger] d[j]) == k;
                assert(rs[j] == d[j]);
            }
        }
    }
}

/// What a schema knows.
pub ghost struct SchemaV { pub counters: Seen, pub gauges: Seen, pub histograms: Seen, pub metadata: SMap }
pub open spec fn schema_step(s: SchemaV, x: Snapshot) -> SchemaV {
    SchemaV {
        counters: seen(s.counters, x.cs()),
        gauges: seen(s.gauges, x.gs()),
        histograms: seen(s.histograms, x.hs()),
        metadata: if s.metadata == Map::<Str, Str>::empty() { x.md() } else { s.metadata },
    }
}
pub open spec fn schema_start() -> SchemaV {
    SchemaV { counters: Map::empty(), gauges: Map::empty(), histograms: Map::empty(), metadata: Map::empty() }
}
/// The schema of a series of snapshots.
pub open spec fn schema_of(xs: Seq<Snapshot>) -> SchemaV decreases xs.len() {
    if xs.len() == 0 { schema_start() } else { schema_step(schema_of(xs.drop_last()), xs.last()) }
}

pub open spec fn with_type(m: HashMap<String, String>, t: Str) -> SMap { text_map(m@).insert("metric_type"@, t) }
pub open spec fn counter_fields(m: Seen, ks: Seq<Str>) -> Seq<FieldV> {
    ks.map_values(|k: Str| FieldV { name: k, ty: DataType::UInt64, nullable: true, metadata: with_type(m[k], "counter"@) })
}
pub open spec fn gauge_fields(m: Seen, ks: Seq<Str>) -> Seq<FieldV> {
    ks.map_values(|k: Str| FieldV { name: k, ty: DataType::Int64, nullable: true, metadata: with_type(m[k], "gauge"@) })
}
pub open spec fn histogram_columns(m: Seen, k: Str, sparse: bool) -> Seq<FieldV> {
    if sparse {
        seq![FieldV { name: k + ":bucket_indices"@, ty: u64_list(), nullable: true, metadata: with_type(m[k], "sparse_histogram"@) },
             FieldV { name: k + ":bucket_counts"@, ty: u64_list(), nullable: true, metadata: with_type(m[k], "sparse_histogram"@) }]
    } else {
        seq![FieldV { name: k + ":buckets"@, ty: u64_list(), nullable: true, metadata: with_type(m[k], "histogram"@) }]
    }
}
pub open spec fn histogram_fields(m: Seen, ks: Seq<Str>, sparse: bool) -> Seq<FieldV> decreases ks.len() {
    if ks.len() == 0 { Seq::empty() } else { histogram_fields(m, ks.drop_last(), sparse) + histogram_columns(m, ks.last(), sparse) }
}
/// The columns after timestamp and duration.
pub open spec fn metric_fields(s: SchemaV, sparse: bool) -> Seq<FieldV> {
    counter_fields(s.counters, ascending(s.counters.dom())) + gauge_fields(s.gauges, ascending(s.gauges.dom()))
        + histogram_fields(s.histograms, ascending(s.histograms.dom()), sparse)
}
pub open spec fn fields_ok(f: Seq<FieldV>, s: SchemaV, sparse: bool) -> bool {
    &&& f.len() >= 2
    &&& f[0].name == "timestamp"@ && f[0].ty == DataType::UInt64 && !f[0].nullable
    &&& f[1].name == "duration"@ && f[1].ty == DataType::UInt64 && f[1].nullable
    &&& f.skip(2) == metric_fields(s, sparse)
}
/// The key-value pairs of the file are the entries of `m`.
pub open spec fn pairs_ok(kv: Option<Seq<KeyValue>>, m: SMap) -> bool {
    match kv {
        None => m == Map::<Str, Str>::empty(),
        Some(s) => {
            &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).key@) && s[i].value is Some && s[i].value->0@ == m[s[i].key@]
            &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).key@ != (#[trigger] s[j]).key@
            &&& forall|k: Str| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key@ == k
        }
    }
}
pub open spec fn names_of(v: Seq<String>) -> Seq<Str> { v.map_values(|s: String| s@) }

impl View for ParquetSchema { type V = SchemaV;
    closed spec fn view(&self) -> SchemaV { SchemaV { counters: self.counters@, gauges: self.gauges@, histograms: self.histograms@, metadata: text_map(self.metadata@) } }
}
impl ParquetOptions {
    pub closed spec fn sparse(&self) -> bool { self.histogram_type is Sparse }
    pub closed spec fn comp(&self) -> Compression { self.compression.inner }
    pub closed spec fn batch(&self) -> usize { self.max_batch_size }
}
impl<W: Write> ParquetWriter<W> {
    /// The writer matches the schema it was made from.
    pub closed spec fn made_from(&self, s: SchemaV, sparse: bool) -> bool {
        &&& fields_ok(self.schema@, s, sparse)
        &&& self.writer.schema() == self.schema@
        &&& self.options.sparse() == sparse
        &&& names_of(self.counters@) == ascending(s.counters.dom())
        &&& names_of(self.gauges@) == ascending(s.gauges.dom())
        &&& names_of(self.histograms@) == ascending(s.histograms.dom())
    }
    pub closed spec fn file_schema(&self) -> Seq<FieldV> { self.writer.schema() }
    pub closed spec fn file_props(&self) -> PropsV { self.writer.props() }
    pub closed spec fn batches(&self) -> Seq<Seq<ColV>> { self.writer.batches() }
}

// ------------------------------------------------------------- C16 (code)
impl ParquetSchema {
    pub closed spec fn row_count(&self) -> usize { self.rows }

//# item metriken-exposition impl ParquetSchema fn new
    pub fn new() -> ‹Self›«(r: Self) ensures r@ == schema_start(), r.row_count() == 0» {
        «proof { assert(text_map(Map::<Str, String>::empty()) =~= Map::<Str, Str>::empty()); }»
        ParquetSchema {
            counters: BTreeMap::new(),
            gauges: BTreeMap::new(),
            histograms: BTreeMap::new(),
            metadata: HashMap::new(),
            rows: 0
        }
    }
//# end

//# item metriken-exposition impl ParquetSchema fn push
    pub fn push(&mut self, mut snapshot: Snapshot) «
        requires old(self).row_count() < usize::MAX,
        ensures final(self)@ == schema_step(old(self)@, snapshot), final(self).row_count() == old(self).row_count() + 1,
    »{
        «let ghost x = snapshot;»
        let (counters, gauges, histograms) = (
            snapshot.counters(),
            snapshot.gauges(),
            snapshot.histograms()
        );
        «let ghost mut n = 0int;
        let ghost c0 = self.counters@;
        proof { assert(x.cs().take(0) =~= Seq::empty()); }»
        let mut it_0 = (counters).into_iter_v();
        loop «
            invariant
                0 <= n <= x.cs().len(), it_0@ == x.cs().skip(n),
                self.counters@ == seen(c0, x.cs().take(n)),
                self.gauges == old(self).gauges, self.histograms == old(self).histograms, self.metadata == old(self).metadata, self.rows == old(self).rows,
            ensures n == x.cs().len(),
            decreases it_0@.len(),
        »{ match it_0.next() { None => { break; } Some(counter) => {
            «proof { assert(counter == x.cs()[n]); assert(x.cs().take(n + 1).drop_last() =~= x.cs().take(n)); n = n + 1; }»
            let name = canonicalize_metric_name(&counter.name, &counter.metadata);
            self.counters.entry_or_insert(name, counter.metadata);
        }}}
        «proof { assert(x.cs().take(n) =~= x.cs()); assert(x.gs().take(0) =~= Seq::empty()); }
        let ghost mut n = 0int;
        let ghost g0 = self.gauges@;»
        let mut it_1 = (gauges).into_iter_v();
        loop «
            invariant
                0 <= n <= x.gs().len(), it_1@ == x.gs().skip(n),
                self.gauges@ == seen(g0, x.gs().take(n)),
                self.counters@ == seen(c0, x.cs()), self.histograms == old(self).histograms, self.metadata == old(self).metadata, self.rows == old(self).rows,
            ensures n == x.gs().len(),
            decreases it_1@.len(),
        »{ match it_1.next() { None => { break; } Some(gauge) => {
            «proof { assert(gauge == x.gs()[n]); assert(x.gs().take(n + 1).drop_last() =~= x.gs().take(n)); n = n + 1; }»
            let name = canonicalize_metric_name(&gauge.name, &gauge.metadata);
            self.gauges.entry_or_insert(name, gauge.metadata);
        }}}
        «proof { assert(x.gs().take(n) =~= x.gs()); assert(x.hs().take(0) =~= Seq::empty()); }
        let ghost mut n = 0int;
        let ghost h0 = self.histograms@;»
        let mut it_2 = (histograms).into_iter_v();
        loop «
            invariant
                0 <= n <= x.hs().len(), it_2@ == x.hs().skip(n),
                self.histograms@ == seen(h0, x.hs().take(n)),
                self.counters@ == seen(c0, x.cs()), self.gauges@ == seen(g0, x.gs()), self.metadata == old(self).metadata, self.rows == old(self).rows,
            ensures n == x.hs().len(),
            decreases it_2@.len(),
        »{ match it_2.next() { None => { break; } Some(histogram) => {
            «proof { assert(histogram == x.hs()[n]); assert(x.hs().take(n + 1).drop_last() =~= x.hs().take(n)); n = n + 1; }»
            let name = canonicalize_metric_name(&histogram.name, &histogram.metadata);
            self.histograms.entry_or_insert(name, histogram.metadata);
        }}}
        «proof { assert(x.hs().take(n) =~= x.hs()); }»
        let snap_metadata = snapshot.metadata();
        «proof { lemma_text_empty(self.metadata@); lemma_text_empty(snap_metadata@); }»
        if self.metadata.is_empty() && !snap_metadata.is_empty() {
            self.metadata = snap_metadata;
        }
        self.rows += 1;
    }
//# end
}
pub proof fn lemma_text_empty(m: Map<Str, String>)
    ensures m == Map::<Str, String>::empty() <==> text_map(m) == Map::<Str, Str>::empty(),
{
    assert(text_map(m).dom() =~= m.dom());
    if text_map(m) == Map::<Str, Str>::empty() { assert(m =~= Map::<Str, String>::empty()); }
    if m == Map::<Str, String>::empty() { assert(text_map(m) =~= Map::<Str, Str>::empty()); }
}
