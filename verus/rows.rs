
// ------------------------------------------------------------- C17 (spec)
//# item metriken-exposition struct HashedSnapshot
pub(crate) struct HashedSnapshot {
    pub(crate) ts: u64,
    pub(crate) duration: Option<u64>,
    pub(crate) counters: HashMap<String, Counter>,
    pub(crate) gauges: HashMap<String, Gauge>,
    pub(crate) histograms: HashMap<String, Histogram>
}
//# end
/// Readings by column name; the last one wins.
pub open spec fn by_column<R: Reading>(rs: Seq<R>) -> Map<Str, R> decreases rs.len() {
    if rs.len() == 0 { Map::empty() } else { by_column(rs.drop_last()).insert(column(rs.last()), rs.last()) }
}
pub open spec fn representable(x: Snapshot) -> bool {
    &&& 0 <= x.time() <= u64::MAX
    &&& x.dur() is Some ==> x.dur()->0 <= u64::MAX
}
pub open spec fn counter_cell(m: Map<Str, Counter>, k: Str) -> Seq<ColV> {
    seq![ColV::U64(seq![if m.contains_key(k) { Some(m[k].value) } else { None }])]
}
pub open spec fn gauge_cell(m: Map<Str, Gauge>, k: Str) -> Seq<ColV> {
    seq![ColV::I64(seq![if m.contains_key(k) { Some(m[k].value) } else { None }])]
}
pub open spec fn some_list(b: Seq<u64>) -> ColV { ColV::List(seq![Some(b.map_values(|x: u64| Some(x)))]) }
pub open spec fn null_list() -> ColV { ColV::List(seq![None]) }
pub open spec fn histogram_cell(m: Map<Str, Histogram>, k: Str, sparse: bool) -> Seq<ColV> {
    if !m.contains_key(k) {
        if sparse { seq![null_list(), null_list()] } else { seq![null_list()] }
    } else {
        let b = m[k].value@;
        if sparse {
            seq![some_list(histogram::nonzero(b).map_values(|i: usize| i as u64)),
                 some_list(histogram::nonzero(b).map_values(|i: usize| b[i as int]))]
        } else { seq![some_list(b)] }
    }
}
pub open spec fn counter_cells(m: Map<Str, Counter>, ks: Seq<Str>) -> Seq<ColV> decreases ks.len() {
    if ks.len() == 0 { Seq::empty() } else { counter_cells(m, ks.drop_last()) + counter_cell(m, ks.last()) }
}
pub open spec fn gauge_cells(m: Map<Str, Gauge>, ks: Seq<Str>) -> Seq<ColV> decreases ks.len() {
    if ks.len() == 0 { Seq::empty() } else { gauge_cells(m, ks.drop_last()) + gauge_cell(m, ks.last()) }
}
pub open spec fn histogram_cells(m: Map<Str, Histogram>, ks: Seq<Str>, sparse: bool) -> Seq<ColV> decreases ks.len() {
    if ks.len() == 0 { Seq::empty() } else { histogram_cells(m, ks.drop_last(), sparse) + histogram_cell(m, ks.last(), sparse) }
}
/// The row of a snapshot in a file with these columns.
pub open spec fn row_of(x: Snapshot, s: SchemaV, sparse: bool) -> Seq<ColV> {
    seq![ColV::U64(seq![Some(x.time() as u64)]), ColV::U64(seq![if x.dur() is Some { Some(x.dur()->0 as u64) } else { None }])]
        + counter_cells(by_column(x.cs()), ascending(s.counters.dom()))
        + gauge_cells(by_column(x.gs()), ascending(s.gauges.dom()))
        + histogram_cells(by_column(x.hs()), ascending(s.histograms.dom()), sparse)
}

// ------------------------------------------------------------ C17 (proofs)
pub proof fn lemma_by_column<R: Reading>(rs: Seq<R>, t: Seq<(String, R)>)
    requires t.len() == rs.len(), forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0@ == column(rs[i]) && t[i].1 == rs[i],
    ensures map_of(t) == by_column(rs),
    decreases rs.len(),
{
    if rs.len() > 0 {
        let d = t.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0@ == column(rs.drop_last()[i]) && d[i].1 == rs.drop_last()[i] by { assert(d[i] == t[i]); }
        lemma_by_column(rs.drop_last(), d);
        assert(t[t.len() - 1] == t.last());
    }
}

pub proof fn lemma_one_list(c: ColV, b: Seq<u64>)
    requires c is List, c->List_0.len() == 1, c->List_0[0] is Some, c->List_0[0]->0.len() == b.len(),
        forall|i: int| 0 <= i < b.len() ==> (#[trigger] c->List_0[0]->0[i]) == Some(b[i]),
    ensures c == some_list(b),
{
    assert(c->List_0[0]->0 =~= b.map_values(|x: u64| Some(x)));
    assert(c->List_0 =~= seq![Some(b.map_values(|x: u64| Some(x)))]);
}

// ------------------------------------------------------------- C17 (code)
impl HashedSnapshot {
//# item metriken-exposition impl From<Snapshot> for HashedSnapshot fn from
    fn from(mut snapshot: Snapshot) -> ‹Self›«(r: Self)
        requires representable(snapshot),
        ensures
            r.ts == snapshot.time(),
            r.duration == (if snapshot.dur() is Some { Some(snapshot.dur()->0 as u64) } else { None }),
            r.counters@ == by_column(snapshot.cs()),
            r.gauges@ == by_column(snapshot.gs()),
            r.histograms@ == by_column(snapshot.hs()),
    »{
        «let ghost x = snapshot;»
        let ts: u64 = snapshot
            .systemtime()
            .duration_since(SystemTime::UNIX_EPOCH)
            .expect("System Clock is earlier than 1970; needs reset")
            .as_nanos() as u64;
        let duration: Option<u64> = snapshot.duration().map(|x «: Duration»| «-> (r: u64) ensures r == x@ as u64» { x.as_nanos() as u64 });
        let counters: HashMap<String, Counter> = HashMap::from_iter(
            snapshot
                .counters()
                .into_iter_v()
                .map(|v «: Counter»| «-> (r: (String, Counter)) ensures r.0@ == column(v), r.1 == v» { (canonicalize_metric_name(&v.name, &v.metadata), v) })
        );
        «proof {
            let t = choose|t: Seq<(String, Counter)>| counters@ == map_of(t) && t.len() == x.cs().len()
                && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0@ == column(x.cs()[i]) && t[i].1 == x.cs()[i];
            lemma_by_column(x.cs(), t);
        }»
        let gauges: HashMap<String, Gauge> = HashMap::from_iter(
            snapshot
                .gauges()
                .into_iter_v()
                .map(|v «: Gauge»| «-> (r: (String, Gauge)) ensures r.0@ == column(v), r.1 == v» { (canonicalize_metric_name(&v.name, &v.metadata), v) })
        );
        «proof {
            let t = choose|t: Seq<(String, Gauge)>| gauges@ == map_of(t) && t.len() == x.gs().len()
                && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0@ == column(x.gs()[i]) && t[i].1 == x.gs()[i];
            lemma_by_column(x.gs(), t);
        }»
        let histograms: HashMap<String, Histogram> = HashMap::from_iter(
            snapshot
                .histograms()
                .into_iter_v()
                .map(|v «: Histogram»| «-> (r: (String, Histogram)) ensures r.0@ == column(v), r.1 == v» { (canonicalize_metric_name(&v.name, &v.metadata), v) })
        );
        «proof {
            let t = choose|t: Seq<(String, Histogram)>| histograms@ == map_of(t) && t.len() == x.hs().len()
                && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0@ == column(x.hs()[i]) && t[i].1 == x.hs()[i];
            lemma_by_column(x.hs(), t);
        }»
        Self {
            ts,
            duration,
            counters,
            gauges,
            histograms
        }
    }
//# end
}

impl<W: Write> ParquetWriter<W> {
//# item metriken-exposition impl<W: Write + Send> ParquetWriter<W> fn listu64_entry_from_slice
    fn listu64_entry_from_slice(v: &[u64]) -> ‹Arc<ListArray>›«(r: Arc<ListArray>) ensures r@ == some_list(v@)» {
        «let r =»
        Arc::new(ListArray::from_iter_primitive::<UInt64Type, _, _>([Some(
            v.iter_v().map(|x «: &u64»| «-> (r: Option<u64>) ensures r == Some(*x)» { Some(*x) }).collect::<Vec<Option<u64>>>()
        )]))
        «; proof { lemma_one_list(r@, v@); } r»
    }
//# end
//# item metriken-exposition impl<W: Write + Send> ParquetWriter<W> fn listu64_entry_from_vec
    fn listu64_entry_from_vec(v: Vec<usize>) -> ‹Arc<ListArray>›«(r: Arc<ListArray>) ensures r@ == some_list(v@.map_values(|i: usize| i as u64))» {
        «let ghost v0 = v@.map_values(|i: usize| i as u64);
        let r =»
        Arc::new(ListArray::from_iter_primitive::<UInt64Type, _, _>([Some(
            v.into_iter_v()
                .map(|x «: usize»| «-> (r: Option<u64>) ensures r == Some(x as u64)» { Some(x as u64) })
                .collect::<Vec<Option<u64>>>()
        )]))
        «; proof { lemma_one_list(r@, v0); } r»
    }
//# end
//# item metriken-exposition impl<W: Write + Send> ParquetWriter<W> fn listu64_entry_null
    fn listu64_entry_null() -> ‹Arc<ListArray>›«(r: Arc<ListArray>) ensures r@ == null_list()» {
        «let r =»
        Arc::new(ListArray::from_iter_primitive::<
            UInt64Type,
            Vec<Option<u64>>,
            _
        >([None]))
        «; proof { assert(r@->List_0 =~= seq![None]); } r»
    }
//# end
//# item metriken-exposition impl<W: Write + Send> ParquetWriter<W> fn finalize
    pub fn finalize(self) -> ‹Result<FileMetaData, ParquetError>›«(r: Result<FileMetaData, ParquetError>)
        ensures r is Ok ==> closed(self.file_schema(), self.file_props(), self.batches()) && r->Ok_0.num_rows == row_total(self.batches())» {
        self.writer.close()
    }
//# end
}
