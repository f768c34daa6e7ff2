
pub proof fn lemma_u64_cells(m: Map<Str, Counter>, ks: Seq<Str>, x: Seen)
    ensures counter_cells(m, ks).len() == ks.len(), counter_fields(x, ks).len() == ks.len(),
        forall|i: int| 0 <= i < ks.len() ==> fits(counter_fields(x, ks)[i], #[trigger] counter_cells(m, ks)[i]) && col_len(counter_cells(m, ks)[i]) == 1,
    decreases ks.len(),
{
    if ks.len() > 0 {
        let d = ks.drop_last();
        lemma_u64_cells(m, d, x);
        assert forall|i: int| 0 <= i < ks.len() implies fits(counter_fields(x, ks)[i], #[trigger] counter_cells(m, ks)[i]) && col_len(counter_cells(m, ks)[i]) == 1 by {
            if i < d.len() { assert(counter_cells(m, ks)[i] == counter_cells(m, d)[i]); assert(counter_fields(x, ks)[i] == counter_fields(x, d)[i]); }
        }
    }
}
pub proof fn lemma_i64_cells(m: Map<Str, Gauge>, ks: Seq<Str>, x: Seen)
    ensures gauge_cells(m, ks).len() == ks.len(), gauge_fields(x, ks).len() == ks.len(),
        forall|i: int| 0 <= i < ks.len() ==> fits(gauge_fields(x, ks)[i], #[trigger] gauge_cells(m, ks)[i]) && col_len(gauge_cells(m, ks)[i]) == 1,
    decreases ks.len(),
{
    if ks.len() > 0 {
        let d = ks.drop_last();
        lemma_i64_cells(m, d, x);
        assert forall|i: int| 0 <= i < ks.len() implies fits(gauge_fields(x, ks)[i], #[trigger] gauge_cells(m, ks)[i]) && col_len(gauge_cells(m, ks)[i]) == 1 by {
            if i < d.len() { assert(gauge_cells(m, ks)[i] == gauge_cells(m, d)[i]); assert(gauge_fields(x, ks)[i] == gauge_fields(x, d)[i]); }
        }
    }
}
pub proof fn lemma_list_cells(m: Map<Str, Histogram>, ks: Seq<Str>, x: Seen, sparse: bool)
    ensures histogram_cells(m, ks, sparse).len() == histogram_fields(x, ks, sparse).len(),
        forall|i: int| 0 <= i < histogram_cells(m, ks, sparse).len() ==> fits(histogram_fields(x, ks, sparse)[i], #[trigger] histogram_cells(m, ks, sparse)[i]) && col_len(histogram_cells(m, ks, sparse)[i]) == 1,
    decreases ks.len(),
{
    if ks.len() > 0 {
        let d = ks.drop_last();
        lemma_list_cells(m, d, x, sparse);
        let n = histogram_cells(m, d, sparse).len();
        assert(histogram_cell(m, ks.last(), sparse).len() == histogram_columns(x, ks.last(), sparse).len());
        assert forall|i: int| 0 <= i < histogram_cells(m, ks, sparse).len() implies fits(histogram_fields(x, ks, sparse)[i], #[trigger] histogram_cells(m, ks, sparse)[i]) && col_len(histogram_cells(m, ks, sparse)[i]) == 1 by {
            if i < n { assert(histogram_cells(m, ks, sparse)[i] == histogram_cells(m, d, sparse)[i]); assert(histogram_fields(x, ks, sparse)[i] == histogram_fields(x, d, sparse)[i]); }
            else {
                assert(histogram_cells(m, ks, sparse)[i] == histogram_cell(m, ks.last(), sparse)[i - n]);
                assert(histogram_fields(x, ks, sparse)[i] == histogram_columns(x, ks.last(), sparse)[i - n]);
            }
        }
    }
}
/// Every row fits the schema, so that writing it can fail only for I/O reasons.
pub proof fn lemma_row_fits(f: Seq<FieldV>, s: SchemaV, sparse: bool, x: Snapshot)
    requires fields_ok(f, s, sparse),
    ensures batch_fits(f, row_of(x, s, sparse)), row_of(x, s, sparse).len() > 0, col_len(row_of(x, s, sparse)[0]) == 1,
{
    let (kc, kg, kh) = (ascending(s.counters.dom()), ascending(s.gauges.dom()), ascending(s.histograms.dom()));
    let (c, g, h) = (by_column(x.cs()), by_column(x.gs()), by_column(x.hs()));
    lemma_u64_cells(c, kc, s.counters);
    lemma_i64_cells(g, kg, s.gauges);
    lemma_list_cells(h, kh, s.histograms, sparse);
    let r = row_of(x, s, sparse);
    let m = metric_fields(s, sparse);
    assert(f =~= f.take(2) + m);
    let (nc, ng) = (kc.len() as int, kg.len() as int);
    assert forall|i: int| 0 <= i < r.len() implies fits(f[i], #[trigger] r[i]) && col_len(r[i]) == col_len(r[0]) by {
        if i >= 2 {
            assert(f[i] == m[i - 2]);
            if i - 2 < nc { assert(r[i] == counter_cells(c, kc)[i - 2]); assert(m[i - 2] == counter_fields(s.counters, kc)[i - 2]); }
            else if i - 2 < nc + ng { assert(r[i] == gauge_cells(g, kg)[i - 2 - nc]); assert(m[i - 2] == gauge_fields(s.gauges, kg)[i - 2 - nc]); }
            else { assert(r[i] == histogram_cells(h, kh, sparse)[i - 2 - nc - ng]); assert(m[i - 2] == histogram_fields(s.histograms, kh, sparse)[i - 2 - nc - ng]); }
        }
    }
}
pub proof fn lemma_remove_keeps<V>(m: Map<Str, V>, k: Str, j: Str)
    requires k != j,
    ensures m.remove(k).contains_key(j) == m.contains_key(j), m.contains_key(j) ==> m.remove(k)[j] == m[j],
{ }

impl<W: Write> ParquetWriter<W> {
//# item metriken-exposition impl<W: Write + Send> ParquetWriter<W> fn push
    pub fn push(&mut self, snapshot: Snapshot «, Ghost(s): Ghost<SchemaV>, Ghost(sparse): Ghost<bool>») -> ‹Result<(), ParquetError>›«(r: Result<(), ParquetError>)
        requires representable(snapshot), old(self).made_from(s, sparse),
        ensures
            final(self).made_from(s, sparse),
            final(self).file_schema() == old(self).file_schema(), final(self).file_props() == old(self).file_props(),
            r is Ok ==> final(self).batches() == old(self).batches().push(row_of(snapshot, s, sparse)),
    »{
        «let ghost x = snapshot;
        let ghost kc = ascending(s.counters.dom());
        let ghost kg = ascending(s.gauges.dom());
        let ghost kh = ascending(s.histograms.dom());
        proof { ascending_lists(s.counters.dom()); ascending_lists(s.gauges.dom()); ascending_lists(s.histograms.dom()); }»
        let mut columns: Vec<Arc<‹dyn Array›«Arr»>> = Vec::with_capacity(self.schema.fields().len());
        let mut hs: HashedSnapshot = HashedSnapshot::from(snapshot);
        columns.push(Arc::new(UInt64Array::from(vec_v([hs.ts]))));
        columns.push(Arc::new(UInt64Array::from(vec_v([hs.duration]))));
        «proof {
            assert(columns@[0]@->U64_0 =~= seq![Some(x.time() as u64)]);
            assert(columns@[1]@->U64_0 =~= seq![if x.dur() is Some { Some(x.dur()->0 as u64) } else { None }]);
            assert(cols(columns@) =~= seq![ColV::U64(seq![Some(x.time() as u64)]), ColV::U64(seq![if x.dur() is Some { Some(x.dur()->0 as u64) } else { None }])]);
        }»
        let mut it_0 = (self.counters.iter_mut_v()).into_iter_v();
        «let ghost mut n = 0int;
        let ghost c0 = cols(columns@);
        let ghost m = by_column(x.cs());
        let ghost all = it_0@;
        proof { assert(kc.take(0) =~= Seq::empty()); assert(cols(columns@) =~= c0 + counter_cells(m, kc.take(0))); }»
        loop «
            invariant
                0 <= n <= all.len(), it_0@ == all.skip(n), all.len() == kc.len(), m == by_column(x.cs()),
                forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i])@ == kc[i],
                kc.no_duplicates(), hs.gauges@ == by_column(x.gs()), hs.histograms@ == by_column(x.hs()), 
                forall|i: int| n <= i < kc.len() ==> (#[trigger] hs.counters@.contains_key(kc[i])) == m.contains_key(kc[i]) && (m.contains_key(kc[i]) ==> hs.counters@[kc[i]] == m[kc[i]]),
                cols(columns@) == c0 + counter_cells(m, kc.take(n)),
            ensures n == all.len(),
            decreases it_0@.len(),
        »{ match it_0.next() { None => { break; } Some(counter) => {
            «let ghost c1 = cols(columns@);
            proof {
                assert(counter == all[n]);
                assert(kc.take(n + 1).drop_last() =~= kc.take(n));
                n = n + 1;
            }»
            columns.push(Arc::new(UInt64Array::from(vec_v([hs
                .counters
                .remove(counter)
                .map(|v «: Counter»| «-> (r: u64) ensures r == v.value» { v.value })]))));
            «proof {
                assert(columns@.last()@->U64_0 =~= counter_cell(m, kc[n - 1])[0]->U64_0);
                assert(cols(columns@) =~= c1 + counter_cell(m, kc[n - 1]));
                assert(cols(columns@) =~= c0 + counter_cells(m, kc.take(n)));
            }»
        }}}
        «proof { assert(kc.take(n) =~= kc); }»
        let mut it_1 = (self.gauges.iter_mut_v()).into_iter_v();
        «let ghost mut n = 0int;
        let ghost c0 = cols(columns@);
        let ghost m = by_column(x.gs());
        let ghost all = it_1@;
        proof { assert(kg.take(0) =~= Seq::empty()); assert(cols(columns@) =~= c0 + gauge_cells(m, kg.take(0))); }»
        loop «
            invariant
                0 <= n <= all.len(), it_1@ == all.skip(n), all.len() == kg.len(), m == by_column(x.gs()),
                forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i])@ == kg[i],
                kg.no_duplicates(), hs.histograms@ == by_column(x.hs()), 
                forall|i: int| n <= i < kg.len() ==> (#[trigger] hs.gauges@.contains_key(kg[i])) == m.contains_key(kg[i]) && (m.contains_key(kg[i]) ==> hs.gauges@[kg[i]] == m[kg[i]]),
                cols(columns@) == c0 + gauge_cells(m, kg.take(n)),
            ensures n == all.len(),
            decreases it_1@.len(),
        »{ match it_1.next() { None => { break; } Some(gauge) => {
            «let ghost c1 = cols(columns@);
            proof {
                assert(gauge == all[n]);
                assert(kg.take(n + 1).drop_last() =~= kg.take(n));
                n = n + 1;
            }»
            columns.push(Arc::new(Int64Array::from(vec_v([hs
                .gauges
                .remove(gauge)
                .map(|v «: Gauge»| «-> (r: i64) ensures r == v.value» { v.value })]))));
            «proof {
                assert(columns@.last()@->I64_0 =~= gauge_cell(m, kg[n - 1])[0]->I64_0);
                assert(cols(columns@) =~= c1 + gauge_cell(m, kg[n - 1]));
                assert(cols(columns@) =~= c0 + gauge_cells(m, kg.take(n)));
            }»
        }}}
        «proof { assert(kg.take(n) =~= kg); }»
        let mut it_2 = (self.histograms.iter_mut_v()).into_iter_v();
        «let ghost mut n = 0int;
        let ghost c0 = cols(columns@);
        let ghost m = by_column(x.hs());
        let ghost all = it_2@;
        proof { assert(kh.take(0) =~= Seq::empty()); assert(cols(columns@) =~= c0 + histogram_cells(m, kh.take(0), sparse)); }»
        loop «
            invariant
                0 <= n <= all.len(), it_2@ == all.skip(n), all.len() == kh.len(), m == by_column(x.hs()),
                forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i])@ == kh[i],
                kh.no_duplicates(), self.options.sparse() == sparse, 
                forall|i: int| n <= i < kh.len() ==> (#[trigger] hs.histograms@.contains_key(kh[i])) == m.contains_key(kh[i]) && (m.contains_key(kh[i]) ==> hs.histograms@[kh[i]] == m[kh[i]]),
                cols(columns@) == c0 + histogram_cells(m, kh.take(n), sparse),
            ensures n == all.len(),
            decreases it_2@.len(),
        »{ match it_2.next() { None => { break; } Some(h) => {
            «let ghost c1 = cols(columns@);
            proof {
                assert(h == all[n]);
                assert(kh.take(n + 1).drop_last() =~= kh.take(n));
                n = n + 1;
            }»
            let histogram = hs.histograms.remove(h).map(|v «: Histogram»| «-> (r: histogram::Histogram) ensures r == v.value» { v.value });
            if let Some(hist) = histogram {
                match self.options.histogram_type {
                    ParquetHistogramType::Standard => {
                        columns.push(Self::listu64_entry_from_slice(hist.as_slice()))
                    }
                    ParquetHistogramType::Sparse => {
                        let sparse = histogram::SparseHistogram::from(&hist);
                        columns.push(Self::listu64_entry_from_vec(sparse.index));
                        columns.push(Self::listu64_entry_from_slice(sparse.count.as_slice()));
                    }
                };
            } else {
                match self.options.histogram_type {
                    ParquetHistogramType::Standard => columns.push(Self::listu64_entry_null()),
                    ParquetHistogramType::Sparse => columns.append(&mut vec_v([
                        Self::listu64_entry_null(),
                        Self::listu64_entry_null()
                    ]))
                };
            }
            «proof {
                assert(cols(columns@) =~= c1 + histogram_cell(m, kh[n - 1], sparse));
                assert(cols(columns@) =~= c0 + histogram_cells(m, kh.take(n), sparse));
            }»
        }}}
        «proof { assert(kh.take(n) =~= kh); }»
        «proof { assert(cols(columns@) =~= row_of(x, s, sparse)); lemma_row_fits(self.schema@, s, sparse, x); }»
        let batch = RecordBatch::try_new(self.schema.clone(), columns)?;
        self.writer.write(&batch)
    }
//# end
}
