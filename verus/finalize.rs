
// ------------------------------------------------------ C16 (code, finalize)
pub broadcast proof fn lemma_text_insert(m: Map<Str, String>, k: Str, v: String)
    ensures #[trigger] text_map(m.insert(k, v)) == text_map(m).insert(k, v@),
{
    assert(text_map(m.insert(k, v)) =~= text_map(m).insert(k, v@));
}
pub proof fn lemma_pairs(m: Map<Str, String>, q: Seq<(String, String)>, kv: Seq<KeyValue>)
    requires
        owned_lists(m, q), q.len() == kv.len(),
        forall|i: int| 0 <= i < q.len() ==> (#[trigger] kv[i]).key == q[i].0 && kv[i].value == Some(q[i].1),
    ensures pairs_ok(Some(kv), text_map(m)),
{
    assert forall|k: Str| text_map(m).contains_key(k) implies exists|i: int| 0 <= i < kv.len() && (#[trigger] kv[i]).key@ == k by {
        let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0.txt() == k;
        assert(kv[i].key@ == k);
    }
    assert forall|i: int, j: int| 0 <= i < kv.len() && 0 <= j < kv.len() && i != j implies (#[trigger] kv[i]).key@ != (#[trigger] kv[j]).key@ by {
        assert(q[i].0.txt() != q[j].0.txt());
    }
    assert forall|i: int| 0 <= i < kv.len() implies text_map(m).contains_key((#[trigger] kv[i]).key@) && kv[i].value is Some && kv[i].value->0@ == text_map(m)[kv[i].key@] by {
        assert(m.contains_key(q[i].0.txt()));
    }
}
impl ParquetSchema {
//# item metriken-exposition impl ParquetSchema fn finalize
    pub fn finalize «<Wr: Write>» (
        self,
        writer: ‹impl Write + Send›«Wr»,
        options: ParquetOptions,
        metadata: Option<HashMap<String, String>>
    ) -> ‹Result<ParquetWriter<impl Write + Send>, ParquetError>›«(r: Result<ParquetWriter<Wr>, ParquetError>)
        requires options.batch() > 0, 2 + self@.counters.len() + self@.gauges.len() + self@.histograms.len() * 3 <= usize::MAX,
        ensures
            r is Ok ==> r->Ok_0.made_from(self@, options.sparse()),
            r is Ok ==> fields_ok(r->Ok_0.file_schema(), self@, options.sparse()),
            r is Ok ==> pairs_ok(r->Ok_0.file_props().kv, self@.metadata.union_prefer_right(if metadata is Some { text_map(metadata->0@) } else { Map::<Str, Str>::empty() })),
            r is Ok ==> r->Ok_0.file_props().compression == options.comp() && r->Ok_0.file_props().max_rows == options.batch(),
            r is Ok ==> r->Ok_0.batches() == Seq::<Seq<ColV>>::empty(),
    »{
        «broadcast use empty_add, lemma_text_insert;
        let ghost s = self@;»
        let mut this = self;
        let mut fields: Vec<Field> = Vec::with_capacity(
            2 + this.counters.len() + this.gauges.len() + (this.histograms.len() * 3)
        );
        fields.push(
            Field::new("timestamp", DataType::UInt64, false).with_metadata(HashMap::from([
                ("metric_type".to_owned_v(), "timestamp".to_owned_v()),
                ("unit".to_owned_v(), "nanoseconds".to_owned_v())
            ]))
        );
        fields.push(
            Field::new("duration", DataType::UInt64, true).with_metadata(HashMap::from([
                ("metric_type".to_owned_v(), "duration".to_owned_v()),
                ("unit".to_owned_v(), "nanoseconds".to_owned_v())
            ]))
        );
        let mut counters = Vec::with_capacity(this.counters.len());
        let mut it_0 = (this.counters.into_iter_v()).into_iter_v();
        «let ghost mut n = 0int;
        let ghost all = it_0@;
        let ghost ks = ascending(s.counters.dom());
        let ghost f0 = views(fields@);
        proof {
            assert(ks.take(0) =~= Seq::empty());
            assert(names_of(counters@) =~= ks.take(0));
            assert(views(fields@) =~= f0 + counter_fields(s.counters, ks.take(0)));
        }»
        loop «
            invariant
                0 <= n <= all.len(), it_0@ == all.skip(n), owned_in_order(s.counters, all), ks == ascending(s.counters.dom()),
                views(fields@) == f0 + counter_fields(s.counters, ks.take(n)),
                names_of(counters@) == ks.take(n),
            ensures n == all.len(),
            decreases it_0@.len(),
        »{ match it_0.next() { None => { break; } Some((counter, mut metadata)) => {
            «proof {
                assert(all[n].0.txt() == ks[n]);
                assert((counter, metadata) == all[n]);
                assert(ks.take(n + 1).drop_last() =~= ks.take(n));
            }
            let ghost f1 = views(fields@);»
            metadata.insert("metric_type".to_string_v(), "counter".to_string_v());
            fields
                .push(Field::new(counter.clone(), DataType::UInt64, true).with_metadata(metadata));
            counters.push(counter);
            «proof {
                assert(names_of(counters@) =~= ks.take(n + 1));
                let fl = fields@.last()@;
                assert(fl.metadata == with_type(s.counters[ks[n]], "counter"@));
                assert(views(fields@) =~= f1.push(fl));
                assert(counter_fields(s.counters, ks.take(n + 1)) =~= counter_fields(s.counters, ks.take(n)).push(fl));
                assert(views(fields@) =~= f0 + counter_fields(s.counters, ks.take(n + 1)));
                n = n + 1;
            }»
        }}}
        «proof { assert(ks.take(n) =~= ks); }»
        let mut gauges = Vec::with_capacity(this.gauges.len());
        let mut it_1 = (this.gauges.into_iter_v()).into_iter_v();
        «let ghost mut n = 0int;
        let ghost all = it_1@;
        let ghost ks = ascending(s.gauges.dom());
        let ghost f0 = views(fields@);
        proof {
            assert(ks.take(0) =~= Seq::empty());
            assert(names_of(gauges@) =~= ks.take(0));
            assert(views(fields@) =~= f0 + gauge_fields(s.gauges, ks.take(0)));
        }»
        loop «
            invariant
                0 <= n <= all.len(), it_1@ == all.skip(n), owned_in_order(s.gauges, all), ks == ascending(s.gauges.dom()),
                views(fields@) == f0 + gauge_fields(s.gauges, ks.take(n)),
                names_of(gauges@) == ks.take(n),
            ensures n == all.len(),
            decreases it_1@.len(),
        »{ match it_1.next() { None => { break; } Some((gauge, mut metadata)) => {
            «proof {
                assert(all[n].0.txt() == ks[n]);
                assert((gauge, metadata) == all[n]);
                assert(ks.take(n + 1).drop_last() =~= ks.take(n));
            }
            let ghost f1 = views(fields@);»
            metadata.insert("metric_type".to_string_v(), "gauge".to_string_v());
            fields.push(Field::new(gauge.clone(), DataType::Int64, true).with_metadata(metadata));
            gauges.push(gauge);
            «proof {
                assert(names_of(gauges@) =~= ks.take(n + 1));
                let fl = fields@.last()@;
                assert(fl.metadata == with_type(s.gauges[ks[n]], "gauge"@));
                assert(views(fields@) =~= f1.push(fl));
                assert(gauge_fields(s.gauges, ks.take(n + 1)) =~= gauge_fields(s.gauges, ks.take(n)).push(fl));
                assert(views(fields@) =~= f0 + gauge_fields(s.gauges, ks.take(n + 1)));
                n = n + 1;
            }»
        }}}
        «proof { assert(ks.take(n) =~= ks); }»
        let mut histograms = Vec::with_capacity(this.histograms.len());
        let mut it_2 = (this.histograms.into_iter_v()).into_iter_v();
        «let ghost mut n = 0int;
        let ghost all = it_2@;
        let ghost ks = ascending(s.histograms.dom());
        let ghost f0 = views(fields@);
        proof {
            assert(ks.take(0) =~= Seq::empty());
            assert(names_of(histograms@) =~= ks.take(0));
            assert(views(fields@) =~= f0 + histogram_fields(s.histograms, ks.take(0), options.sparse()));
        }»
        loop «
            invariant
                0 <= n <= all.len(), it_2@ == all.skip(n), owned_in_order(s.histograms, all), ks == ascending(s.histograms.dom()),
                views(fields@) == f0 + histogram_fields(s.histograms, ks.take(n), options.sparse()),
                names_of(histograms@) == ks.take(n),
            ensures n == all.len(),
            decreases it_2@.len(),
        »{ match it_2.next() { None => { break; } Some((histogram, mut metadata)) => {
            «proof {
                assert(all[n].0.txt() == ks[n]);
                assert((histogram, metadata) == all[n]);
                assert(ks.take(n + 1).drop_last() =~= ks.take(n));
            }
            let ghost f1 = views(fields@);»
            match options.histogram_type {
                ParquetHistogramType::Standard => {
                    metadata.insert("metric_type".to_string_v(), "histogram".to_string_v());
                    fields.push(
                        Field::new(
                            fmt_v(fmt_v(String::new(), &(histogram)), &(":buckets")),
                            DataType::new_list(DataType::UInt64, true),
                            true
                        )
                        .with_metadata(metadata.clone())
                    );
                }
                ParquetHistogramType::Sparse => {
                    metadata.insert("metric_type".to_string_v(), "sparse_histogram".to_string_v());
                    fields.push(
                        Field::new(
                            fmt_v(fmt_v(String::new(), &(histogram)), &(":bucket_indices")),
                            DataType::new_list(DataType::UInt64, true),
                            true
                        )
                        .with_metadata(metadata.clone())
                    );
                    fields.push(
                        Field::new(
                            fmt_v(fmt_v(String::new(), &(histogram)), &(":bucket_counts")),
                            DataType::new_list(DataType::UInt64, true),
                            true
                        )
                        .with_metadata(metadata.clone())
                    );
                }
            };
            histograms.push(histogram);
            «proof {
                assert(names_of(histograms@) =~= ks.take(n + 1));
                let fl = fields@.last()@;
                if options.sparse() {
                    assert(fl.metadata == with_type(s.histograms[ks[n]], "sparse_histogram"@));
                } else {
                    assert(fl.metadata == with_type(s.histograms[ks[n]], "histogram"@));
                }
                assert(views(fields@) =~= f1 + histogram_columns(s.histograms, ks[n], options.sparse()));
                assert(views(fields@) =~= f0 + histogram_fields(s.histograms, ks.take(n + 1), options.sparse()));
                n = n + 1;
            }»
        }}}
        «proof { assert(ks.take(n) =~= ks); }»
        «let ghost given = if metadata is Some { text_map(metadata->0@) } else { Map::<Str, Str>::empty() };
        let ghost own = this.metadata@;»
        this.metadata.extend(metadata.unwrap_or_default());
        «proof {
            assert(text_map(this.metadata@) =~= s.metadata.union_prefer_right(given));
            lemma_text_empty(this.metadata@);
        }
        let ghost merged = this.metadata@;»
        let schema_metadata: Option<Vec<KeyValue>> = if this.metadata.is_empty() {
            None
        } else {
            Some(
                this.metadata
                    .into_iter_v()
                    .map(|p_0 «: (String, String)»| «-> (r: KeyValue) ensures r.key == p_0.0, r.value == Some(p_0.1)» {
                        let (key, value) = p_0;
                        KeyValue {
                        key,
                        value: Some(value)
                    } })
                    .collect()
            )
        };
        «proof {
            if schema_metadata is Some {
                let q = choose|q: Seq<(String, String)>| owned_lists(merged, q) && q.len() == schema_metadata->0@.len()
                    && forall|i: int| 0 <= i < q.len() ==> (#[trigger] schema_metadata->0@[i]).key == q[i].0 && schema_metadata->0@[i].value == Some(q[i].1);
                lemma_pairs(merged, q, schema_metadata->0@);
            }
            assert(views(fields@).skip(2) =~= metric_fields(s, options.sparse()));
            assert(fields_ok(views(fields@), s, options.sparse()));
        }»
        let schema = Arc::new(Schema::new(fields));
        let props = WriterProperties::builder()
            .set_compression(options.compression.inner)
            .set_key_value_metadata(schema_metadata)
            .set_max_row_group_size(options.max_batch_size)
            .build();
        let arrow_writer = ArrowWriter::try_new(writer, schema.clone(), Some(props))?;
        Ok(ParquetWriter {
            writer: arrow_writer,
            options,
            schema,
            counters,
            gauges,
            histograms
        })
    }
//# end
}
