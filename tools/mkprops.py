#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Counters are exact under any concurrent use",
     "Every counter operation takes effect atomically: adding (or incrementing by one) changes the value by exactly the amount added, modulo 2^64, setting (or resetting to zero) replaces it, and each of them returns the value it replaced; reading changes nothing and returns a value the counter really had. So no update is lost, duplicated or split, whatever other threads do at the same time. As a metric a counter is always enabled and reports its current value as a counter.",
     ["schedules", "inputs", "histories"], "all values, all amounts, all interleavings of any number of threads, all operation histories including wrap-around",
     "No test performs two concurrent operations or wraps; the tests only check names. A lost update needs a particular interleaving.",
     ["metriken/src/counter.rs"], [("one atomic read-modify-write per operation", "metriken/src/counter.rs: Counter::{add,set,increment,reset,value}")],
     ["Counter::add/increment/set/reset/value", "Metric::value"])
prop("C02", "Gauges are exact under any concurrent use",
     "Every gauge operation takes effect atomically: add and subtract (and increment and decrement by one) change the value by exactly the signed amount, wrapping at 64 bits, set (and reset to zero) replaces it, and each of them returns the value it replaced; reading changes nothing and returns a value the gauge really had. So no update is lost, duplicated or split, whatever other threads do at the same time. As a metric a gauge is always enabled and reports its current value, sign included, as a gauge.",
     ["schedules", "inputs", "histories"], "all signed values and amounts including i64::MIN/MAX, all interleavings, all operation histories",
     "No test exercises gauge arithmetic at all, let alone concurrently or at the wrap-around points.",
     ["metriken/src/gauge.rs"], [("one atomic read-modify-write per operation", "metriken/src/gauge.rs: Gauge::{add,sub,set,...}")],
     ["Gauge::add/sub/increment/decrement/set/reset/value", "Metric::value"])
prop("C03", "Lazy metrics initialise once, on use, never on observation",
     "A lazy value runs its initialising function at most once, on the first access through the value, and every access, from any thread, sees that same single instance. Observing it (get, is-enabled, as-any, value, or taking a snapshot) never initialises it: until first access it is disabled and reports nothing, afterwards it is enabled, its as-any is the inner metric itself and it reports the inner metric's value. If the initialiser panicked it is not run again and later accesses panic rather than yield an uninitialised value.",
     ["schedules", "histories"], "all sequences of accesses and observations, all interleavings of first accesses, all inner metrics and initialisers",
     "No test uses Lazy; double initialisation needs two racing first accesses.",
     ["metriken/src/lazy.rs"], [("OnceCell + taken initialiser", "metriken/src/lazy.rs: Lazy::{force,get,get_mut}"), ("Metric for Lazy delegates through get", "metriken/src/lazy.rs")],
     ["Lazy::{new,get,get_mut,force}", "Deref/DerefMut", "Metric for Lazy"])
prop("C04", "Event histograms count every accepted value exactly once",
     "Creating an event-recording (atomic) histogram with a grouping power of up to 24 panics exactly when the grouping power is not below the maximum value power or the latter exceeds 64, and the configuration given is the one it reports. Recording a value the configuration covers (one below two to the maximum value power) adds exactly one, for all concurrent recorders, to the bucket the configuration assigns to that value and leaves all other buckets alone; recording any other value returns an error and changes no bucket. Loading returns nothing before the first successful recording and afterwards the full bucket counts under the same configuration.",
     ["schedules", "inputs", "configurations", "histories"], "all (grouping power, max value power) pairs, all u64 values, all interleavings and histories of recordings and loads",
     "No test records into a metriken histogram.",
     ["metriken/src/histogram.rs"], [("lazily created atomic bucket array", "metriken/src/histogram.rs: AtomicHistogram::{new,increment,load,config}")],
     ["AtomicHistogram::{new,increment,load,config}"])
prop("C05", "Bulk histogram updates replace all buckets or nothing",
     "Creating a bulk-updated histogram with a grouping power of up to 24 panics exactly when the grouping power is not below the maximum value power or the latter exceeds 64. A bulk update whose length equals the configured number of buckets replaces every bucket with the given data as one atomic step with respect to loads; any other length returns an error and changes nothing, including whether the histogram counts as ever updated. Loading returns nothing until a successful update, and then the data of the latest one under the same configuration.",
     ["schedules", "inputs", "configurations", "histories"], "all configurations, all data slices of all lengths, all interleavings of updates and loads",
     "No test calls update_from.",
     ["metriken/src/histogram.rs"], [("length check, then copy under the write lock", "metriken/src/histogram.rs: RwLockHistogram::{update_from,load,get_or_init}")],
     ["RwLockHistogram::{new,update_from,load,config}"])
prop("C06", "A dynamic metric is listed exactly while it is alive",
     "From the moment a dynamic metric is built boxed, or a pinned one is registered, until it is dropped, the list of metrics contains exactly one entry that refers to that very metric, with the name and description it was (last) registered with; after it is dropped, or if it was never registered, the list contains no entry referring to it. Creating, registering or dropping one metric never adds, removes or changes the entry of another, so every listed entry refers to a live metric at every moment (none of the metrics being stored inside another). Access through the box or pinned wrapper reaches the same metric that the entry reports.",
     ["histories", "schedules", "inputs"], "all sequences of building, registering and dropping any number of metrics of any type, and all interleavings with readers of the list",
     "Tests build at most a few metrics of one type in one fixed order; a wrong or dangling entry needs particular lifetimes, types or orders.",
     ["metriken-core/src/dynmetrics.rs", "metriken-core/src/metrics.rs"], [("registry keyed by metric address, removal in Drop", "metriken-core/src/dynmetrics.rs: DynMetricsRegistry::{register,unregister}, DynPinnedMetric::{register,drop}, DynBoxedMetric::from_pinned")],
     ["metrics()", "MetricBuilder::{build,build_pinned}", "DynPinnedMetric::register", "Drop"])
prop("C07", "Iterating over the metrics visits each entry exactly once",
     "Iterating over all metrics visits every static entry and then every dynamic entry exactly once, and backwards in exactly the reverse order, also when forward and backward steps are mixed. Every other way of consuming the iterator (skipping ahead from either end, counting, folding from either end, size hints, exhausting it and asking again) agrees with step-by-step iteration at every position. The same holds for iterating over only the dynamic metrics, whose exact length is also always right.",
     ["inputs", "histories"], "any number of static and dynamic metrics, any sequence of forward/backward/skip/count/fold calls",
     "Tests only call iter().count() and plain forward iteration on one or two metrics.",
     ["metriken-core/src/metrics.rs"], [("chained static and dynamic iterators", "metriken-core/src/metrics.rs: MetricsIter, DynMetricsIter")],
     ["Metrics::{iter,static_metrics,dynamic_metrics}", "Iterator/DoubleEndedIterator methods"])
prop("C08", "Typed requests yield exactly the first matching provided item",
     "Requesting a value or a reference of some type from a metric yields exactly the first item of that type and kind (by value, or by reference) that the metric provides, and nothing if it provides none; items of other types or of the other kind are never returned, converted or confused with it, whatever the type (sized or unsized). While providing, closures that compute an item run only if their item is taken, and the query whether an item would satisfy the request says yes exactly if it would then be taken.",
     ["inputs", "histories"], "all types and kinds requested, all sequences of items provided",
     "One unit test requests one type that is present; type confusion or last-wins needs other combinations.",
     ["metriken-core/src/provide.rs"], [("type-tagged option behind an erased request", "metriken-core/src/provide.rs: Request, TaggedOption, Erased::downcast"), ("ProviderMap", "metriken-core/src/provide.rs")],
     ["request_value", "request_ref", "Request::{provide_*,would_be_satisfied_by_*}", "MetricEntry::{request_value,request_ref}"])
prop("C09", "Registering a metric does not change how it behaves",
     "The entry of a statically or dynamically registered metric reports exactly what the metric itself reports (enabled state, value, as-any identity) at every moment, and passes on everything the metric itself provides that the registration does not supply. An entry recognises its own metric and, among distinct live metrics of non-zero size none of which contains another, no other one. Entries without a metric report themselves as disabled and without a value.",
     ["inputs", "histories"], "all metric types and states, both registration kinds, all pairs of metrics",
     "Tests never compare an entry's report with the metric's own, nor call is() on dynamic metrics.",
     ["metriken-core/src/wrapper.rs", "metriken-core/src/dynmetrics.rs", "metriken-core/src/lib.rs", "metriken-core/src/null.rs"],
     [("transparent wrapper", "metriken-core/src/wrapper.rs: MetricWrapper"), ("metric stored first, repr(C)", "metriken-core/src/dynmetrics.rs: ProviderMetric"), ("address comparison", "metriken-core/src/lib.rs: MetricEntry::is")],
     ["MetricEntry::{metric,is,deref}", "Metric methods"])
prop("C10", "Metric metadata behaves as one consistent map",
     "Metadata, whether declared statically or built at run time, is a map: looking up a key gives its value exactly if the key is contained, the number of entries, emptiness and the iteration agree with the lookups, and iteration yields every entry exactly once with nothing else. Every way of consuming the iteration (stepping, skipping ahead, folding, counting, cloning midway, length and size hints, asking again after the end) agrees with stepping through it from the same position. Metadata built from a map holds exactly that map's entries; default metadata is empty.",
     ["inputs", "histories"], "all metadata contents of both kinds, all keys, all sequences of iterator calls",
     "Tests only get one or two keys by name.",
     ["metriken-core/src/metadata.rs"], [("delegation to the static or dynamic map", "metriken-core/src/metadata.rs: Metadata, MetadataIter")],
     ["Metadata::{new,from,default,get,contains_key,len,is_empty,iter}", "MetadataIter"])
prop("C11", "A built dynamic metric carries exactly what the builder was given",
     "A dynamic metric made with the builder has exactly the name given, the description last given (none if none was), exactly the metadata pairs given with the last value for a repeated key, and for each provided type the value last provided, whatever the order of the builder calls. Its formatted name is the result of the formatter last set on the builder, called with this entry and the requested format, or the default formatting if none was set. No builder call affects what another one set, and all of this stays the same however the metric is built (boxed or pinned).",
     ["inputs", "histories", "programs"], "all sequences of builder calls with all strings, types and formatters",
     "One test checks one metadata pair; a formatter set through the builder and repeated or mixed calls are never checked.",
     ["metriken-core/src/dynmetrics.rs", "metriken-core/src/provide.rs", "metriken-core/src/lib.rs"], [("builder methods and build_pinned", "metriken-core/src/dynmetrics.rs: MetricBuilder"), ("formatted()", "metriken-core/src/lib.rs: MetricEntry::formatted")],
     ["MetricBuilder::*", "MetricEntry::{name,description,metadata,formatted,request_ref}"])
prop("C12", "Default formatting is the name, plus well-formed Prometheus labels",
     "In the simple format the default formatting of a metric is exactly its name. In the Prometheus format it is exactly the name if the metric has no metadata, and otherwise the name followed by {, one key=\"value\" label per metadata entry separated by a comma and a space, and }, with every backslash, double quote and newline in a value escaped as \\\\, \\\" and \\n and nothing else changed, so that each original value can be recovered from the text. Every metadata entry appears exactly once.",
     ["inputs"], "all metric names, all metadata contents (any Unicode, quotes, backslashes, newlines, empty values)",
     "Tests use two labels with plain values.",
     ["metriken-core/src/formatter.rs"], [("default_formatter / escape_label_value", "metriken-core/src/formatter.rs")],
     ["default_formatter", "MetricEntry::formatted"])
prop("C13", "The metric attribute declares exactly what it was told",
     "A static declared with the metric attribute is listed exactly once with the name, description, metadata and formatter given in the attribute (by default: the static's name, no description, no metadata, the default formatter), and the static keeps its type and initial value. Repeating an argument or a metadata key, or giving an unknown argument, is a compile error.",
     ["programs"], "all attribute argument lists and all statics",
     "Tests compile a dozen fixed declarations.",
     ["metriken-derive/src/args.rs", "metriken-derive/src/metric.rs", "metriken-core/src/lib.rs"], [("argument parsing and expansion", "metriken-derive/src/metric.rs: metric, MetricArgs::parse"), ("declare_metric_v1!", "metriken-core/src/lib.rs")],
     ["#[metric]", "compiler diagnostics"])
prop("C14", "A snapshot holds every selected metric's reading, and only those",
     "A snapshot contains one counter, gauge or histogram reading for each listed metric that the filter accepts and that has such a value, in listing order, and nothing else; metrics that the filter rejects, that are disabled, that were never recorded into, or that are of another kind leave no trace. Each reading has the metric's simple formatted name, its value (sign and all buckets included), and its metadata with the description, if any, added under \"description\"; a histogram's metadata also carries its grouping and maximum value powers under \"grouping_power\" and \"max_value_power\". The snapshot's own metadata is exactly what the builder was given, and without a filter every metric is selected.",
     ["inputs", "histories", "configurations"], "all sets of registered metrics of all kinds, all filters, all metadata and descriptions",
     "There is no test of the snapshotter.",
     ["metriken-exposition/src/snapshotter.rs"], [("one pass over metrics()", "metriken-exposition/src/snapshotter.rs: Snapshotter::snapshot, SnapshotterBuilder")],
     ["Snapshotter::snapshot", "SnapshotterBuilder::{filter,metadata,build}"])
prop("C15", "Column names are a fixed function of a metric's name and metadata",
     "A metric without a \"metric\" metadata key is stored under its own name. Otherwise its column name is the value of \"metric\", then the values of \"name\", \"op\", \"state\" and \"direction\" in that order as far as present, then the values of all further keys in ascending key order except \"unit\", \"grouping_power\", \"max_value_power\" and \"id\", and last the value of \"id\" if present, joined by slashes. The column name depends on nothing else, in particular not on the order in which the metadata was built, so schema and rows always agree on it.",
     ["inputs"], "all names and all metadata maps, all hash orders",
     "Test snapshots have no metadata at all.",
     ["metriken-exposition/src/snapshot.rs"], [("canonical name", "metriken-exposition/src/snapshot.rs: canonicalize_metric_name")],
     ["column names of the written file"])
prop("C16", "The columns of the file are the union of all metrics seen",
     "The written schema has a non-null timestamp and a nullable duration column, then one nullable unsigned column per distinct counter name, one nullable signed column per distinct gauge name, and per distinct histogram name one bucket list column named name:buckets (standard) or an index and a count list column named name:bucket_indices and name:bucket_counts (sparse), each kind in ascending name order, for the union over all snapshots shown to the schema. Each column carries the metadata of the first reading of that metric seen plus \"metric_type\" (counter, gauge, histogram or sparse_histogram). The file metadata is that of the first snapshot that has any, overridden and extended by the pairs the caller passes.",
     ["inputs", "histories", "configurations"], "all snapshot sequences, all metric sets, both histogram representations, all metadata",
     "Tests use two snapshots with the same three metrics and no metadata.",
     ["metriken-exposition/src/parquet.rs"], [("ParquetSchema::{push,finalize}", "metriken-exposition/src/parquet.rs")],
     ["schema and key-value metadata of the written file"])
prop("C17", "Each row carries exactly its snapshot's readings",
     "Every snapshot pushed to the writer adds exactly one row, in push order, holding the snapshot's time and (if it has one) duration in nanoseconds, and in each metric's column exactly that metric's reading in this snapshot (counter and gauge values unchanged, all histogram buckets in order, or exactly the non-zero buckets' indices and counts in the sparse form), or null if the snapshot lacks the metric. A metric occurring twice in a snapshot contributes its last reading; metrics unknown to the schema do not disturb other columns. Times are since the Unix epoch and representable in 64-bit nanoseconds.",
     ["inputs", "histories", "configurations"], "all snapshots (both versions) with any subset of the schema's metrics, all values and histogram configurations, both representations",
     "Tests push two snapshots, each with all metrics present.",
     ["metriken-exposition/src/parquet.rs", "metriken-exposition/src/snapshot.rs"], [("ParquetWriter::push", "metriken-exposition/src/parquet.rs"), ("HashedSnapshot::from, Snapshot accessors", "metriken-exposition/src/snapshot.rs")],
     ["rows of the written file"])
prop("C18", "Conversion writes one row per input snapshot or reports an error",
     "Converting a stream of msgpack snapshots, read from its beginning, produces a file with one row per snapshot in input order and the union of their metrics as columns, with the converter's options applied and its metadata pairs in the file's metadata, and returns that number of rows. Corrupt or truncated input and I/O errors of the input or output are returned as errors, never as panics or as success.",
     ["inputs", "fault_sequences"], "all snapshot streams of any length (including empty), all corruptions, I/O faults at any point",
     "The converter has no test.",
     ["metriken-exposition/src/convert.rs", "metriken-exposition/src/parquet.rs"], [("two passes over the input", "metriken-exposition/src/convert.rs: MsgpackToParquet::convert_file_handle")],
     ["MsgpackToParquet::{convert_file_path,convert_file_handle}"])
prop("C19", "Serialised snapshots read back unchanged",
     "A snapshot of either version, serialised to JSON or msgpack and deserialised, is the same snapshot: same version, time, duration, metadata and readings in the same order. JSON output is a single line: one value followed by a newline.",
     ["inputs"], "all snapshots of both versions",
     "No test serialises a snapshot.",
     ["metriken-exposition/src/snapshot.rs"], [("serde derives, untagged enum order", "metriken-exposition/src/snapshot.rs")],
     ["Snapshot::{to_json,to_msgpack}", "serde::Deserialize"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
