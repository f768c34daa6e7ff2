"""Which machinery decides which property."""

KANI_BASE = [
    "Kani 0.68 / CBMC 6.11 (verifier, MIR translation, SAT back end)",
    "the copy of the sources differs from /repo only by the appended line `use vshim as std;` and the manifests naming the stand-in crates of /verif/kani/shim",
]

VERUS_BASE = [
    "Verus 0.2026.09.13 / Z3 (verifier and SMT back end)",
    "the functions under contract are extracted from /repo on every run and rewritten by the rules of vlib/rust.py; attributes (derives included) are dropped",
    "contracts of the std types used (String, Vec, HashMap, BTreeMap, HashSet, iterators, Option) in /verif/verus/prelude.rs",
]
ARROW = ["contracts of the arrow and parquet crates in /verif/verus/arrow.rs: a file holds the schema, properties and batches given to its writer"]

PROPS = {
    "C01": dict(
        kani="c01.rs", driver="core",
        note="Proved for all values and amounts: every operation is one atomic step on the cell with the stated effect and result; other threads' steps are arbitrary between operations. Trusted: Kani/CBMC, the contract of AtomicU64; per-cell modification order only.",
        functions=["Counter::{new,with_value,default,add,increment,set,reset,value}", "<Counter as Metric>::{is_enabled,as_any,value}"],
        assumptions=["contract of AtomicU64 (vshim::sync): each operation is one atomic read-modify-write of the cell, anything may happen to the cell between two of them; memory orderings other than the per-cell modification order are not modelled"],
    ),
    "C02": dict(
        kani="c02.rs", driver="core",
        note="Proved for all values and amounts: every operation is one atomic step on the cell with the stated effect and result; other threads' steps are arbitrary between operations. Trusted: Kani/CBMC, the contract of AtomicI64; per-cell modification order only.",
        functions=["Gauge::{new,with_value,default,add,sub,increment,decrement,set,reset,value}", "<Gauge as Metric>::{is_enabled,as_any,value}"],
        assumptions=["contract of AtomicI64 (vshim::sync): each operation is one atomic read-modify-write of the cell, anything may happen to the cell between two of them; memory orderings other than the per-cell modification order are not modelled"],
    ),
    "C03": dict(
        kani="c03.rs", driver="core",
        note='Proved for an arbitrary inner metric and environment: initialiser runs at most once, never on observation, poisoned stays poisoned. Trusted: Kani/CBMC, the contract of OnceCell.',
        functions=["Lazy::{new,get,get_mut,force,deref,deref_mut,default}", "<Lazy as Metric>::{is_enabled,as_any,value}"],
        assumptions=["contract of once_cell::sync::OnceCell (vshim::sync::OnceLock): one initialiser at a time, the value is set once; other threads step at its operations only"],
    ),
    "C04": dict(
        kani="c04.rs", driver="core",
        note='Proved for all valid configurations and values against the contract of the histogram crate (assumed; the driver validates it on the real crate). Other threads step at every operation.',
        functions=["AtomicHistogram::{new,increment,config,load}", "<AtomicHistogram as Metric>::{is_enabled,as_any,value}"],
        assumptions=["contract of the histogram crate's Config (validity rule) and AtomicHistogram (one fetch_add on the bucket of the value; rejects > 2^max_value_power, panics at 2^max_value_power); which bucket a value belongs to is the crate's", "contract of std::sync::OnceLock"],
    ),
    "C05": dict(
        kani="c05.rs", driver="core",
        note='Proved for all configurations, data slices of any length and interleavings with other updates and loads. Contract of the histogram crate, RwLock and OnceLock assumed; two further harnesses, bounded to 2 buckets and labelled so, look at single buckets.',
        functions=["RwLockHistogram::{new,update_from,config,load}", "<RwLockHistogram as Metric>::{is_enabled,as_any,value}"],
        assumptions=["contract of the histogram crate's Config and Histogram (total_buckets, as_mut_slice)", "contract of std::sync::OnceLock and parking_lot::RwLock (mutual exclusion; other threads step when a lock or cell is used)"],
    ),
    "C06": dict(
        kani="c06.rs", driver="core",
        note='Proved for every single step (build, register, drop) next to any other metric, with a reader inspecting the list at every lock acquisition; histories are sequences of such steps. Contracts of BTreeMap and RwLock assumed.',
        functions=["MetricBuilder::{new,description,build,build_pinned,into_entry}", "DynBoxedMetric::{new,from_pinned,register,deref}", "DynPinnedMetric::{new,new_v2,register,drop,deref}", "DynMetricsRegistry::{register,unregister,key_for,metrics}", "metrics, Metrics::dynamic_metrics, MetricEntry::{metric,name,description}"],
        assumptions=["contract of BTreeMap (one entry per key, operations on one key leave others alone) and parking_lot::RwLock", "distinct live objects have distinct addresses; address reuse after a drop is exercised by the driver only"],
    ),
    "C07": dict(
        kani="c07.rs", driver="core",
        note='Proved for up to 2^20 static and 2^20 dynamic entries from every reachable iterator position; fold, rfold and last bounded to 2+3 entries and labelled so. Contract of btree_map::Values assumed.',
        functions=["Metrics::{iter,into_iter,static_metrics,dynamic_metrics}", "MetricsIter::{next,nth,next_back,nth_back,size_hint,count,fold,rfold}", "DynMetricsIter::{next,nth,next_back,nth_back,size_hint,len,count,fold,rfold}"],
        assumptions=["contract of btree_map::Values (positions lo..hi of the map's values); slice::Iter is the real one", "at most 2^20 static and 2^20 dynamic entries", "fold, rfold and last are bounded: at most 2 static and 3 dynamic entries", "linkme: METRICS is the slice of all statically registered entries"],
    ),
    "C08": dict(
        kani="c08.rs", driver="core",
        note='Proved for all pairs of provided items over ten representative types and kinds (the slot is empty or filled, so pairs cover all sequences). Types are compared by TypeId only.',
        functions=["request_value, request_ref, request_by_type_tag", "Request::{new,provide_value,provide_value_with,provide_ref,provide_ref_with,provide,provide_with,would_be_satisfied_by_*}", "Erased::{tag_id,downcast,downcast_mut}", "ProviderMap::{insert,provide,typeid_for,provide_dyn}", "MetricEntry::{request_value,request_ref}"],
        assumptions=["TypeId of distinct types differ (language guarantee); the code inspects types only through TypeId, so the representative types stand for all", "contract of HashMap (ProviderMap)"],
    ),
    "C09": dict(
        kani="c09.rs", driver="core",
        note='Proved for a metric in an arbitrary, changing state, static and dynamic registration. Contracts of the maps and the registry lock assumed.',
        functions=["<MetricWrapper as Metric>::{is_enabled,as_any,value,provide}, MetricWrapper::{new,from_ref}", "<ProviderMetric as Metric>::{is_enabled,as_any,value,provide}", "entry_v1, MetricEntry::{metric,deref,is,request_value,request_ref}", "<NullMetric as Metric>::*, MetricBuilder::into_entry"],
        assumptions=["contract of HashMap (ProviderMap), BTreeMap and RwLock (registry)", "the code is generic over the metric type; the harness type has an arbitrary state behind every method and stands for all", "distinct live objects of non-zero size have distinct addresses"],
    ),
    "C10": dict(
        kani="c10.rs", driver="core",
        note='Proved for maps of up to 2^40 entries from every iterator position; fold and last bounded to 3 entries and labelled so. Contracts of HashMap and phf::Map assumed.',
        functions=["Metadata::{new,from,default,default_const,new_static,is_empty,len,contains_key,get,iter,into_iter}", "MetadataIter::{next,nth,size_hint,len,count,fold,clone,last}"],
        assumptions=["contract of std HashMap and phf::Map: lookup by key equality, iteration over every entry once, exact lengths", "at most 2^40 entries", "fold and last are bounded: at most 3 entries"],
    ),
    "C11": dict(
        kani="c11.rs", driver="core",
        note='Proved for every builder state (as seen through one key, type, description and formatter) and every further call, hence for all call sequences. Contract of HashMap and of default_formatter (C12) assumed.',
        functions=["MetricBuilder::{new,description,metadata,provide,formatter,build,build_pinned}", "ProviderMap::{new,insert,provide,typeid_for,provide_dyn}", "MetricEntry::{name,description,metadata,formatted,request_ref}"],
        assumptions=["contract of HashMap (per-key operations leave other keys alone), BTreeMap and RwLock (registry)", "default_formatter is replaced by its contract (a call of it; its text is C12's)", "A, Metadata and FormattingFn stand for all provided types (compared by TypeId only)"],
    ),
    "C12": dict(
        verus=["entries.rs", "formatter.rs"], driver="core",
        note="Proved for all names and metadata contents, with a lemma that every escaped value reads back. Contracts of String, Vec, iterators and Metadata::iter (C10) assumed; format! is rewritten into the concatenation of its pieces.",
        functions=["default_formatter", "escape_label_value"],
        assumptions=VERUS_BASE + ["contract of MetricEntry::{name,metadata} and of Metadata's iteration (every entry once: C10)"],
    ),
    "C14": dict(
        verus=["types.rs", "entries.rs", "snapshotter.rs"], driver="expo",
        note="Proved for every listing, filter and reading, including readings that change meanwhile: the snapshot is the fold of the listing. Contracts of metrics() (C06, C07), MetricEntry (C09, C11), histogram loading (C04, C05) and the std collections assumed.",
        functions=["Snapshotter::{snapshot,default}", "SnapshotterBuilder::{new,build,filter,metadata}"],
        assumptions=VERUS_BASE + ["contract of metriken::metrics() (C06, C07), MetricEntry::{value,formatted,metadata,description} (C09, C11), AtomicHistogram::load and RwLockHistogram::load (C04, C05), downcast_ref, histogram::Config's accessors; a filter is any function, its answers may vary"],
    ),
    "C15": dict(
        verus=["names.rs"], driver="expo",
        note="Proved for all names and metadata maps: the column name is the stated function of name and metadata; ordered-map iteration is a function of the key set. Contracts of String, HashMap, BTreeMap, HashSet assumed.",
        functions=["canonicalize_metric_name"],
        assumptions=VERUS_BASE,
    ),
    "C16": dict(
        verus=["names.rs", "types.rs", "arrow.rs", "schema.rs", "finalize.rs", "options.rs"], driver="expo",
        note="Proved for all snapshot sequences, both representations and all metadata: schema and key-value pairs are the stated functions of the snapshots shown. Contracts of arrow's Field and Schema, parquet's writer properties and the std collections assumed; the driver reads real files back.",
        functions=["ParquetSchema::{new,push,finalize}", "Snapshot::{metadata,counters,gauges,histograms,systemtime,duration}", "canonicalize_metric_name", "ParquetOptions::{new,compression,max_batch_size,histogram_type,default}", "ParquetCompression::{none,zstd,default}"],
        assumptions=VERUS_BASE + ARROW,
    ),
    "C17": dict(
        verus=["names.rs", "types.rs", "arrow.rs", "schema.rs", "rows.rs", "push.rs"], driver="expo",
        note="Proved for all snapshots, schemas and both representations: every push adds the one stated row, which always fits the schema; closing reports the total. Contracts of arrow arrays, RecordBatch, ArrowWriter, SparseHistogram and the std collections assumed; the driver reads real files back.",
        functions=["ParquetWriter::{push,finalize,listu64_entry_from_slice,listu64_entry_from_vec,listu64_entry_null}", "HashedSnapshot::from", "Snapshot::{metadata,counters,gauges,histograms,systemtime,duration}", "ParquetSchema::{new,push}", "canonicalize_metric_name"],
        assumptions=VERUS_BASE + ARROW + ["times at or after 1970 and below 2^64 ns (stated precondition)"],
    ),
    "C18": dict(
        verus=["names.rs", "types.rs", "arrow.rs", "schema.rs", "finalize.rs", "rows.rs", "push.rs", "options.rs", "convert.rs"], driver="expo",
        note="Proved for all inputs: success means the input parsed completely and the file is exactly the file of its snapshots, with that row count. Contracts of BufReader, rmp_serde::from_read (one document per call, deterministic), arrow and parquet assumed. That errors are not spurious and panics absent inside dependencies is the driver's part.",
        functions=["MsgpackToParquet::{with_options,metadata,convert_file_handle,convert_file_path}", "ParquetSchema::{new,push,finalize}", "ParquetWriter::{push,finalize,listu64_entry_*}", "HashedSnapshot::from", "Snapshot accessors", "canonicalize_metric_name", "ParquetOptions::*, ParquetCompression::*"],
        assumptions=VERUS_BASE + ARROW + ["contract of BufReader::{fill_buf,rewind}: fill_buf is empty exactly at the end of the input, the content does not change between the passes; rmp_serde::from_read consumes one document and is a function of content and position", "preconditions: max_batch_size > 0, times representable (C17), fewer than usize::MAX bytes and columns"],
    ),
    "C19": dict(
        verus=["serial.rs"], generate=True, driver="expo",
        note="Proved for all snapshots: what serde's derive writes for the current type definitions and attributes, it reads back as the same value, structs written as maps (JSON) or as lists (msgpack), V1 and V2 never confused; to_json is one line and a newline, to_msgpack one document. The derive's documented contract is instantiated from /repo's definitions on every run (assumed, as are the formats' and the leaf types' own impls); the driver runs the generated code itself.",
        functions=["Snapshot::{to_json,to_msgpack}", "derived Serialize/Deserialize of Snapshot, SnapshotV1, SnapshotV2, Counter, Gauge, Histogram (serde_derive's contract, instantiated from the current definitions and attributes)"],
        assumptions=VERUS_BASE + [
            "serde_derive's documented contract: fields in declaration order under their names; default, rename and untagged as documented; unknown keys ignored, missing ones an error; a list is read by position",
            "serde's own impls for String, integers, Vec, HashMap, SystemTime, Duration, and the histogram crate's for its Histogram, read back what they write",
            "serde_json and rmp-serde: a document denotes the data model value it was written from; structs are maps in JSON and lists in msgpack",
        ],
    ),
    "C13": dict(
        verus=["attr.rs"], driver="attr",
        note="Proved for all token streams: an argument list is accepted exactly if every argument is known and given at most once and no metadata key is repeated, and the expansion's tokens are the stated function of the static and the arguments. Contracts of syn, quote, proc_macro2 and BTreeMap assumed; what the expanded text means (declare_metric_v1!, rustc, C08, C09) and how the crate is called without `crate = ..` is not in the proof: the driver compiles and runs generated programs (bounded).",
        functions=["metric", "MetricArgs::{parse,crate_path}", "ArgName::parse", "SingleArg::parse", "SingleArgExt::insert_or_duplicate", "MetadataName::{parse,value,to_literal}", "MetadataEntry::parse", "Metadata::parse", "MetadataMap::insert"],
        assumptions=VERUS_BASE + ["contracts of syn (parsing a type is a function of the tokens and consumes at least one; fork, lookahead, braces, Punctuated), of quote!/parse_quote! (words and interpolated tokens in order; the parsed value has these tokens) and of LitStr and Ident",
            "what an error says is dropped", "Display for ArgName (the name itself)", "proc_macro_crate::crate_name (driver: compiled under both names)", "derive(Default) for MetricArgs and MetadataMap", "the expansion of declare_metric_v1! by rustc"],
    ),
}
