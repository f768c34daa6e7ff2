
// ------------------------------------------------------------------- C19
// serde's data model, as far as snapshots need it, and the contract of the
// formats: a document denotes one value of it. `named` says how structs are
// written: as maps from the field names (JSON) or as lists (msgpack).

pub struct Hist { pub id: int }
pub struct Instant { pub secs: nat, pub nanos: nat }
pub struct Span { pub secs: nat, pub nanos: nat }

pub enum Value { Int(int), Text(Str), Hist(Hist), List(Seq<Value>), Dict(Seq<(Str, Value)>) }

pub open spec fn unique(d: Seq<(Str, Value)>) -> bool { forall|i: int, j: int| 0 <= i < j < d.len() ==> (#[trigger] d[i]).0 != (#[trigger] d[j]).0 }
pub open spec fn find(d: Seq<(Str, Value)>, k: Str) -> Option<Value> {
    if exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k { Some(d[choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k].1) } else { None }
}
pub proof fn lemma_find(d: Seq<(Str, Value)>, i: int)
    requires unique(d), 0 <= i < d.len(),
    ensures find(d, d[i].0) == Some(d[i].1),
{
    let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).0 == d[i].0;
    assert(i == j);
}

pub open spec fn ser_text(x: Str, named: bool) -> Value { Value::Text(x) }
pub open spec fn de_text(v: Value) -> Option<Str> { match v { Value::Text(x) => Some(x), _ => None } }
pub proof fn rt_text(x: Str, named: bool) ensures de_text(ser_text(x, named)) == Some(x) {}

pub open spec fn ser_u64(x: u64, named: bool) -> Value { Value::Int(x as int) }
pub open spec fn de_u64(v: Value) -> Option<u64> { match v { Value::Int(x) => if 0 <= x <= u64::MAX { Some(x as u64) } else { None }, _ => None } }
pub proof fn rt_u64(x: u64, named: bool) ensures de_u64(ser_u64(x, named)) == Some(x) {}

pub open spec fn ser_i64(x: i64, named: bool) -> Value { Value::Int(x as int) }
pub open spec fn de_i64(v: Value) -> Option<i64> { match v { Value::Int(x) => if i64::MIN <= x <= i64::MAX { Some(x as i64) } else { None }, _ => None } }
pub proof fn rt_i64(x: i64, named: bool) ensures de_i64(ser_i64(x, named)) == Some(x) {}

// The histogram crate writes and reads its own type.
pub open spec fn ser_hist(x: Hist, named: bool) -> Value { Value::Hist(x) }
pub open spec fn de_hist(v: Value) -> Option<Hist> { match v { Value::Hist(x) => Some(x), _ => None } }
pub proof fn rt_hist(x: Hist, named: bool) ensures de_hist(ser_hist(x, named)) == Some(x) {}

/// A map is written entry by entry, in the order in which it is iterated.
pub uninterp spec fn listing(m: SMap) -> Seq<(Str, Str)>;
pub axiom fn axiom_listing(m: SMap)
    ensures
        forall|i: int, j: int| 0 <= i < j < #[trigger] listing(m).len() ==> (#[trigger] listing(m)[i]).0 != (#[trigger] listing(m)[j]).0,
        forall|i: int| 0 <= i < listing(m).len() ==> m.contains_key((#[trigger] listing(m)[i]).0) && m[listing(m)[i].0] == listing(m)[i].1,
        forall|k: Str| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < listing(m).len() && (#[trigger] listing(m)[i]).0 == k;
pub open spec fn entries(m: SMap) -> Seq<(Str, Value)> { Seq::new(listing(m).len(), |i: int| (listing(m)[i].0, Value::Text(listing(m)[i].1))) }
pub open spec fn ser_map(m: SMap, named: bool) -> Value { Value::Dict(entries(m)) }
pub open spec fn de_map(v: Value) -> Option<SMap> { match v {
    Value::Dict(d) => if unique(d) && forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).1 is Text {
        Some(Map::new(d.map_values(|e: (Str, Value)| e.0).to_set(), |k: Str| find(d, k)->0->Text_0))
    } else { None },
    _ => None } }
pub proof fn rt_map(m: SMap, named: bool) ensures de_map(ser_map(m, named)) == Some(m) {
    axiom_listing(m);
    let d = entries(m);
    assert(unique(d));
    let r = de_map(ser_map(m, named))->0;
    let keys = d.map_values(|e: (Str, Value)| e.0);
    assert forall|k: Str| r.contains_key(k) <==> m.contains_key(k) by {
        if r.contains_key(k) {
            let i = choose|i: int| 0 <= i < keys.len() && keys[i] == k;
            assert(listing(m)[i].0 == k);
        }
        if m.contains_key(k) {
            let i = choose|i: int| 0 <= i < listing(m).len() && (#[trigger] listing(m)[i]).0 == k;
            assert(keys[i] == k);
        }
    }
    assert forall|k: Str| r.contains_key(k) implies r[k] == m[k] by {
        let i = choose|i: int| 0 <= i < listing(m).len() && (#[trigger] listing(m)[i]).0 == k;
        assert(d[i].0 == k);
        lemma_find(d, i);
    }
    assert(r =~= m);
}

// Times: serde's own impls. Unknown keys are errors there.
pub open spec fn ser_pair(a: Str, b: Str, secs: nat, nanos: nat, named: bool) -> Value {
    if named { Value::Dict(seq![(a, Value::Int(secs as int)), (b, Value::Int(nanos as int))]) } else { Value::List(seq![Value::Int(secs as int), Value::Int(nanos as int)]) }
}
pub open spec fn de_nat(v: Option<Value>) -> Option<nat> { match v { Some(Value::Int(x)) => if x >= 0 { Some(x as nat) } else { None }, _ => None } }
/// A billion nanoseconds or more are carried into the seconds.
pub open spec fn carry(s: Option<nat>, n: Option<nat>) -> Option<(nat, nat)> { match (s, n) {
    (Some(s), Some(n)) => if n <= u32::MAX && s + n / 1_000_000_000 <= u64::MAX { Some((s + n / 1_000_000_000, n % 1_000_000_000)) } else { None },
    _ => None } }
pub open spec fn de_pair(a: Str, b: Str, v: Value) -> Option<(nat, nat)> { match v {
    Value::Dict(d) => if unique(d) && (forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).0 == a || d[i].0 == b) {
            carry(de_nat(find(d, a)), de_nat(find(d, b)))
        } else { None },
    Value::List(l) => if l.len() == 2 { carry(de_nat(Some(l[0])), de_nat(Some(l[1]))) } else { None },
    _ => None } }
pub proof fn rt_pair(a: Str, b: Str, secs: nat, nanos: nat, named: bool)
    requires a != b, secs <= u64::MAX, nanos < 1_000_000_000,
    ensures de_pair(a, b, ser_pair(a, b, secs, nanos, named)) == Some((secs, nanos)),
{
    if named {
        let d = seq![(a, Value::Int(secs as int)), (b, Value::Int(nanos as int))];
        assert(unique(d));
        lemma_find(d, 0);
        lemma_find(d, 1);
    }
}
pub open spec fn ser_time(x: Instant, named: bool) -> Value { ser_pair("secs_since_epoch"@, "nanos_since_epoch"@, x.secs, x.nanos, named) }
pub open spec fn de_time(v: Value) -> Option<Instant> { match de_pair("secs_since_epoch"@, "nanos_since_epoch"@, v) { Some((s, n)) => Some(Instant { secs: s, nanos: n }), None => None } }
pub proof fn rt_time(x: Instant, named: bool) requires x.secs <= u64::MAX, x.nanos < 1_000_000_000 ensures de_time(ser_time(x, named)) == Some(x) {
    reveal_strlit("secs_since_epoch"); reveal_strlit("nanos_since_epoch");
    assert("secs_since_epoch"@.len() != "nanos_since_epoch"@.len());
    rt_pair("secs_since_epoch"@, "nanos_since_epoch"@, x.secs, x.nanos, named);
}
pub open spec fn ser_span(x: Span, named: bool) -> Value { ser_pair("secs"@, "nanos"@, x.secs, x.nanos, named) }
pub open spec fn de_span(v: Value) -> Option<Span> { match de_pair("secs"@, "nanos"@, v) { Some((s, n)) => Some(Span { secs: s, nanos: n }), None => None } }
pub proof fn rt_span(x: Span, named: bool) requires x.secs <= u64::MAX, x.nanos < 1_000_000_000 ensures de_span(ser_span(x, named)) == Some(x) {
    reveal_strlit("secs"); reveal_strlit("nanos");
    assert("secs"@.len() != "nanos"@.len());
    rt_pair("secs"@, "nanos"@, x.secs, x.nanos, named);
}
/// The values of a metadata map are texts, never numbers.
pub proof fn map_is_no_time(m: SMap, named: bool)
    ensures de_span(ser_map(m, named)) is None, de_time(ser_map(m, named)) is None,
{
    let d = entries(m);
    assert forall|k: Str| de_nat(#[trigger] find(d, k)) is None by {
        if find(d, k) is Some {
            let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k;
            assert(d[i].1 is Text);
        }
    }
}

// The formats. What a value is for serde is up to its type (`ser_T` below).
pub mod serde { use super::*; verus! { pub trait Serialize {} } }
#[verifier::external_body] pub struct JsonError {}
#[verifier::external_body] pub struct SerializeMsgpackError {}
/// The bytes the format writes for a value, if it can be written: one line of
/// JSON, or several; msgpack with its structs as lists or as maps.
pub uninterp spec fn json_of<T: ?Sized>(v: &T) -> Option<Seq<u8>>;
pub uninterp spec fn json_lines_of<T: ?Sized>(v: &T) -> Option<Seq<u8>>;
pub uninterp spec fn msgpack_of<T: ?Sized>(v: &T, named: bool) -> Option<Seq<u8>>;
pub mod serde_json { use super::*; verus! {
    #[verifier::external_body]
    pub fn to_vec<T: serde::Serialize + ?Sized>(v: &T) -> (r: Result<Vec<u8>, JsonError>)
        ensures r is Ok <==> json_of(v) is Some, r is Ok ==> r->Ok_0@ == json_of(v)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec_pretty<T: serde::Serialize + ?Sized>(v: &T) -> (r: Result<Vec<u8>, JsonError>)
        ensures r is Ok <==> json_lines_of(v) is Some, r is Ok ==> r->Ok_0@ == json_lines_of(v)->0 { unimplemented!() }
} }
pub mod rmp_serde { use super::*; verus! {
    #[verifier::external_body]
    pub fn to_vec<T: serde::Serialize + ?Sized>(v: &T) -> (r: Result<Vec<u8>, SerializeMsgpackError>)
        ensures r is Ok <==> msgpack_of(v, false) is Some, r is Ok ==> r->Ok_0@ == msgpack_of(v, false)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec_named<T: serde::Serialize + ?Sized>(v: &T) -> (r: Result<Vec<u8>, SerializeMsgpackError>)
        ensures r is Ok <==> msgpack_of(v, true) is Some, r is Ok ==> r->Ok_0@ == msgpack_of(v, true)->0 { unimplemented!() }
    pub mod encode { use super::super::*; verus! { pub use super::to_vec; pub use super::to_vec_named; } }
} }
/// One whole document in one of msgpack's two forms.
pub open spec fn whole<T: ?Sized>(v: &T, r: Result<Vec<u8>, SerializeMsgpackError>) -> bool {
    (msgpack_of(v, false) == (match r { Ok(b) => Some(b@), Err(_) => None })) || (msgpack_of(v, true) == (match r { Ok(b) => Some(b@), Err(_) => None }))
}

pub struct SnapshotFns {}
impl SnapshotFns {
//# item metriken-exposition impl Snapshot fn to_json
    pub fn to_json<T>(val: &T) -> ‹Result<Vec<u8>, JsonError>›«(r: Result<Vec<u8>, JsonError>)»
    where
        T: serde::Serialize + ?Sized,
    «   ensures
            r is Ok <==> json_of(val) is Some,
            r is Ok ==> r->Ok_0@ =~= json_of(val)->0.push(10u8),»
    {
        let mut res = serde_json::to_vec(val)?;
        res.push(b'\n');
        Ok(res)
    }
//# end
//# item metriken-exposition impl Snapshot fn to_msgpack
    pub fn to_msgpack<T>(val: &T) -> ‹Result<Vec<u8>, SerializeMsgpackError>›«(r: Result<Vec<u8>, SerializeMsgpackError>)»
    where
        T: serde::Serialize + ?Sized,
    «   ensures
            whole(val, r),»
    {
        rmp_serde::encode::to_vec(val)
    }
//# end
}

//# generated
