
// ----------------------------------------- input and decoding (contract)
pub trait Read: Sized { 
    /// What the input holds from where it stands (the start, for a file).
    spec fn bytes(&self) -> Seq<u8>;
}
#[verifier::external_body]
pub struct IoError { x: u8 }
impl core::convert::From<IoError> for ParquetError { #[verifier::external_body] fn from(e: IoError) -> (r: ParquetError) { unimplemented!() } }
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct BufReader<R> { r: R }
impl<R: Read> BufReader<R> {
    pub uninterp spec fn content(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn new(r: R) -> (s: Self) ensures s.content() == r.bytes(), s.pos() == 0 { unimplemented!() }
    /// Empty exactly at the end of the input; nothing is consumed.
    #[verifier::external_body]
    pub fn fill_buf(&mut self) -> (r: Result<&[u8], IoError>)
        ensures final(self).content() == old(self).content(), final(self).pos() == old(self).pos(),
            r is Ok ==> (r->Ok_0@.len() == 0 <==> old(self).pos() >= old(self).content().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn rewind(&mut self) -> (r: Result<(), IoError>)
        ensures final(self).content() == old(self).content(), r is Ok ==> final(self).pos() == 0 { unimplemented!() }
}
/// What one msgpack document at this position holds, and where it ends.
pub uninterp spec fn decoded(c: Seq<u8>, p: nat) -> Option<(Snapshot, nat)>;
pub axiom fn decoded_consumes(c: Seq<u8>, p: nat)
    ensures decoded(c, p) is Some ==> p < (decoded(c, p)->0).1 <= c.len();
pub mod rmp_serde {
    use super::*;
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub struct Error { x: u8 }
    #[verifier::external_body]
    pub fn from_read<R: Read>(r: &mut BufReader<R>) -> (s: Result<Snapshot, Error>)
        ensures final(r).content() == old(r).content(),
            s is Ok ==> decoded(old(r).content(), old(r).pos()) == Some((s->Ok_0, final(r).pos())) { unimplemented!() }
    }
}
impl ParquetError {
    #[verifier::external_body]
    pub fn External<E>(e: Box<E>) -> (r: ParquetError) { unimplemented!() }
}

// ------------------------------------------------------------- C18 (spec)
/// The first `n` snapshots of the input and where they end.
pub open spec fn series(c: Seq<u8>, n: nat) -> (Seq<Snapshot>, nat) decreases n {
    if n == 0 { (Seq::empty(), 0) } else {
        let (s, p) = series(c, (n - 1) as nat);
        match decoded(c, p) { Some((x, q)) => (s.push(x), q), None => (s, p) }
    }
}
pub open spec fn readable(c: Seq<u8>, n: nat) -> bool {
    forall|i: nat| i < n ==> decoded(c, (#[trigger] series(c, i)).1) is Some
}
/// The input is exactly these `n` snapshots.
pub open spec fn complete(c: Seq<u8>, n: nat) -> bool { readable(c, n) && series(c, n).1 == c.len() }
pub open spec fn rows_of(xs: Seq<Snapshot>, s: SchemaV, sparse: bool) -> Seq<Seq<ColV>> {
    xs.map_values(|x: Snapshot| row_of(x, s, sparse))
}
/// What the parquet format can hold.
pub open spec fn convertible(c: Seq<u8>) -> bool {
    &&& c.len() < usize::MAX
    &&& forall|n: nat, i: int| #![trigger series(c, n).0[i]] readable(c, n) && 0 <= i < series(c, n).0.len() ==> representable(series(c, n).0[i])
    &&& forall|n: nat| #![trigger complete(c, n)] complete(c, n) ==> {
        let s = schema_of(series(c, n).0);
        2 + s.counters.len() + s.gauges.len() + s.histograms.len() * 3 <= usize::MAX
    }
}
/// The file that was written is the file of these snapshots.
pub open spec fn converted(xs: Seq<Snapshot>, f: Seq<FieldV>, p: PropsV, given: SMap, o: ParquetOptions) -> bool {
    let s = schema_of(xs);
    &&& closed(f, p, rows_of(xs, s, o.sparse()))
    &&& fields_ok(f, s, o.sparse())
    &&& pairs_ok(p.kv, s.metadata.union_prefer_right(given))
    &&& p.compression == o.comp()
}
pub proof fn lemma_series(c: Seq<u8>, n: nat)
    requires readable(c, n),
    ensures series(c, n).0.len() == n, n <= series(c, n).1, n > 0 ==> series(c, n).1 <= c.len(),
        forall|i: nat| i < n ==> (#[trigger] series(c, i)).1 < series(c, n).1,
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        assert(decoded(c, series(c, m).1) is Some);
        lemma_series(c, m);
        decoded_consumes(c, series(c, m).1);
        assert forall|i: nat| i < n implies (#[trigger] series(c, i)).1 < series(c, n).1 by {
            if i < m { assert(series(c, i).1 < series(c, m).1); }
        }
    }
}
pub proof fn lemma_one_reading(c: Seq<u8>, a: nat, b: nat)
    requires complete(c, a), complete(c, b),
    ensures a == b,
{
    lemma_series(c, a);
    lemma_series(c, b);
    if a < b { assert(series(c, a).1 < series(c, b).1); }
    if b < a { assert(series(c, b).1 < series(c, a).1); }
}
pub proof fn lemma_row_total(f: Seq<FieldV>, xs: Seq<Snapshot>, s: SchemaV, sparse: bool)
    requires fields_ok(f, s, sparse),
    ensures row_total(rows_of(xs, s, sparse)) == xs.len(),
    decreases xs.len(),
{
    if xs.len() > 0 {
        lemma_row_total(f, xs.drop_last(), s, sparse);
        lemma_row_fits(f, s, sparse, xs.last());
        assert(rows_of(xs, s, sparse).drop_last() =~= rows_of(xs.drop_last(), s, sparse));
    }
}

// ------------------------------------------------------------- C18 (code)
//# item metriken-exposition struct MsgpackToParquet
pub struct MsgpackToParquet { parquet_options: ParquetOptions, metadata: HashMap<String, String> }
//# end
impl MsgpackToParquet {
    pub closed spec fn options(&self) -> ParquetOptions { self.parquet_options }
    pub closed spec fn given(&self) -> SMap { text_map(self.metadata@) }
//# item metriken-exposition impl MsgpackToParquet fn with_options
    pub fn with_options(options: ParquetOptions) -> ‹Self›«(r: Self)
        ensures r.options() == options, r.given() == Map::<Str, Str>::empty()» {
        «proof { assert(text_map(Map::<Str, String>::empty()) =~= Map::<Str, Str>::empty()); }»
        Self { parquet_options: options, metadata: HashMap::new() }
    }
//# end
//# item metriken-exposition impl MsgpackToParquet fn metadata
    pub fn metadata(self, key: String, value: String) -> ‹Self›«(r: Self)
        ensures r.options() == self.options(), r.given() == self.given().insert(key@, value@)» {
        «broadcast use lemma_text_insert;»
        let mut this = self;
        this.metadata.insert(key, value);
        this
    }
//# end
//# item metriken-exposition impl MsgpackToParquet fn convert_file_handle
    pub fn convert_file_handle «<R: Read, Wr: Write>» (
        self,
        reader: ‹impl Read + Seek›«R»,
        writer: ‹impl Write + Send›«Wr»
    ) -> ‹Result<i64, ParquetError>›«(r: Result<i64, ParquetError>)
        requires self.options().batch() > 0, convertible(reader.bytes()),
        ensures r is Ok ==> exists|n: nat, f: Seq<FieldV>, p: PropsV|
            complete(reader.bytes(), n) && r->Ok_0 == n && #[trigger] converted(series(reader.bytes(), n).0, f, p, self.given(), self.options()),
    »{
        «let ghost c = reader.bytes();
        let ghost sparse = self.options().sparse();
        let ghost mut n = 0nat;»
        let mut reader = BufReader::new(reader);
        let mut schema = ParquetSchema::new();
        while !reader.fill_buf()?.is_empty() «
            invariant
                c.len() < usize::MAX, reader.content() == c, readable(c, n), reader.pos() == series(c, n).1, reader.pos() <= c.len(),
                schema@ == schema_of(series(c, n).0), schema.row_count() == n,
            ensures complete(c, n),
            decreases c.len() - reader.pos(),
        »{
            «proof { lemma_series(c, n); }»
            let s: Snapshot = rmp_serde::from_read(&mut reader)
                .map_err(|x «: rmp_serde::Error»| «-> (r: ParquetError)» { ParquetError::External(Box::new(x)) })?;
            «proof {
                decoded_consumes(c, series(c, n).1);
                assert(series(c, n + 1).0.drop_last() =~= series(c, n).0);
                n = n + 1;
            }»
            schema.push(s);
        }
        «let ghost xs = series(c, n).0;
        let ghost sv = schema@;
        proof { assert(complete(c, n)); }»
        let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;
        «let ghost f = writer.file_schema();
        let ghost p = writer.file_props();
        let ghost mut m = 0nat;
        proof { assert(rows_of(series(c, 0).0, sv, sparse) =~= Seq::empty()); }»
        reader.rewind()?;
        while !reader.fill_buf()?.is_empty() «
            invariant
                c.len() < usize::MAX, convertible(c), reader.content() == c, readable(c, m), reader.pos() == series(c, m).1, reader.pos() <= c.len(),
                writer.made_from(sv, sparse), writer.file_schema() == f, writer.file_props() == p,
                writer.batches() == rows_of(series(c, m).0, sv, sparse),
            ensures complete(c, m),
            decreases c.len() - reader.pos(),
        »{
            let s: Snapshot = rmp_serde::from_read(&mut reader)
                .map_err(|x «: rmp_serde::Error»| «-> (r: ParquetError)» { ParquetError::External(Box::new(x)) })?;
            «proof {
                decoded_consumes(c, series(c, m).1);
                let k = series(c, m).0.len() as int;
                assert(series(c, m + 1).0[k] == s);
                assert(rows_of(series(c, m + 1).0, sv, sparse) =~= rows_of(series(c, m).0, sv, sparse).push(row_of(s, sv, sparse)));
                m = m + 1;
            }»
            writer.push(s «, Ghost(sv), Ghost(sparse)»)?;
        }
        «proof {
            lemma_one_reading(c, n, m);
            lemma_series(c, n);
            lemma_row_total(f, xs, sv, sparse);
        }»
        let metadata = writer.finalize()?;
        «proof { assert(converted(xs, f, p, self.given(), self.options())); }»
        Ok(metadata.num_rows)
    }
//# end
//# item metriken-exposition impl MsgpackToParquet fn convert_file_path
    pub fn convert_file_path «<I: AsPath, O: AsPath>» (
        self,
        input: ‹impl AsRef<Path>›«I»,
        output: ‹impl AsRef<Path>›«O»
    ) -> ‹Result<i64, ParquetError>›«(r: Result<i64, ParquetError>)
        requires self.options().batch() > 0, convertible(file_bytes(input.path())),
        ensures r is Ok ==> exists|n: nat, f: Seq<FieldV>, p: PropsV|
            complete(file_bytes(input.path()), n) && r->Ok_0 == n && #[trigger] converted(series(file_bytes(input.path()), n).0, f, p, self.given(), self.options()),
    »{
        self.convert_file_handle(File::open(input)?, File::create(output)?)
    }
//# end
}
pub trait AsPath: Sized { spec fn path(&self) -> Str; }
/// What the file of this name holds when the conversion starts.
pub uninterp spec fn file_bytes(p: Str) -> Seq<u8>;
#[verifier::external_body]
pub struct File { x: u8 }
impl Write for File { }
impl Read for File { uninterp spec fn bytes(&self) -> Seq<u8>; }
impl File {
    #[verifier::external_body]
    pub fn open<P: AsPath>(p: P) -> (r: Result<File, IoError>) ensures r is Ok ==> r->Ok_0.bytes() == file_bytes(p.path()) { unimplemented!() }
    #[verifier::external_body]
    pub fn create<P: AsPath>(p: P) -> (r: Result<File, IoError>) { unimplemented!() }
}
