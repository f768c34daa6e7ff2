
// ------------------------------------------- arrow and parquet (contract)
pub trait Write { }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Compression { x: u8 }
#[verifier::external_body]
#[derive(Debug)]
pub struct ParquetError { x: u8 }
pub enum DataType { UInt64, Int64, Float64, Utf8, List(Box<DataType>, bool) }
impl DataType {
    #[verifier::external_body]
    pub fn new_list(d: DataType, nullable: bool) -> (r: DataType) ensures r == DataType::List(Box::new(d), nullable) { unimplemented!() }
}
pub ghost struct FieldV { pub name: Str, pub ty: DataType, pub nullable: bool, pub metadata: SMap }
#[verifier::external_body]
pub struct Field { x: u8 }
impl View for Field { type V = FieldV; uninterp spec fn view(&self) -> FieldV; }
impl Field {
    #[verifier::external_body]
    pub fn new<N: Text>(name: N, ty: DataType, nullable: bool) -> (r: Field)
        ensures r@ == (FieldV { name: name.txt(), ty, nullable, metadata: Map::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_metadata(self, m: HashMap<String, String>) -> (r: Field)
        ensures r@ == (FieldV { metadata: text_map(m@), ..self@ }) { unimplemented!() }
}
pub open spec fn views(f: Seq<Field>) -> Seq<FieldV> { f.map_values(|f: Field| f@) }
#[verifier::external_body]
pub struct Schema { x: u8 }
impl View for Schema { type V = Seq<FieldV>; uninterp spec fn view(&self) -> Seq<FieldV>; }
impl Schema {
    #[verifier::external_body]
    pub fn new(f: Vec<Field>) -> (r: Schema) ensures r@ == views(f@) { unimplemented!() }
    #[verifier::external_body]
    pub fn fields(&self) -> (r: &Vec<Field>) ensures views(r@) == self@ { unimplemented!() }
}
pub struct KeyValue { pub key: String, pub value: Option<String> }
pub ghost struct PropsV { pub compression: Compression, pub kv: Option<Seq<KeyValue>>, pub max_rows: usize }
#[verifier::external_body]
pub struct WriterProperties { x: u8 }
impl View for WriterProperties { type V = PropsV; uninterp spec fn view(&self) -> PropsV; }
#[verifier::external_body]
pub struct WriterPropertiesBuilder { x: u8 }
impl View for WriterPropertiesBuilder { type V = PropsV; uninterp spec fn view(&self) -> PropsV; }
impl WriterProperties {
    #[verifier::external_body]
    pub fn builder() -> (r: WriterPropertiesBuilder) ensures r@.kv is None { unimplemented!() }
}
impl WriterPropertiesBuilder {
    #[verifier::external_body]
    pub fn set_compression(self, c: Compression) -> (r: Self) ensures r@ == (PropsV { compression: c, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_key_value_metadata(self, kv: Option<Vec<KeyValue>>) -> (r: Self)
        ensures r@.compression == self@.compression, r@.max_rows == self@.max_rows,
            kv is None ==> r@.kv is None, kv is Some ==> r@.kv == Some(kv->0@) { unimplemented!() }
    /// Panics if the size is zero.
    #[verifier::external_body]
    pub fn set_max_row_group_size(self, n: usize) -> (r: Self) requires n > 0 ensures r@ == (PropsV { max_rows: n, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: WriterProperties) ensures r@ == self@ { unimplemented!() }
}
/// One column of one batch.
pub ghost enum ColV { U64(Seq<Option<u64>>), I64(Seq<Option<i64>>), List(Seq<Option<Seq<Option<u64>>>>) }
#[verifier::external_body]
#[verifier::accept_recursive_types(W)]
pub struct ArrowWriter<W> { w: W }
impl<W> ArrowWriter<W> {
    pub uninterp spec fn schema(&self) -> Seq<FieldV>;
    pub uninterp spec fn props(&self) -> PropsV;
    /// The batches written so far.
    pub uninterp spec fn batches(&self) -> Seq<Seq<ColV>>;
    #[verifier::external_body]
    pub fn try_new(w: W, schema: Arc<Schema>, props: Option<WriterProperties>) -> (r: Result<ArrowWriter<W>, ParquetError>)
        ensures r is Ok ==> r->Ok_0.schema() == schema@ && r->Ok_0.batches() == Seq::<Seq<ColV>>::empty()
            && (props is Some ==> r->Ok_0.props() == props->0@) { unimplemented!() }
}

// ------------------------------------------------ arrow arrays (contract)
#[verifier::external_body]
pub struct Arr { x: u8 }
pub type ListArray = Arr;
impl View for Arr { type V = ColV; uninterp spec fn view(&self) -> ColV; }
pub trait U64Cell { spec fn cell(self) -> Option<u64>; }
impl U64Cell for u64 { open spec fn cell(self) -> Option<u64> { Some(self) } }
impl U64Cell for Option<u64> { open spec fn cell(self) -> Option<u64> { self } }
pub trait I64Cell { spec fn cell(self) -> Option<i64>; }
impl I64Cell for i64 { open spec fn cell(self) -> Option<i64> { Some(self) } }
impl I64Cell for Option<i64> { open spec fn cell(self) -> Option<i64> { self } }
pub struct UInt64Array { }
impl UInt64Array {
    #[verifier::external_body]
    pub fn from<T: U64Cell>(v: Vec<T>) -> (r: Arr) ensures r@ == ColV::U64(v@.map_values(|x: T| x.cell())) { unimplemented!() }
}
pub struct Int64Array { }
impl Int64Array {
    #[verifier::external_body]
    pub fn from<T: I64Cell>(v: Vec<T>) -> (r: Arr) ensures r@ == ColV::I64(v@.map_values(|x: T| x.cell())) { unimplemented!() }
}
pub struct UInt64Type { }
pub trait ListRow { spec fn row(self) -> Seq<Option<u64>>; }
impl ListRow for Vec<Option<u64>> { open spec fn row(self) -> Seq<Option<u64>> { self@ } }
pub trait ListRows<P: ListRow> { spec fn rows(self) -> Seq<Option<P>>; }
impl<P: ListRow, const N: usize> ListRows<P> for [Option<P>; N] { open spec fn rows(self) -> Seq<Option<P>> { self@ } }
pub open spec fn list_cell<P: ListRow>(x: Option<P>) -> Option<Seq<Option<u64>>> { match x { Some(p) => Some(p.row()), None => None } }
impl Arr {
    #[verifier::external_body]
    pub fn from_iter_primitive<T, P: ListRow, I: ListRows<P>>(i: I) -> (r: Arr)
        ensures r@ == ColV::List(i.rows().map_values(|x: Option<P>| list_cell(x))) { unimplemented!() }
}
pub open spec fn col_len(c: ColV) -> nat { match c { ColV::U64(s) => s.len(), ColV::I64(s) => s.len(), ColV::List(s) => s.len() } }
pub open spec fn no_nulls(c: ColV) -> bool { match c {
    ColV::U64(s) => forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some,
    ColV::I64(s) => forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some,
    ColV::List(s) => forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some } }
/// A column fits a field.
pub open spec fn fits(f: FieldV, c: ColV) -> bool {
    &&& match c { ColV::U64(_) => f.ty == DataType::UInt64, ColV::I64(_) => f.ty == DataType::Int64, ColV::List(_) => f.ty == u64_list() }
    &&& f.nullable || no_nulls(c)
}
pub open spec fn u64_list() -> DataType { DataType::List(Box::new(DataType::UInt64), true) }
pub open spec fn cols(v: Seq<Arc<Arr>>) -> Seq<ColV> { v.map_values(|a: Arc<Arr>| a@) }
pub open spec fn batch_fits(f: Seq<FieldV>, c: Seq<ColV>) -> bool {
    &&& f.len() == c.len() && c.len() > 0
    &&& forall|i: int| 0 <= i < c.len() ==> fits(f[i], #[trigger] c[i]) && col_len(c[i]) == col_len(c[0])
}
#[verifier::external_body]
pub struct ArrowError { x: u8 }
impl core::convert::From<ArrowError> for ParquetError { #[verifier::external_body] fn from(e: ArrowError) -> (r: ParquetError) { unimplemented!() } }
#[verifier::external_body]
pub struct RecordBatch { x: u8 }
impl View for RecordBatch { type V = Seq<ColV>; uninterp spec fn view(&self) -> Seq<ColV>; }
impl RecordBatch {
    #[verifier::external_body]
    pub fn try_new(s: Arc<Schema>, c: Vec<Arc<Arr>>) -> (r: Result<RecordBatch, ArrowError>)
        ensures r is Ok <==> batch_fits(s@, cols(c@)), r is Ok ==> r->Ok_0@ == cols(c@) { unimplemented!() }
}
pub struct FileMetaData { pub num_rows: i64 }
impl<W> ArrowWriter<W> {
    #[verifier::external_body]
    pub fn write(&mut self, b: &RecordBatch) -> (r: Result<(), ParquetError>)
        ensures r is Ok ==> final(self).batches() == old(self).batches().push(b@),
            final(self).schema() == old(self).schema(), final(self).props() == old(self).props() { unimplemented!() }
    /// The number of rows of the file: one per row of every batch written.
    #[verifier::external_body]
    pub fn close(self) -> (r: Result<FileMetaData, ParquetError>)
        ensures r is Ok ==> closed(self.schema(), self.props(), self.batches()) && r->Ok_0.num_rows == row_total(self.batches()) { unimplemented!() }
}
/// The file was completed with this content.
pub uninterp spec fn closed(s: Seq<FieldV>, p: PropsV, b: Seq<Seq<ColV>>) -> bool;
pub open spec fn row_total(b: Seq<Seq<ColV>>) -> int decreases b.len() {
    if b.len() == 0 { 0 } else { row_total(b.drop_last()) + (if b.last().len() == 0 { 0 } else { col_len(b.last()[0]) as int }) }
}
