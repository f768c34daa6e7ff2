
// ------------------------------------------------ options and their defaults
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct ZstdLevel { x: u8 }
impl View for ZstdLevel { type V = int; uninterp spec fn view(&self) -> int; }
impl ZstdLevel {
    /// Levels 1 to 22 are valid.
    #[verifier::external_body]
    pub fn try_new(level: i32) -> (r: Result<ZstdLevel, ParquetError>)
        ensures r is Ok <==> 1 <= level <= 22, r is Ok ==> r->Ok_0@ == level { unimplemented!() }
}
/// The compression of a file: none, or zstd at a level.
pub uninterp spec fn compression_of(c: Compression) -> Option<int>;
#[verifier::external_body]
pub const fn uncompressed() -> (r: Compression) ensures compression_of(r) is None { Compression { x: 0 } }
impl Compression {
    pub exec const UNCOMPRESSED: Compression ensures compression_of(Self::UNCOMPRESSED) is None { uncompressed() }
    #[verifier::external_body]
    pub fn ZSTD(l: ZstdLevel) -> (r: Compression) ensures compression_of(r) == Some(l@) { unimplemented!() }
}
//# item metriken-exposition const DEFAULT_MAX_BATCH_SIZE
const DEFAULT_MAX_BATCH_SIZE: usize = 50_000;
//# end
impl ParquetCompression {
    pub closed spec fn level(&self) -> Option<int> { compression_of(self.inner) }
//# item metriken-exposition impl ParquetCompression fn none
    pub fn none() -> ‹Self›«(r: Self) ensures r.level() is None» {
        Self { inner: Compression::UNCOMPRESSED }
    }
//# end
//# item metriken-exposition impl ParquetCompression fn zstd
    pub fn zstd(level: i32) -> ‹Result<Self, ParquetError>›«(r: Result<Self, ParquetError>)
        ensures r is Ok <==> 1 <= level <= 22, r is Ok ==> r->Ok_0.level() == Some(level as int)» {
        Ok(Self { inner: Compression::ZSTD(ZstdLevel::try_new(level)?) })
    }
//# end
}
impl Default for ParquetCompression {
//# item metriken-exposition impl Default for ParquetCompression fn default
    fn default() -> ‹Self›«(r: Self) ensures r.level() is Some» {
        Self::zstd(3).unwrap()
    }
//# end
}
impl ParquetOptions {
    pub closed spec fn level(&self) -> Option<int> { self.compression.level() }
//# item metriken-exposition impl ParquetOptions fn new
    pub fn new() -> ‹Self›«(r: Self) ensures r.batch() > 0, !r.sparse()» {
        Self::default()
    }
//# end
//# item metriken-exposition impl ParquetOptions fn compression
    pub fn compression(self, compression: ParquetCompression) -> ‹Self›«(r: Self)
        ensures r.level() == compression.level(), r.batch() == self.batch(), r.sparse() == self.sparse()» {
        let mut this = self;
        this.compression = compression;
        this
    }
//# end
//# item metriken-exposition impl ParquetOptions fn max_batch_size
    pub fn max_batch_size(self, batch_size: usize) -> ‹Self›«(r: Self)
        ensures r.level() == self.level(), r.comp() == self.comp(), r.batch() == batch_size, r.sparse() == self.sparse()» {
        let mut this = self;
        this.max_batch_size = batch_size;
        this
    }
//# end
//# item metriken-exposition impl ParquetOptions fn histogram_type
    pub fn histogram_type(self, histogram: ParquetHistogramType) -> ‹Self›«(r: Self)
        ensures r.level() == self.level(), r.comp() == self.comp(), r.batch() == self.batch(), r.sparse() == (histogram is Sparse)» {
        let mut this = self;
        this.histogram_type = histogram;
        this
    }
//# end
}
impl Default for ParquetOptions {
//# item metriken-exposition impl Default for ParquetOptions fn default
    fn default() -> ‹Self›«(r: Self) ensures r.batch() > 0, !r.sparse()» {
        Self {
            compression: Default::default(),
            max_batch_size: DEFAULT_MAX_BATCH_SIZE,
            histogram_type: ParquetHistogramType::Standard
        }
    }
//# end
}
