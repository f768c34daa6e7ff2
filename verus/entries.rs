
// ----------------------------------------------- metric entries (contract)
#[verifier::external_body]
pub struct MetricEntry { x: u8 }
#[verifier::external_body]
pub struct Metadata { x: u8 }
impl View for Metadata { type V = SMap; uninterp spec fn view(&self) -> SMap; }
/// `s` lists the entries of `m`, each once.
pub open spec fn lists_text(m: SMap, s: Seq<(Str, Str)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: Str| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub open spec fn texts(s: Seq<(&str, &str)>) -> Seq<(Str, Str)> { s.map_values(|p: (&str, &str)| (p.0@, p.1@)) }
impl Metadata {
    /// C10: every entry once.
    #[verifier::external_body]
    pub fn iter_v(&self) -> (r: Iter<(&str, &str)>) ensures lists_text(self@, texts(r@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Str, Str>::empty()) { unimplemented!() }
}
impl<'a> IntoIt for &'a Metadata { type Item = (&'a str, &'a str);
    open spec fn enumerates(self, s: Seq<(&'a str, &'a str)>) -> bool { lists_text(self@, texts(s)) }
    #[verifier::external_body] fn into_iter_v(self) -> (r: Iter<(&'a str, &'a str)>) { unimplemented!() } }
impl MetricEntry {
    pub uninterp spec fn name_of(&self) -> Str;
    pub uninterp spec fn metadata_of(&self) -> SMap;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.name_of() { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: &Metadata) ensures r@ == self.metadata_of() { unimplemented!() }
}

