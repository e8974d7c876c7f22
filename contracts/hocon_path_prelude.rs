// TRUSTED in this unit (and checked by the harness on samples): the grammar of a key takes a legal path
#[verifier::external_body]
pub struct VxKeyParser { x: u64 }
#[verifier::external_body]
pub struct VxKeyResult { x: u64 }
impl VxKeyResult { pub uninterp spec fn of(&self) -> Seq<char>; }
pub trait VxBytes { spec fn text(&self) -> Seq<char>; fn vx_as_bytes(&self) -> (r: VxPathBytes) ensures r.of() == self.text(); }
#[verifier::external_body]
pub struct VxPathBytes { x: u64 }
impl VxPathBytes { pub uninterp spec fn of(&self) -> Seq<char>; }
impl VxBytes for str {
  open spec fn text(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn vx_as_bytes(&self) -> VxPathBytes { unimplemented!() }
}
#[verifier::external_body]
pub fn key() -> VxKeyParser { unimplemented!() }
impl VxKeyParser {
  #[verifier::external_body]
  pub fn parse(&self, i: VxPathBytes) -> (r: VxKeyResult) ensures r.of() == i.of() { unimplemented!() }
}
impl VxKeyResult {
  #[verifier::external_body]
  pub fn to_result(self) -> (r: std::result::Result<VxKeyText, VxError>) ensures legal(self.of()) ==> r is Ok { unimplemented!() }
}
#[verifier::external_body]
pub struct VxKeyText { x: u64 }
