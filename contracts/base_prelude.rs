// shared by all units
// TRUSTED: text building (format!) and panics, as the extractor prints them.
#[verifier::external_body]
pub fn vx_text() -> (r: String) { String::new() }
pub fn vx_as<T>(x: T) -> (r: T) ensures r == x { x }
pub fn vx_use<T: ?Sized>(t: &T) {}
#[verifier::external_body]
pub fn vx_panic() -> (r: !)
  requires false
{ panic!() }

/// an arm that another copy of the same function checks
#[verifier::external_body]
pub fn vx_other_case() -> !
  ensures false
{ panic!() }
