// TRUSTED: std iterator methods, under aliases (the extractor renames the call, nothing else)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxIter<T> { x: Vec<T> }
impl<T> VxIter<T> {
  pub uninterp spec fn view(&self) -> Seq<T>;
  #[verifier::external_body]
  pub fn vx_any<F: FnMut(T) -> bool>(self, f: F) -> (b: bool)
    requires forall|i: int| 0 <= i < self.view().len() ==> f.requires((#[trigger] self.view()[i],)),
    ensures
      b ==> exists|i: int| 0 <= i < self.view().len() && f.ensures((#[trigger] self.view()[i],), true),
      !b ==> forall|i: int| 0 <= i < self.view().len() ==> f.ensures((#[trigger] self.view()[i],), false)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_all<F: FnMut(T) -> bool>(self, f: F) -> (b: bool)
    requires forall|i: int| 0 <= i < self.view().len() ==> f.requires((#[trigger] self.view()[i],)),
    ensures
      !b ==> exists|i: int| 0 <= i < self.view().len() && f.ensures((#[trigger] self.view()[i],), false),
      b ==> forall|i: int| 0 <= i < self.view().len() ==> f.ensures((#[trigger] self.view()[i],), true)
  { unimplemented!() }
  pub fn vx_into_iter(self) -> (r: Self) ensures r == self { self }
}
pub open spec fn stepped(a: int, b: int, k: int, now: int) -> bool { a <= now <= b && (now - a) % k == 0 }
pub trait VxStepBy: Sized {
  spec fn first(&self) -> int;
  spec fn last(&self) -> int;
  fn vx_step_by(self, n: usize) -> (r: VxIter<usize>)
    requires n > 0
    ensures
      forall|i: int| 0 <= i < r.view().len() ==> stepped(self.first(), self.last(), n as int, (#[trigger] r.view()[i]) as int),
      forall|a: int, b: int, k: int, e: int| #[trigger] stepped(a, b, k, e) && a == self.first() && b == self.last() && k == n ==> r.view().contains(e as usize);
  fn vx_into_iter(self) -> (r: Self) ensures r == self;
}
impl VxStepBy for RangeInclusive<usize> {
  open spec fn first(&self) -> int { self@.start as int }
  open spec fn last(&self) -> int { self@.end as int }
  #[verifier::external_body]
  fn vx_step_by(self, n: usize) -> VxIter<usize> { unimplemented!() }
  fn vx_into_iter(self) -> Self { self }
}
impl VxStepBy for Range<usize> {
  open spec fn first(&self) -> int { self.start as int }
  open spec fn last(&self) -> int { self.end - 1 }
  #[verifier::external_body]
  fn vx_step_by(self, n: usize) -> VxIter<usize> { unimplemented!() }
  fn vx_into_iter(self) -> Self { self }
}
pub trait VxVecExt<T> {
  fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) where T: 'a;
}
impl<T> VxVecExt<T> for Vec<T> {
  #[verifier::external_body]
  fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>)
    ensures
      r.view().len() == self@.len(),
      forall|i: int| #![trigger r.view()[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> *(r.view()[i]) == self@[i],
  { unimplemented!() }
}
