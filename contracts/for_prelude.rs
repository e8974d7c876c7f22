// TRUSTED: iteration, as the extractor writes `for` loops out: what is left to visit is the iterator's view
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxIter<T> { x: Vec<T> }
impl<T> VxIter<T> {
  pub uninterp spec fn view(&self) -> Seq<T>;
  #[verifier::external_body]
  pub fn vx_next(&mut self) -> (r: Option<T>)
    ensures
      old(self).view().len() == 0 ==> r is None && final(self).view() == old(self).view(),
      old(self).view().len() > 0 ==> r == Some(old(self).view()[0]) && final(self).view() == old(self).view().drop_first()
  { unimplemented!() }
  #[verifier::external_body]
  pub fn skip(self, n: usize) -> (r: VxIter<T>)
    ensures r.view() == if n <= self.view().len() { self.view().skip(n as int) } else { Seq::<T>::empty() }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn collect<C: VxCollect<T>>(self) -> (r: C) ensures r.all() == self.view() { unimplemented!() }
}
pub trait VxCollect<T>: Sized { spec fn all(&self) -> Seq<T>; }
impl<T> VxCollect<T> for Vec<T> { open spec fn all(&self) -> Seq<T> { self@ } }
pub trait VxIntoIter: Sized {
  type Item;
  spec fn items(self) -> Seq<Self::Item>;
  fn vx_into(self) -> (r: VxIter<Self::Item>) ensures r.view() == self.items();
}
pub fn vx_iter_of<C: VxIntoIter>(c: C) -> (r: VxIter<C::Item>) ensures r.view() == c.items() { c.vx_into() }
impl<T> VxIntoIter for Vec<T> {
  type Item = T;
  open spec fn items(self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn vx_into(self) -> VxIter<T> { unimplemented!() }
}
impl<T> VxIntoIter for VxIter<T> {
  type Item = T;
  open spec fn items(self) -> Seq<T> { self.view() }
  fn vx_into(self) -> VxIter<T> { self }
}
// TRUSTED: text. The length of a text in bytes, splitting at a character, the rest of a text from a byte position
pub uninterp spec fn blen(s: Seq<char>) -> nat;
pub open spec fn find(s: Seq<char>, c: char) -> int decreases s.len() {
  if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + find(s.drop_first(), c) }
}
pub trait VxText {
  spec fn chars(&self) -> Seq<char>;
  fn vx_len(&self) -> (r: usize) ensures r == blen(self.chars());
  fn vx_split<'a>(&'a self, p: &str) -> (r: VxIter<&'a str>)
    requires p@.len() == 1
    ensures
      r.view().len() >= 1,
      blen(self.chars()) <= isize::MAX,
      (r.view()[0])@ == self.chars().take(find(self.chars(), p@[0])),
      r.view().len() == 1 <==> find(self.chars(), p@[0]) == self.chars().len();
}
impl VxText for str {
  open spec fn chars(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn vx_len(&self) -> usize { unimplemented!() }
  #[verifier::external_body]
  fn vx_split<'a>(&'a self, p: &str) -> VxIter<&'a str> { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_from<'a>(s: &'a str, n: usize) -> (r: &'a str)
  requires exists|k: int| 0 <= k <= s@.len() && #[trigger] blen(s@.take(k)) == n
  ensures forall|k: int| 0 <= k <= s@.len() && #[trigger] blen(s@.take(k)) == n ==> r@ == s@.skip(k)
{ unimplemented!() }
pub trait VxVec<T> {
  spec fn seq(&self) -> Seq<T>;
  fn vx_len(&self) -> (r: usize) ensures r == self.seq().len();
  fn vx_is_empty(&self) -> (r: bool) ensures r == (self.seq().len() == 0);
  fn vx_reverse(&mut self) ensures final(self).seq() == old(self).seq().reverse();
  fn vx_extend(&mut self, other: Vec<T>) ensures final(self).seq() == old(self).seq() + other@;
}
impl<T> VxVec<T> for Vec<T> {
  open spec fn seq(&self) -> Seq<T> { self@ }
  fn vx_len(&self) -> usize { self.len() }
  fn vx_is_empty(&self) -> bool { self.len() == 0 }
  #[verifier::external_body]
  fn vx_reverse(&mut self) { self.reverse() }
  #[verifier::external_body]
  fn vx_extend(&mut self, other: Vec<T>) { unimplemented!() }
}
pub mod vx_text_lemmas { use super::*; use vstd::prelude::*; }
