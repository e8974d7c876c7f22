// The operators on parsers, as calls of the methods the crate's operator impls are extracted to (op_add ..): each of these
// impls is one call, verified here.
impl<'a, I, A: Clone + 'a, B: Clone + 'a> AddSpecImpl<Parser<'a, I, B>> for Parser<'a, I, A> {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: Parser<'a, I, B>) -> bool { true }
  open spec fn add_spec(self, rhs: Parser<'a, I, B>) -> Parser<'a, I, (A, B)> { arbitrary() }
}
impl<'a, I, A: Clone + 'a, B: Clone + 'a> std::ops::Add<Parser<'a, I, B>> for Parser<'a, I, A> {
  type Output = Parser<'a, I, (A, B)>;
  fn add(self, rhs: Parser<'a, I, B>) -> (res: Parser<'a, I, (A, B)>)
    ensures forall|s: ParseState<'a, I>, r: ParseResult<'a, I, (A, B)>| #[trigger] res.post(s, r) ==> and_then_post(self, rhs, s, r)
  { self.op_add(rhs) }
}
impl<'a, I, A: Clone + 'a, B: Clone + 'a> SubSpecImpl<Parser<'a, I, B>> for Parser<'a, I, A> {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: Parser<'a, I, B>) -> bool { true }
  open spec fn sub_spec(self, rhs: Parser<'a, I, B>) -> Parser<'a, I, A> { arbitrary() }
}
impl<'a, I, A: Clone + 'a, B: Clone + 'a> std::ops::Sub<Parser<'a, I, B>> for Parser<'a, I, A> {
  type Output = Parser<'a, I, A>;
  fn sub(self, rhs: Parser<'a, I, B>) -> (res: Parser<'a, I, A>)
    ensures forall|s: ParseState<'a, I>, r: ParseResult<'a, I, A>| #[trigger] res.post(s, r) ==> skip_right_post(self, rhs, s, r)
  { self.op_sub(rhs) }
}
impl<'a, I, A: Clone + 'a, B: Clone + 'a> MulSpecImpl<Parser<'a, I, B>> for Parser<'a, I, A> {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: Parser<'a, I, B>) -> bool { true }
  open spec fn mul_spec(self, rhs: Parser<'a, I, B>) -> Parser<'a, I, B> { arbitrary() }
}
impl<'a, I, A: Clone + 'a, B: Clone + 'a> std::ops::Mul<Parser<'a, I, B>> for Parser<'a, I, A> {
  type Output = Parser<'a, I, B>;
  fn mul(self, rhs: Parser<'a, I, B>) -> (res: Parser<'a, I, B>)
    ensures forall|s: ParseState<'a, I>, r: ParseResult<'a, I, B>| #[trigger] res.post(s, r) ==> skip_left_post(self, rhs, s, r)
  { self.op_mul(rhs) }
}
impl<'a, I, A: 'a> BitOrSpecImpl<Parser<'a, I, A>> for Parser<'a, I, A> {
  open spec fn obeys_bitor_spec() -> bool { false }
  open spec fn bitor_req(self, rhs: Parser<'a, I, A>) -> bool { true }
  open spec fn bitor_spec(self, rhs: Parser<'a, I, A>) -> Parser<'a, I, A> { arbitrary() }
}
impl<'a, I, A: 'a> std::ops::BitOr<Parser<'a, I, A>> for Parser<'a, I, A> {
  type Output = Parser<'a, I, A>;
  fn bitor(self, rhs: Parser<'a, I, A>) -> (res: Parser<'a, I, A>)
    ensures forall|s: ParseState<'a, I>, r: ParseResult<'a, I, A>| #[trigger] res.post(s, r) ==> or_post(self, rhs, s, r)
  { self.op_bitor(rhs) }
}
impl<'a, I, A: 'a> NotSpecImpl for Parser<'a, I, A> {
  open spec fn obeys_not_spec() -> bool { false }
  open spec fn not_req(self) -> bool { true }
  open spec fn not_spec(self) -> Parser<'a, I, ()> { arbitrary() }
}
impl<'a, I, A: 'a> std::ops::Not for Parser<'a, I, A> {
  type Output = Parser<'a, I, ()>;
  fn not(self) -> (res: Parser<'a, I, ()>)
    ensures forall|s: ParseState<'a, I>, r: ParseResult<'a, I, ()>| #[trigger] res.post(s, r) ==> not_post(self, s, r)
  { self.op_not() }
}
