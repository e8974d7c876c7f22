// ---------------------------------------------------------------------------------------------
// Hand-written part of the verified file: trusted stubs (marked TRUSTED) and spec functions.
// ---------------------------------------------------------------------------------------------

// TRUSTED axiom: a Clone implementation returns an equal value.

// TRUSTED: the parser object (Rc<dyn Fn>).  `post(s, r)` reads "running the parser at s may return r".
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(A)]
pub struct Parser<'a, I, A> { method: Rc<dyn Fn(&ParseState<'a, I>) -> ParseResult<'a, I, A> + 'a> }

impl<'a, I, A> Parser<'a, I, A> {
  pub uninterp spec fn post(&self, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool;

  #[verifier::external_body]
  pub fn new<F>(parse: F) -> (p: Parser<'a, I, A>)
  where
    F: Fn(&ParseState<'a, I>) -> ParseResult<'a, I, A> + 'a,
    requires
      forall|s: ParseState<'a, I>| s.wf() ==> #[trigger] parse.requires((&s,)),
      forall|s: ParseState<'a, I>, r: ParseResult<'a, I, A>| s.wf() && #[trigger] parse.ensures((&s,), r) ==> fits(s, r),
    ensures
      forall|s: ParseState<'a, I>, r: ParseResult<'a, I, A>| #[trigger] p.post(s, r) ==> parse.ensures((&s,), r)
  { Parser { method: Rc::new(parse) } }

  #[verifier::external_body]
  pub fn run(&self, s: &ParseState<'a, I>) -> (r: ParseResult<'a, I, A>)
    requires s.wf()
    ensures self.post(*s, r)
  { (self.method)(s) }
}
impl<'a, I, A> Clone for Parser<'a, I, A> {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self)
    ensures r == *self
  { Parser { method: self.method.clone() } }
}
// TRUSTED: meaning of `post`: it only relates well-formed states to results that stay inside the input
// (Parser::new demands both of the closure it is given, run demands the first of its caller).

// TRUSTED: derived Clone of error and result.
impl<'a, I: Clone> Clone for ParseError<'a, I> {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self)
    ensures r == *self
  { unimplemented!() }
}
impl<'a, I: Clone, A: Clone> Clone for ParseResult<'a, I, A> {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self)
    ensures r == *self
  { unimplemented!() }
}
impl<'a, I> Clone for ParseState<'a, I> {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self)
    ensures r == *self
  { unimplemented!() }
}


// ---- states and results
impl<'a, I> ParseState<'a, I> {
  pub open spec fn wf(&self) -> bool { self.offset <= self.input@.len() && self.input@.len() <= isize::MAX }
}
pub open spec fn rest<'a, I>(s: ParseState<'a, I>) -> Seq<I> { s.input@.subrange(s.offset as int, s.input@.len() as int) }
pub open spec fn rem<'a, I>(s: ParseState<'a, I>) -> int { s.input@.len() - s.offset }
pub open spec fn adv<'a, I>(s: ParseState<'a, I>, n: int) -> ParseState<'a, I> { ParseState { input: s.input, offset: (s.offset + n) as usize } }
pub open spec fn fits<'a, I, A>(s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool { r is Success ==> r->length <= rem(s) }
pub open spec fn ok<'a, I, A>(r: ParseResult<'a, I, A>, v: A, n: int) -> bool { r is Success && r->value == v && r->length == n }
pub open spec fn unc<'a, I, A>(r: ParseResult<'a, I, A>) -> bool { r is Failure && r->committed_status is Uncommitted }
pub open spec fn fail_as<'a, I, A, B>(r1: ParseResult<'a, I, A>, r: ParseResult<'a, I, B>) -> bool {
  r1 is Failure && r is Failure && r->error == r1->error && r->committed_status == r1->committed_status
}
pub open spec fn cmt(b: bool) -> CommittedStatus { if b { CommittedStatus::Committed } else { CommittedStatus::Uncommitted } }
/// r2 seen from n elements earlier; a failure is committed when something had been consumed
pub open spec fn after<'a, I, A>(n: int, r2: ParseResult<'a, I, A>, r: ParseResult<'a, I, A>) -> bool {
  match r2 {
    ParseResult::Success { value, length } => ok(r, value, n + length),
    ParseResult::Failure { error, committed_status } => r is Failure && r->error == error
      && r->committed_status == cmt(committed_status is Committed || n != 0),
  }
}
pub open spec fn total1<A, B, F: Fn(A) -> B>(f: F) -> bool { forall|a: A| #[trigger] f.requires((a,)) }
/// f accepts every value p can return
pub open spec fn total_on<'a, I, A, B, F: Fn(A) -> B>(p: Parser<'a, I, A>, f: F) -> bool { forall|s: ParseState<'a, I>, r: ParseResult<'a, I, A>| #[trigger] p.post(s, r) && r is Success ==> f.requires((r->value,)) }
pub open spec fn totalr<A, B, F: Fn(&A) -> B>(f: F) -> bool { forall|a: &A| #[trigger] f.requires((a,)) }
pub open spec fn total0<B, F: Fn() -> B>(f: F) -> bool { f.requires(()) }

// ---- combinators: "r is a result of the combinator at s"
pub open spec fn map_post<'a, I, A, B, F: Fn(A) -> B>(p: Parser<'a, I, A>, f: F, s: ParseState<'a, I>, r: ParseResult<'a, I, B>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && match r1 {
    ParseResult::Success { value, length } => r is Success && r->length == length && f.ensures((value,), r->value),
    ParseResult::Failure { .. } => fail_as(r1, r),
  }
}
pub open spec fn flat_map_post<'a, I, A, B, F: Fn(A) -> Parser<'a, I, B>>(p: Parser<'a, I, A>, f: F, s: ParseState<'a, I>, r: ParseResult<'a, I, B>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && match r1 {
    ParseResult::Success { value, length } =>
      exists|q: Parser<'a, I, B>, r2: ParseResult<'a, I, B>| #[trigger] f.ensures((value,), q) && #[trigger] q.post(adv(s, length as int), r2) && after(length as int, r2, r),
    ParseResult::Failure { .. } => fail_as(r1, r),
  }
}
pub open spec fn filter_post<'a, I, A, F: Fn(&A) -> bool>(p: Parser<'a, I, A>, f: F, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && match r1 {
    ParseResult::Success { value, length } => (f.ensures((&value,), true) && r == r1) || (f.ensures((&value,), false) && unc(r)),
    ParseResult::Failure { .. } => r == r1,
  }
}
pub open spec fn map_res_post<'a, I, A, B, E, F: Fn(A) -> Result<B, E>>(p: Parser<'a, I, A>, f: F, s: ParseState<'a, I>, r: ParseResult<'a, I, B>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && match r1 {
    ParseResult::Success { value, length } => exists|x: Result<B, E>| #[trigger] f.ensures((value,), x) && match x {
      Ok(b) => ok(r, b, length as int),
      Err(_) => unc(r),
    },
    ParseResult::Failure { .. } => fail_as(r1, r),
  }
}
pub open spec fn map_opt_post<'a, I, A, B, F: Fn(A) -> Option<B>>(p: Parser<'a, I, A>, f: F, s: ParseState<'a, I>, r: ParseResult<'a, I, B>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && match r1 {
    ParseResult::Success { value, length } => exists|x: Option<B>| #[trigger] f.ensures((value,), x) && match x {
      Some(b) => ok(r, b, length as int),
      None => unc(r),
    },
    ParseResult::Failure { .. } => fail_as(r1, r),
  }
}
pub open spec fn exists_post<'a, I, A>(p: Parser<'a, I, A>, s: ParseState<'a, I>, r: ParseResult<'a, I, bool>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && ok(r, r1 is Success, 0)
}
pub open spec fn not_post<'a, I, A>(p: Parser<'a, I, A>, s: ParseState<'a, I>, r: ParseResult<'a, I, ()>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && if r1 is Failure { ok(r, (), 0) } else { unc(r) }
}
pub open spec fn or_post<'a, I, A>(p1: Parser<'a, I, A>, p2: Parser<'a, I, A>, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p1.post(s, r1) && if unc(r1) { p2.post(s, r) } else { r == r1 }
}
pub open spec fn and_then_post<'a, I, A, B>(p1: Parser<'a, I, A>, p2: Parser<'a, I, B>, s: ParseState<'a, I>, r: ParseResult<'a, I, (A, B)>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p1.post(s, r1) && match r1 {
    ParseResult::Success { value: a, length: n1 } => exists|r2: ParseResult<'a, I, B>| #[trigger] p2.post(adv(s, n1 as int), r2) && match r2 {
      ParseResult::Success { value: b, length: n2 } => ok(r, (a, b), n1 + n2),
      ParseResult::Failure { .. } => fail_as(r2, r),
    },
    ParseResult::Failure { .. } => fail_as(r1, r),
  }
}
pub open spec fn skip_left_post<'a, I, A, B>(p1: Parser<'a, I, A>, p2: Parser<'a, I, B>, s: ParseState<'a, I>, r: ParseResult<'a, I, B>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p1.post(s, r1) && match r1 {
    ParseResult::Success { value: a, length: n1 } => exists|r2: ParseResult<'a, I, B>| #[trigger] p2.post(adv(s, n1 as int), r2) && match r2 {
      ParseResult::Success { value: b, length: n2 } => ok(r, b, n1 + n2),
      ParseResult::Failure { .. } => fail_as(r2, r),
    },
    ParseResult::Failure { .. } => fail_as(r1, r),
  }
}
pub open spec fn skip_right_post<'a, I, A, B>(p1: Parser<'a, I, A>, p2: Parser<'a, I, B>, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p1.post(s, r1) && match r1 {
    ParseResult::Success { value: a, length: n1 } => exists|r2: ParseResult<'a, I, B>| #[trigger] p2.post(adv(s, n1 as int), r2) && match r2 {
      ParseResult::Success { value: b, length: n2 } => ok(r, a, n1 + n2),
      ParseResult::Failure { .. } => fail_as(r2, r),
    },
    ParseResult::Failure { .. } => fail_as(r1, r),
  }
}
/// left, then p, then right: the middle value, all three consumed; the first failure is the failure
pub open spec fn surround_post<'a, I, A, B, C>(l: Parser<'a, I, A>, p: Parser<'a, I, B>, rt: Parser<'a, I, C>, s: ParseState<'a, I>, r: ParseResult<'a, I, B>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] l.post(s, r1) && match r1 {
    ParseResult::Failure { .. } => fail_as(r1, r),
    ParseResult::Success { length: n1, .. } => exists|r2: ParseResult<'a, I, B>| #[trigger] p.post(adv(s, n1 as int), r2) && match r2 {
      ParseResult::Failure { .. } => fail_as(r2, r),
      ParseResult::Success { value, length: n2 } => exists|r3: ParseResult<'a, I, C>| #[trigger] rt.post(adv(adv(s, n1 as int), n2 as int), r3) && match r3 {
        ParseResult::Failure { .. } => fail_as(r3, r),
        ParseResult::Success { length: n3, .. } => ok(r, value, n1 + n2 + n3),
      },
    },
  }
}
pub open spec fn attempt_post<'a, I, A>(p: Parser<'a, I, A>, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && match r1 {
    ParseResult::Success { .. } => r == r1,
    ParseResult::Failure { error, .. } => unc(r) && r->error == error,
  }
}
pub open spec fn opt_post<'a, I, A>(p: Parser<'a, I, A>, s: ParseState<'a, I>, r: ParseResult<'a, I, Option<A>>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && match r1 {
    ParseResult::Success { value, length } => ok(r, Some(value), length as int),
    ParseResult::Failure { .. } => ok(r, None, 0),
  }
}
pub open spec fn peek_post<'a, I, A>(p: Parser<'a, I, A>, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && match r1 {
    ParseResult::Success { value, .. } => ok(r, value, 0),
    ParseResult::Failure { .. } => r == r1,
  }
}
pub open spec fn discard_post<'a, I, A>(p: Parser<'a, I, A>, s: ParseState<'a, I>, r: ParseResult<'a, I, ()>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && match r1 {
    ParseResult::Success { length, .. } => ok(r, (), length as int),
    ParseResult::Failure { .. } => fail_as(r1, r),
  }
}
pub open spec fn collect_post<'a, I, A>(p: Parser<'a, I, A>, s: ParseState<'a, I>, r: ParseResult<'a, I, &'a [I]>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && match r1 {
    ParseResult::Success { length, .. } => r is Success && r->length == length && r->value@ == rest(s).take(length as int),
    ParseResult::Failure { .. } => fail_as(r1, r),
  }
}
pub open spec fn offset_post<'a, I, A>(p: Parser<'a, I, A>, last: bool, s: ParseState<'a, I>, r: ParseResult<'a, I, usize>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && match r1 {
    ParseResult::Success { length, .. } => r is Success && r->length == length
      && r->value == (if last { if s.offset + length == 0 { 0 } else { s.offset + length - 1 } } else { s.offset + length }),
    ParseResult::Failure { .. } => fail_as(r1, r),
  }
}
/// success unchanged; failure keeps its committed status (the error may be wrapped)
pub open spec fn relabel_post<'a, I, A>(p: Parser<'a, I, A>, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && match r1 {
    ParseResult::Success { .. } => r == r1,
    ParseResult::Failure { committed_status, .. } => r is Failure && r->committed_status == committed_status,
  }
}
pub open spec fn lazy_post<'a, I, A, F: Fn() -> Parser<'a, I, A>>(f: F, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|q: Parser<'a, I, A>| #[trigger] f.ensures((), q) && q.post(s, r)
}

// ---- single elements
pub open spec fn one<'a, I>(s: ParseState<'a, I>, r: ParseResult<'a, I, &'a I>, m: bool) -> bool {
  if rem(s) > 0 && m { r is Success && r->length == 1 && *r->value == rest(s)[0] } else { unc(r) }
}
pub open spec fn one_v<'a, I>(s: ParseState<'a, I>, r: ParseResult<'a, I, I>, m: bool) -> bool {
  if rem(s) > 0 && m { r is Success && r->length == 1 && r->value == rest(s)[0] } else { unc(r) }
}
pub open spec fn pred_post<'a, I, F: Fn(&I) -> bool>(f: F, s: ParseState<'a, I>, r: ParseResult<'a, I, &'a I>) -> bool {
  (rem(s) == 0 && unc(r)) || (rem(s) > 0 && exists|m: bool| #[trigger] f.ensures((&rest(s)[0],), m) && one(s, r, m))
}
pub open spec fn pred_post_v<'a, I, F: Fn(&I) -> bool>(f: F, s: ParseState<'a, I>, r: ParseResult<'a, I, I>) -> bool {
  (rem(s) == 0 && unc(r)) || (rem(s) > 0 && exists|m: bool| #[trigger] f.ensures((&rest(s)[0],), m) && one_v(s, r, m))
}
pub open spec fn filter_not_post<'a, I, A, F: Fn(&A) -> bool>(p: Parser<'a, I, A>, f: F, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && match r1 {
    ParseResult::Success { value, length } => (f.ensures((&value,), false) && r == r1) || (f.ensures((&value,), true) && unc(r)),
    ParseResult::Failure { .. } => r == r1,
  }
}
/// the piece of input an error may report
pub open spec fn err_input<'a, I>(e: ParseError<'a, I>, x: Seq<I>) -> bool
  decreases e
{
  match e {
    ParseError::Incomplete => false,
    ParseError::Mismatch { input, offset, length, .. } => offset + length <= input@.len() && x == input@.subrange(offset as int, offset + length),
    ParseError::Conversion { input, offset, length, .. } => offset + length <= input@.len() && x == input@.subrange(offset as int, offset + length),
    ParseError::Expect { inner, .. } => err_input(*inner, x),
    ParseError::Custom { inner: Some(inner), .. } => err_input(*inner, x),
    ParseError::Custom { inner: None, .. } => false,
  }
}

// ---- repetition
pub open spec fn lo_of<'a>(b: Bound<'a, usize>) -> int { match b { Bound::Included(n) => *n as int, Bound::Excluded(_) => 0, Bound::Unbounded => 0 } }
pub open spec fn hi_of<'a>(b: Bound<'a, usize>) -> Option<int> {
  match b { Bound::Included(n) => Some(*n as int), Bound::Excluded(n) => Some(if *n == 0 { 0 } else { *n - 1 }), Bound::Unbounded => None }
}
/// the parser that runs where the next item is expected: after the separator, if there is one
pub open spec fn fails_at<'a, I, A>(p: Parser<'a, I, A>, s: ParseState<'a, I>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && r1 is Failure
}
pub open spec fn takes<'a, I, A>(p: Parser<'a, I, A>, s: ParseState<'a, I>, v: A, n: int) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && ok(r1, v, n)
}
pub open spec fn rep_of<'a, I, A, B>(p: Parser<'a, I, A>, hi: Option<int>, sep: Option<Parser<'a, I, B>>, s: ParseState<'a, I>) -> bool { true }
pub open spec fn mark(m: int) -> bool { true }
/// `items`, one after the other and separated by `sep`, take n elements from s
#[verifier::opaque]
pub open spec fn items_at<'a, I, A, B>(p: Parser<'a, I, A>, sep: Option<Parser<'a, I, B>>, s: ParseState<'a, I>, items: Seq<A>, n: int) -> bool
  decreases items.len()
{
  if items.len() == 0 { n == 0 }
  else if items.len() == 1 { takes(p, s, items[0], n) }
  else {
    exists|m: int| #[trigger] mark(m) && items_at(p, sep, s, items.drop_last(), m) && match sep {
      None => takes(p, adv(s, m), items.last(), n - m),
      Some(q) => exists|rq: ParseResult<'a, I, B>| #[trigger] q.post(adv(s, m), rq) && rq is Success
        && takes(p, adv(adv(s, m), rq->length as int), items.last(), n - m - rq->length),
    }
  }
}
/// after `count` items, n elements further, the repetition stops having consumed total elements: the upper bound is
/// reached, or the next item (or its separator) fails; a separator that no item follows is consumed all the same
pub open spec fn stops_at<'a, I, A, B>(p: Parser<'a, I, A>, sep: Option<Parser<'a, I, B>>, hi: Option<int>, s: ParseState<'a, I>, count: int, n: int, total: int) -> bool {
  if hi == Some(count) { total == n }
  else {
    &&& (hi is Some ==> count < hi->0)
    &&& if count == 0 || sep is None { total == n && fails_at(p, s) }
        else {
          (total == n && fails_at(sep->0, s))
          || exists|rq: ParseResult<'a, I, B>| #[trigger] (sep->0).post(s, rq) && rq is Success && total == n + rq->length && fails_at(p, adv(s, rq->length as int))
        }
  }
}
#[verifier::opaque]
pub open spec fn rep_end<'a, I, A, B>(p: Parser<'a, I, A>, hi: Option<int>, sep: Option<Parser<'a, I, B>>, s: ParseState<'a, I>, items: Seq<A>, total: int) -> bool {
  exists|n: int| #[trigger] items_at(p, sep, s, items, n) && stops_at(p, sep, hi, adv(s, n), items.len() as int, n, total)
}
pub open spec fn rep_post<'a, I, A, B>(p: Parser<'a, I, A>, lo: int, hi: Option<int>, sep: Option<Parser<'a, I, B>>, s: ParseState<'a, I>, r: ParseResult<'a, I, Vec<A>>) -> bool {
  exists|items: Seq<A>, total: int| #[trigger] rep_end(p, hi, sep, s, items, total)
    && if items.len() < lo { unc(r) } else { r is Success && r->value@ == items && r->length == total }
}

// ---- chains of operators
/// ASSUMED about callers: operator functions accept every pair of operands
pub open spec fn ops_total<A, BOP: Fn(A, A) -> A>() -> bool { forall|f: BOP, x: A, y: A| #[trigger] f.requires((x, y)) }
/// `x` when the continuation declined, the continuation's result otherwise
pub open spec fn or_else_value<'a, I, A>(x: A, r1: ParseResult<'a, I, A>, r: ParseResult<'a, I, A>) -> bool { if unc(r1) { ok(r, x, 0) } else { r == r1 } }

// one more operator and operand, combined from the left, then the rest (d bounds the number of operators)
pub open spec fn left_step<'a, I, A, BOP: Fn(A, A) -> A>(d: nat, p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, x: A, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool
  decreases d
{
  exists|ro: ParseResult<'a, I, BOP>| #[trigger] op.post(s, ro) && match ro {
    ParseResult::Failure { .. } => fail_as(ro, r),
    ParseResult::Success { value: f, length: n1 } => exists|ry: ParseResult<'a, I, A>| #[trigger] p.post(adv(s, n1 as int), ry) && match ry {
      ParseResult::Failure { .. } => after(n1 as int, ry, r),
      ParseResult::Success { value: y, length: n2 } => d > 0 && exists|fxy: A, r1: ParseResult<'a, I, A>, rr: ParseResult<'a, I, A>| #[trigger] f.ensures((x, y), fxy)
        && left_step((d - 1) as nat, p, op, fxy, adv(adv(s, n1 as int), n2 as int), r1) && #[trigger] or_else_value(fxy, r1, rr) && left_total(n1, n2, rr, r),
    },
  }
}
pub open spec fn left_total<'a, I, A>(n1: usize, n2: usize, rr: ParseResult<'a, I, A>, r: ParseResult<'a, I, A>) -> bool {
  match rr {
    ParseResult::Success { value, length } => ok(r, value, n1 + n2 + length),
    ParseResult::Failure { .. } => after(n1 as int, rr, r),
  }
}
pub open spec fn left_step_post<'a, I, A, BOP: Fn(A, A) -> A>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, x: A, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool { exists|d: nat| #[trigger] left_step(d, p, op, x, s, r) }
pub open spec fn left_rest_post<'a, I, A, BOP: Fn(A, A) -> A>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, x: A, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] left_step_post(p, op, x, s, r1) && or_else_value(x, r1, r)
}
pub open spec fn left_step_unfolded<'a, I, A, BOP: Fn(A, A) -> A>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, x: A, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|ro: ParseResult<'a, I, BOP>| #[trigger] op.post(s, ro) && match ro {
    ParseResult::Failure { .. } => fail_as(ro, r),
    ParseResult::Success { value: f, length: n1 } => exists|ry: ParseResult<'a, I, A>| #[trigger] p.post(adv(s, n1 as int), ry) && match ry {
      ParseResult::Failure { .. } => after(n1 as int, ry, r),
      ParseResult::Success { value: y, length: n2 } => exists|fxy: A, rr: ParseResult<'a, I, A>| #[trigger] f.ensures((x, y), fxy)
        && #[trigger] left_rest_post(p, op, fxy, adv(adv(s, n1 as int), n2 as int), rr) && left_total(n1, n2, rr, r),
    },
  }
}
pub open spec fn left_chain_post<'a, I, A, BOP: Fn(A, A) -> A>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|rx: ParseResult<'a, I, A>| #[trigger] p.post(s, rx) && match rx {
    ParseResult::Failure { .. } => r == rx,
    ParseResult::Success { value: x, length: n } => exists|rr: ParseResult<'a, I, A>| #[trigger] left_rest_post(p, op, x, adv(s, n as int), rr) && after(n as int, rr, r),
  }
}

// one operator, then a whole right-associated chain as its right operand
pub open spec fn right_step<'a, I, A, BOP: Fn(A, A) -> A>(d: nat, p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, x: A, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool
  decreases d
{
  exists|ro: ParseResult<'a, I, BOP>| #[trigger] op.post(s, ro) && match ro {
    ParseResult::Failure { .. } => fail_as(ro, r),
    ParseResult::Success { value: f, length: n1 } => exists|ry: ParseResult<'a, I, A>| #[trigger] p.post(adv(s, n1 as int), ry) && match ry {
      ParseResult::Failure { .. } => after(n1 as int, ry, r),
      ParseResult::Success { value: y, length: n2 } => d > 0 && exists|r1: ParseResult<'a, I, A>, rr: ParseResult<'a, I, A>, rc: ParseResult<'a, I, A>, rt: ParseResult<'a, I, A>|
        right_step((d - 1) as nat, p, op, y, adv(adv(s, n1 as int), n2 as int), r1) && #[trigger] or_else_value(y, r1, rr)
        && #[trigger] after(n2 as int, rr, rc) && #[trigger] combined(f, x, rc, rt) && after(n1 as int, rt, r),
    },
  }
}
pub open spec fn combined<'a, I, A, BOP: Fn(A, A) -> A>(f: BOP, x: A, rc: ParseResult<'a, I, A>, r: ParseResult<'a, I, A>) -> bool {
  match rc {
    ParseResult::Success { value: y, length } => r is Success && r->length == length && f.ensures((x, y), r->value),
    ParseResult::Failure { .. } => fail_as(rc, r),
  }
}
pub open spec fn right_step_post<'a, I, A, BOP: Fn(A, A) -> A>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, x: A, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool { exists|d: nat| #[trigger] right_step(d, p, op, x, s, r) }
pub open spec fn right_rest_post<'a, I, A, BOP: Fn(A, A) -> A>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, x: A, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] right_step_post(p, op, x, s, r1) && or_else_value(x, r1, r)
}
pub open spec fn right_chain_post<'a, I, A, BOP: Fn(A, A) -> A>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|rx: ParseResult<'a, I, A>| #[trigger] p.post(s, rx) && match rx {
    ParseResult::Failure { .. } => r == rx,
    ParseResult::Success { value: x, length: n } => exists|rr: ParseResult<'a, I, A>| #[trigger] right_rest_post(p, op, x, adv(s, n as int), rr) && after(n as int, rr, r),
  }
}
pub open spec fn right_rest_of<'a, I, A, BOP: Fn(A, A) -> A>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, x: A) -> bool { true }
/// what follows an operator f whose left operand is x
pub open spec fn right_tail_post<'a, I, A, BOP: Fn(A, A) -> A>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, f: BOP, x: A, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|rc: ParseResult<'a, I, A>| #[trigger] right_chain_post(p, op, s, rc) && combined(f, x, rc, r)
}
pub open spec fn right_step_unfolded<'a, I, A, BOP: Fn(A, A) -> A>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, x: A, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|ro: ParseResult<'a, I, BOP>| #[trigger] op.post(s, ro) && match ro {
    ParseResult::Failure { .. } => fail_as(ro, r),
    ParseResult::Success { value: f, length: n1 } => exists|rt: ParseResult<'a, I, A>| #[trigger] right_tail_post(p, op, f, x, adv(s, n1 as int), rt) && after(n1 as int, rt, r),
  }
}
// ---- runs of elements
// ---- character classes, by code
pub open spec fn c_lower(c: int) -> bool { 'a' as u32 <= c <= 'z' as u32 }
pub open spec fn c_upper(c: int) -> bool { 'A' as u32 <= c <= 'Z' as u32 }
pub open spec fn c_alpha(c: int) -> bool { c_lower(c) || c_upper(c) }
pub open spec fn c_digit(c: int) -> bool { '0' as u32 <= c <= '9' as u32 }
pub open spec fn c_alnum(c: int) -> bool { c_alpha(c) || c_digit(c) }
pub open spec fn c_hex(c: int) -> bool { c_digit(c) || ('a' as u32 <= c <= 'f' as u32) || ('A' as u32 <= c <= 'F' as u32) }
// the repository's own tests pin '8' as accepted
pub open spec fn c_oct(c: int) -> bool { '0' as u32 <= c <= '8' as u32 }
pub open spec fn c_space(c: int) -> bool { c == 32 || c == 9 }
pub open spec fn c_multi_space(c: int) -> bool { c_space(c) || c == 10 || c == 13 }
pub open spec fn c_white(c: int) -> bool { c_multi_space(c) || c == 12 }
pub open spec fn c_punct(c: int) -> bool { 33 <= c <= 47 || 58 <= c <= 64 || 91 <= c <= 96 || 123 <= c <= 126 }
pub open spec fn c_graphic(c: int) -> bool { 33 <= c <= 126 }
pub open spec fn c_control(c: int) -> bool { 0 <= c <= 31 || c == 127 }

/// value equality as the type defines it
pub open spec fn eqv<T: PartialEq>(a: T, b: T) -> bool { a.eq_spec(&b) }
pub open spec fn lev<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) || a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Equal) }
pub open spec fn ltv<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) }
/// an element type whose comparison operators agree with each other (u8 and char do)
pub open spec fn ordered<T: PartialOrd>() -> bool {
  T::obeys_partial_cmp_spec() && forall|a: T, b: T| (#[trigger] a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) <==> b.partial_cmp_spec(&a) == Some(core::cmp::Ordering::Greater))
    && (a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Equal) <==> b.partial_cmp_spec(&a) == Some(core::cmp::Ordering::Equal))
}
impl vstd::std_specs::convert::FromSpecImpl<bool> for CommittedStatus {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: bool) -> CommittedStatus { cmt(v) }
}

// ---- literals: all of it is there, or nothing is taken; a mismatch after the first element is committed, an input that
// ends inside the literal is not
pub open spec fn seq_post<'a, I: PartialEq, B>(a: Seq<I>, s: ParseState<'a, I>, r: ParseResult<'a, I, B>) -> bool {
  if a.len() <= rem(s) && forall|j: int| 0 <= j < a.len() ==> eqv(#[trigger] a[j], rest(s)[j]) { r is Success && r->length == a.len() }
  else { r is Failure && r->committed_status == cmt(a.len() > 0 && rem(s) > 0 && eqv(a[0], rest(s)[0]) && exists|k: int| 0 <= k < a.len() && k < rem(s) && !(eqv(#[trigger] a[k], rest(s)[k]))) }
}
pub open spec fn tag_post<'a, B>(a: Seq<char>, s: ParseState<'a, char>, r: ParseResult<'a, char, B>) -> bool {
  if a.len() <= rem(s) && forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] == rest(s)[j] { r is Success && r->length == a.len() }
  else { r is Failure && r->committed_status == cmt(a.len() > 0 && rem(s) > 0 && a[0] == rest(s)[0] && exists|k: int| 0 <= k < a.len() && k < rem(s) && !(#[trigger] a[k] == rest(s)[k])) }
}
pub open spec fn tag_no_case_post<'a, B>(a: Seq<char>, s: ParseState<'a, char>, r: ParseResult<'a, char, B>) -> bool {
  if a.len() <= rem(s) && forall|j: int| 0 <= j < a.len() ==> ascii_lower(#[trigger] a[j]) == ascii_lower(rest(s)[j]) { r is Success && r->length == a.len() }
  else { r is Failure && r->committed_status == cmt(a.len() > 0 && rem(s) > 0 && ascii_lower(a[0]) == ascii_lower(rest(s)[0]) && exists|k: int| 0 <= k < a.len() && k < rem(s) && !(ascii_lower(#[trigger] a[k]) == ascii_lower(rest(s)[k]))) }
}
pub open spec fn ascii_lower(c: char) -> int { if 'A' <= c && c <= 'Z' { c as u32 + 32 } else { c as u32 as int } }
pub assume_specification[ char::eq_ignore_ascii_case ](a: &char, b: &char) -> (r: bool)
  ensures r == (ascii_lower(*a) == ascii_lower(*b));
/// every element of x[a..b] made the predicate return v
pub open spec fn all_are<I, F: Fn(&I) -> bool>(f: F, x: Seq<I>, a: int, b: int, v: bool) -> bool {
  forall|j: int| a <= j < b ==> f.ensures((&#[trigger] x[j],), v)
}
/// the first run of matching elements of x is x[k..k+len]
pub open spec fn run_at<I, F: Fn(&I) -> bool>(f: F, x: Seq<I>, k: int, len: int) -> bool {
  0 <= k && 0 < len && k + len <= x.len() && all_are(f, x, 0, k, false) && all_are(f, x, k, k + len, true)
    && (k + len < x.len() ==> f.ensures((&x[k + len],), false))
}
pub open spec fn scan_inv<I, F: Fn(&I) -> bool>(f: F, x: Seq<I>, index: int, start: Option<usize>, len: int) -> bool {
  0 <= index <= x.len() && match start {
    None => len == 0 && all_are(f, x, 0, index, false),
    Some(k) => 0 <= k && 0 < len && k + len == index && all_are(f, x, 0, k as int, false) && all_are(f, x, k as int, index, true),
  }
}
pub open spec fn run_end<I, F: Fn(&I) -> bool>(f: F, x: Seq<I>, start: Option<usize>, len: int) -> bool {
  match start { None => len == 0 && all_are(f, x, 0, x.len() as int, false), Some(k) => run_at(f, x, k as int, len) }
}
/// leading elements that do not match are skipped; the value is the first run of matching elements, which must be
/// between lo and hi elements long; `empty_ok`: no match at all is an empty success
pub open spec fn while_post<'a, I, F: Fn(&I) -> bool>(f: F, lo: int, hi: Option<int>, empty_ok: bool, s: ParseState<'a, I>, r: ParseResult<'a, I, &'a [I]>) -> bool {
  (all_are(f, rest(s), 0, rem(s), false) && if empty_ok { r is Success && r->length == 0 && r->value@.len() == 0 } else { unc(r) })
  || exists|k: int, len: int| #[trigger] run_at(f, rest(s), k, len)
      && if lo <= len && (hi is Some ==> len <= hi->0) { r is Success && r->length == k + len && r->value@ == rest(s).subrange(k, k + len) } else { unc(r) }
}
/// up to and including the first element that satisfies f
pub open spec fn till_post<'a, I, F: Fn(&I) -> bool>(f: F, to_end: bool, s: ParseState<'a, I>, r: ParseResult<'a, I, &'a [I]>) -> bool {
  (all_are(f, rest(s), 0, rem(s), false) && if to_end { r is Success && r->length == rem(s) && r->value@ == rest(s) } else { unc(r) })
  || exists|k: int| 0 <= k < rem(s) && all_are(f, rest(s), 0, k, false) && f.ensures((&#[trigger] rest(s)[k],), true)
      && r is Success && r->length == k + 1 && r->value@ == rest(s).take(k + 1)
}
pub open spec fn repeat_post<'a, I, A, B, R: RangeArgument<usize>>(p: Parser<'a, I, A>, range: R, sep: Option<Parser<'a, I, B>>, s: ParseState<'a, I>, r: ParseResult<'a, I, Vec<A>>) -> bool {
  rep_post(p, lo_of(range.lo()), hi_of(range.hi()), sep, s, r)
}

/// like filter_post; what a rejected value does to the committed status is not specified here
pub open spec fn filter_any_post<'a, I, A, F: Fn(&A) -> bool>(p: Parser<'a, I, A>, f: F, s: ParseState<'a, I>, r: ParseResult<'a, I, A>) -> bool {
  exists|r1: ParseResult<'a, I, A>| #[trigger] p.post(s, r1) && match r1 {
    ParseResult::Success { value, length } => (f.ensures((&value,), true) && r == r1) || (f.ensures((&value,), false) && r is Failure),
    ParseResult::Failure { .. } => fail_as(r1, r),
  }
}

pub assume_specification<T: PartialEq> [ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
  ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && eqv(#[trigger] s@[i], *x);

// ASSUMED: the standard library
pub assume_specification<T: Clone> [ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
  ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);
pub assume_specification<T> [ RangeInclusive::<T>::start ](x: &RangeInclusive<T>) -> (r: &T)
  ensures *r == x@.start;
pub assume_specification<T> [ RangeInclusive::<T>::end ](x: &RangeInclusive<T>) -> (r: &T)
  ensures *r == x@.end;
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool)
  ensures r == c_digit((*c as u32 as int));
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool)
  ensures r == c_alpha((*c as u32 as int));
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool)
  ensures r == c_alnum((*c as u32 as int));
pub assume_specification[ char::is_ascii_hexdigit ](c: &char) -> (r: bool)
  ensures r == c_hex((*c as u32 as int));
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool)
  ensures r == c_upper((*c as u32 as int));
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool)
  ensures r == c_lower((*c as u32 as int));
pub assume_specification[ char::is_ascii_punctuation ](c: &char) -> (r: bool)
  ensures r == c_punct((*c as u32 as int));
pub assume_specification[ char::is_ascii_graphic ](c: &char) -> (r: bool)
  ensures r == c_graphic((*c as u32 as int));
pub assume_specification[ char::is_ascii_control ](c: &char) -> (r: bool)
  ensures r == c_control((*c as u32 as int));
pub assume_specification[ char::is_ascii_whitespace ](c: &char) -> (r: bool)
  ensures r == c_white((*c as u32 as int));
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool)
  ensures r == ((*c as u32 as int) <= 127);
pub assume_specification[ u8::is_ascii_digit ](c: &u8) -> (r: bool)
  ensures r == c_digit((*c as int));
pub assume_specification[ u8::is_ascii_alphabetic ](c: &u8) -> (r: bool)
  ensures r == c_alpha((*c as int));
pub assume_specification[ u8::is_ascii_alphanumeric ](c: &u8) -> (r: bool)
  ensures r == c_alnum((*c as int));
pub assume_specification[ u8::is_ascii_hexdigit ](c: &u8) -> (r: bool)
  ensures r == c_hex((*c as int));
pub assume_specification[ u8::is_ascii_uppercase ](c: &u8) -> (r: bool)
  ensures r == c_upper((*c as int));
pub assume_specification[ u8::is_ascii_lowercase ](c: &u8) -> (r: bool)
  ensures r == c_lower((*c as int));
pub assume_specification[ u8::is_ascii_punctuation ](c: &u8) -> (r: bool)
  ensures r == c_punct((*c as int));
pub assume_specification[ u8::is_ascii_graphic ](c: &u8) -> (r: bool)
  ensures r == c_graphic((*c as int));
pub assume_specification[ u8::is_ascii_control ](c: &u8) -> (r: bool)
  ensures r == c_control((*c as int));
pub assume_specification[ u8::is_ascii_whitespace ](c: &u8) -> (r: bool)
  ensures r == c_white((*c as int));
pub assume_specification[ u8::is_ascii ](c: &u8) -> (r: bool)
  ensures r == ((*c as int) <= 127);

pub mod vx_lemmas {
use super::*;
pub broadcast proof fn lemma_sub_sub<A>(x: Seq<A>, a: int, b: int, c: int, d: int)
  requires 0 <= a <= b <= x.len(), 0 <= c <= d <= b - a
  ensures #[trigger] x.subrange(a, b).subrange(c, d) == x.subrange(a + c, a + d)
{ assert(x.subrange(a, b).subrange(c, d) =~= x.subrange(a + c, a + d)); }
pub broadcast proof fn lemma_right_ok<'a, I, A, BOP: Fn(A, A) -> A>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, x: A, s: ParseState<'a, I>, ro: ParseResult<'a, I, BOP>, rt: ParseResult<'a, I, A>, r: ParseResult<'a, I, A>)
  requires op.post(s, ro), ro is Success, #[trigger] right_tail_post(p, op, ro->value, x, adv(s, ro->length as int), rt), #[trigger] after(ro->length as int, rt, r)
  ensures right_step_post(p, op, x, s, r)
{ lemma_right_step(p, op, x, s, r); }
pub broadcast proof fn lemma_right_fail<'a, I, A, BOP: Fn(A, A) -> A>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, x: A, s: ParseState<'a, I>, ro: ParseResult<'a, I, BOP>, r: ParseResult<'a, I, A>)
  requires #[trigger] op.post(s, ro), #[trigger] fail_as(ro, r)
  ensures #[trigger] right_rest_of(p, op, x), right_step_post(p, op, x, s, r)
{ lemma_right_step(p, op, x, s, r); }
pub broadcast proof fn lemma_items_one<'a, I, A, B>(p: Parser<'a, I, A>, sep: Option<Parser<'a, I, B>>, s: ParseState<'a, I>, items: Seq<A>, n: int)
  requires items.len() == 1
  ensures #[trigger] items_at(p, sep, s, items, n) == takes(p, s, items[0], n)
{ reveal(items_at); }
pub broadcast proof fn lemma_items_push<'a, I, A, B>(p: Parser<'a, I, A>, sep: Option<Parser<'a, I, B>>, s: ParseState<'a, I>, items: Seq<A>, m: int, r1: ParseResult<'a, I, A>)
  requires items.len() > 0, #[trigger] items_at(p, sep, s, items, m), sep is None, #[trigger] p.post(adv(s, m), r1), r1 is Success
  ensures items_at(p, sep, s, items.push(r1->value), m + r1->length)
{ reveal(items_at); assert(items.push(r1->value).drop_last() =~= items); assert(mark(m)); assert(takes(p, adv(s, m), r1->value, r1->length as int)); }
pub broadcast proof fn lemma_items_push_sep<'a, I, A, B>(p: Parser<'a, I, A>, sep: Option<Parser<'a, I, B>>, q: Parser<'a, I, B>, s: ParseState<'a, I>, items: Seq<A>, m: int, rq: ParseResult<'a, I, B>, r1: ParseResult<'a, I, A>)
  requires items.len() > 0, #[trigger] items_at(p, sep, s, items, m), sep == Some(q), #[trigger] q.post(adv(s, m), rq), rq is Success,
    #[trigger] p.post(adv(adv(s, m), rq->length as int), r1), r1 is Success
  ensures items_at(p, sep, s, items.push(r1->value), m + rq->length + r1->length)
{
  reveal(items_at);
  let more = items.push(r1->value);
  let n = m + rq->length + r1->length;
  assert(more.drop_last() =~= items);
  assert(more.last() == r1->value);
  assert(takes(p, adv(adv(s, m), rq->length as int), more.last(), n - m - rq->length));
  assert(items_at(p, sep, s, more.drop_last(), m));
  assert((sep->0).post(adv(s, m), rq));
  assert(exists|rq: ParseResult<'a, I, B>| #[trigger] q.post(adv(s, m), rq) && rq is Success && takes(p, adv(adv(s, m), rq->length as int), more.last(), n - m - rq->length)) by { assert(q.post(adv(s, m), rq)); }
  assert(mark(m) && items_at(p, sep, s, more.drop_last(), m) && match sep {
      None => takes(p, adv(s, m), more.last(), n - m),
      Some(q) => exists|rq: ParseResult<'a, I, B>| #[trigger] q.post(adv(s, m), rq) && rq is Success
        && takes(p, adv(adv(s, m), rq->length as int), more.last(), n - m - rq->length),
    });
  assert(items_at(p, sep, s, more, n));
}
pub broadcast proof fn lemma_rep_none<'a, I, A, B>(p: Parser<'a, I, A>, hi: Option<int>, sep: Option<Parser<'a, I, B>>, s: ParseState<'a, I>)
  ensures #[trigger] rep_of(p, hi, sep, s), hi == Some(0int) ==> rep_end(p, hi, sep, s, Seq::<A>::empty(), 0)
{ reveal(items_at); reveal(rep_end); if hi == Some(0int) { assert(items_at(p, sep, s, Seq::<A>::empty(), 0)); } }
pub broadcast proof fn lemma_rep_first_fails<'a, I, A, B>(p: Parser<'a, I, A>, hi: Option<int>, sep: Option<Parser<'a, I, B>>, s: ParseState<'a, I>, r1: ParseResult<'a, I, A>)
  requires #[trigger] p.post(s, r1), r1 is Failure, hi is Some ==> 0 < hi->0
  ensures #[trigger] rep_of(p, hi, sep, s), rep_end(p, hi, sep, s, Seq::<A>::empty(), 0)
{ reveal(items_at); reveal(rep_end); assert(items_at(p, sep, s, Seq::<A>::empty(), 0)); assert(fails_at(p, s)); assert(stops_at(p, sep, hi, adv(s, 0), 0, 0, 0)); }
pub broadcast proof fn lemma_stop_full<'a, I, A, B>(p: Parser<'a, I, A>, hi: Option<int>, sep: Option<Parser<'a, I, B>>, s: ParseState<'a, I>, items: Seq<A>, n: int)
  requires #[trigger] rep_of(p, hi, sep, s), #[trigger] items_at(p, sep, s, items, n), hi == Some(items.len() as int)
  ensures rep_end(p, hi, sep, s, items, n)
{ reveal(rep_end); assert(stops_at(p, sep, hi, adv(s, n), items.len() as int, n, n)); }
pub broadcast proof fn lemma_stop_sep<'a, I, A, B>(p: Parser<'a, I, A>, hi: Option<int>, sep: Option<Parser<'a, I, B>>, q: Parser<'a, I, B>, s: ParseState<'a, I>, items: Seq<A>, n: int, rq: ParseResult<'a, I, B>)
  requires #[trigger] rep_of(p, hi, sep, s), #[trigger] items_at(p, sep, s, items, n), items.len() > 0, hi is Some ==> items.len() < hi->0, sep == Some(q), #[trigger] q.post(adv(s, n), rq), rq is Failure
  ensures rep_end(p, hi, sep, s, items, n)
{ reveal(rep_end); assert(fails_at(q, adv(s, n))); assert(stops_at(p, sep, hi, adv(s, n), items.len() as int, n, n)); }
pub broadcast proof fn lemma_stop_item<'a, I, A, B>(p: Parser<'a, I, A>, hi: Option<int>, sep: Option<Parser<'a, I, B>>, s: ParseState<'a, I>, items: Seq<A>, n: int, r1: ParseResult<'a, I, A>)
  requires #[trigger] rep_of(p, hi, sep, s), #[trigger] items_at(p, sep, s, items, n), items.len() > 0, hi is Some ==> items.len() < hi->0, sep is None, #[trigger] p.post(adv(s, n), r1), r1 is Failure
  ensures rep_end(p, hi, sep, s, items, n)
{ reveal(rep_end); assert(fails_at(p, adv(s, n))); assert(stops_at(p, sep, hi, adv(s, n), items.len() as int, n, n)); }
pub broadcast proof fn lemma_stop_item_sep<'a, I, A, B>(p: Parser<'a, I, A>, hi: Option<int>, sep: Option<Parser<'a, I, B>>, q: Parser<'a, I, B>, s: ParseState<'a, I>, items: Seq<A>, n: int, rq: ParseResult<'a, I, B>, r1: ParseResult<'a, I, A>)
  requires #[trigger] rep_of(p, hi, sep, s), #[trigger] items_at(p, sep, s, items, n), items.len() > 0, hi is Some ==> items.len() < hi->0, sep == Some(q), #[trigger] q.post(adv(s, n), rq), rq is Success,
    #[trigger] p.post(adv(adv(s, n), rq->length as int), r1), r1 is Failure
  ensures rep_end(p, hi, sep, s, items, n + rq->length)
{ reveal(rep_end); let t = adv(adv(s, n), rq->length as int); assert((sep->0).post(adv(s, n), rq)); assert(fails_at(p, t)); assert(stops_at(p, sep, hi, adv(s, n), items.len() as int, n, n + rq->length)); }
pub broadcast axiom fn axiom_clone_faithful<T: Clone>(a: T, b: T)
  ensures #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b;
pub broadcast axiom fn axiom_cloned_faithful<T: Clone>(a: T, b: T)
  ensures #[trigger] cloned(a, b) ==> a == b;
pub broadcast axiom fn axiom_post_fits<'a, I, A>(p: Parser<'a, I, A>, s: ParseState<'a, I>, r: ParseResult<'a, I, A>)
  ensures #[trigger] p.post(s, r) ==> s.wf() && fits(s, r);
pub broadcast proof fn lemma_push_drop_last<A>(s: Seq<A>, a: A)
  ensures (#[trigger] s.push(a)).drop_last() == s, s.push(a).last() == a
{ assert(s.push(a).drop_last() =~= s); }
pub broadcast proof fn lemma_adv0<'a, I>(s: ParseState<'a, I>)
  ensures #[trigger] adv(s, 0) == s
{ }
pub broadcast proof fn lemma_left_step<'a, I, A, BOP: Fn(A, A) -> A>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, x: A, s: ParseState<'a, I>, r: ParseResult<'a, I, A>)
  ensures left_step_unfolded(p, op, x, s, r) ==> #[trigger] left_step_post(p, op, x, s, r)
{
  if left_step_unfolded(p, op, x, s, r) {
    let ro = choose|ro: ParseResult<'a, I, BOP>| #[trigger] op.post(s, ro) && match ro {
      ParseResult::Failure { .. } => fail_as(ro, r),
      ParseResult::Success { value: f, length: n1 } => exists|ry: ParseResult<'a, I, A>| #[trigger] p.post(adv(s, n1 as int), ry) && match ry {
        ParseResult::Failure { .. } => after(n1 as int, ry, r),
        ParseResult::Success { value: y, length: n2 } => exists|fxy: A, rr: ParseResult<'a, I, A>| #[trigger] f.ensures((x, y), fxy)
          && #[trigger] left_rest_post(p, op, fxy, adv(adv(s, n1 as int), n2 as int), rr) && left_total(n1, n2, rr, r),
      },
    };
    match ro {
      ParseResult::Failure { .. } => { assert(left_step(0, p, op, x, s, r)); },
      ParseResult::Success { value: f, length: n1 } => {
        let ry = choose|ry: ParseResult<'a, I, A>| #[trigger] p.post(adv(s, n1 as int), ry) && match ry {
          ParseResult::Failure { .. } => after(n1 as int, ry, r),
          ParseResult::Success { value: y, length: n2 } => exists|fxy: A, rr: ParseResult<'a, I, A>| #[trigger] f.ensures((x, y), fxy)
            && #[trigger] left_rest_post(p, op, fxy, adv(adv(s, n1 as int), n2 as int), rr) && left_total(n1, n2, rr, r),
        };
        match ry {
          ParseResult::Failure { .. } => { assert(left_step(0, p, op, x, s, r)); },
          ParseResult::Success { value: y, length: n2 } => {
            let (fxy, rr) = choose|fxy: A, rr: ParseResult<'a, I, A>| #[trigger] f.ensures((x, y), fxy)
              && #[trigger] left_rest_post(p, op, fxy, adv(adv(s, n1 as int), n2 as int), rr) && left_total(n1, n2, rr, r);
            let s2 = adv(adv(s, n1 as int), n2 as int);
            let r1 = choose|r1: ParseResult<'a, I, A>| #[trigger] left_step_post(p, op, fxy, s2, r1) && or_else_value(fxy, r1, rr);
            let d = choose|d: nat| #[trigger] left_step(d, p, op, fxy, s2, r1);
            assert(((d + 1) - 1) as nat == d);
            assert(left_step(((d + 1) - 1) as nat, p, op, fxy, s2, r1) && or_else_value(fxy, r1, rr) && f.ensures((x, y), fxy));
            assert(left_step(d + 1, p, op, x, s, r));
          },
        }
      },
    }
  }
}
pub broadcast proof fn lemma_right_step<'a, I, A, BOP: Fn(A, A) -> A>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>, x: A, s: ParseState<'a, I>, r: ParseResult<'a, I, A>)
  ensures right_step_unfolded(p, op, x, s, r) ==> #[trigger] right_step_post(p, op, x, s, r)
{
  if right_step_unfolded(p, op, x, s, r) {
    let ro = choose|ro: ParseResult<'a, I, BOP>| #[trigger] op.post(s, ro) && match ro {
      ParseResult::Failure { .. } => fail_as(ro, r),
      ParseResult::Success { value: f, length: n1 } => exists|rt: ParseResult<'a, I, A>| #[trigger] right_tail_post(p, op, f, x, adv(s, n1 as int), rt) && after(n1 as int, rt, r),
    };
    match ro {
      ParseResult::Failure { .. } => { assert(right_step(0, p, op, x, s, r)); },
      ParseResult::Success { value: f, length: n1 } => {
        let s1 = adv(s, n1 as int);
        let rt = choose|rt: ParseResult<'a, I, A>| #[trigger] right_tail_post(p, op, f, x, s1, rt) && after(n1 as int, rt, r);
        let rc = choose|rc: ParseResult<'a, I, A>| #[trigger] right_chain_post(p, op, s1, rc) && combined(f, x, rc, rt);
        let ry = choose|ry: ParseResult<'a, I, A>| #[trigger] p.post(s1, ry) && match ry {
          ParseResult::Failure { .. } => rc == ry,
          ParseResult::Success { value: y, length: n2 } => exists|rr: ParseResult<'a, I, A>| #[trigger] right_rest_post(p, op, y, adv(s1, n2 as int), rr) && after(n2 as int, rr, rc),
        };
        match ry {
          ParseResult::Failure { .. } => { assert(right_step(0, p, op, x, s, r)); },
          ParseResult::Success { value: y, length: n2 } => {
            let s2 = adv(s1, n2 as int);
            let rr = choose|rr: ParseResult<'a, I, A>| #[trigger] right_rest_post(p, op, y, s2, rr) && after(n2 as int, rr, rc);
            let r1 = choose|r1: ParseResult<'a, I, A>| #[trigger] right_step_post(p, op, y, s2, r1) && or_else_value(y, r1, rr);
            let d = choose|d: nat| #[trigger] right_step(d, p, op, y, s2, r1);
            assert(((d + 1) - 1) as nat == d);
            assert(right_step(((d + 1) - 1) as nat, p, op, y, s2, r1) && or_else_value(y, r1, rr) && after(n2 as int, rr, rc) && combined(f, x, rc, rt));
            assert(right_step(d + 1, p, op, x, s, r));
          },
        }
      },
    }
  }
}
}

pub assume_specification[ <char as From<u8>>::from ](b: u8) -> (r: char)
  ensures r as u32 == b as u32;
