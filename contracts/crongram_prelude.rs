// ---- what the cron grammar means: at index i of the text x, the value and the index where it ends (ordered choice, no going back)
pub type Ans<A> = Option<(A, int)>;
pub type Gram = spec_fn(Seq<char>, int) -> Option<(CronExpr, int)>;
pub open spec fn gives<'a, A>(o: Ans<A>, s: ParseState<'a, char>, r: ParseResult<'a, char, A>) -> bool {
  match o { Some(t) => ok(r, t.0, t.1 - s.offset), None => unc(r) }
}
/// p does at every place what g says
pub open spec fn parses<'a>(p: Parser<'a, char, CronExpr>, g: Gram) -> bool {
  forall|s: ParseState<'a, char>, r: ParseResult<'a, char, CronExpr>| #[trigger] p.post(s, r) ==> gives(g(s.input@, s.offset as int), s, r)
}
pub open spec fn hint(g: Gram) -> bool { true }
pub open spec fn is_at(x: Seq<char>, i: int, c: char) -> bool { 0 <= i < x.len() && x[i] == c }
pub open spec fn in_at(x: Seq<char>, i: int, a: char, b: char) -> bool { 0 <= i < x.len() && a <= x[i] && x[i] <= b }
pub open spec fn word_at(x: Seq<char>, i: int, a: char, b: char, c: char) -> bool { is_at(x, i, a) && is_at(x, i + 1, b) && is_at(x, i + 2, c) }
pub open spec fn dig(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn num1(c: char) -> CronExpr { CronExpr::ValueExpr((c as u32 - 48) as u8) }
pub open spec fn num2(c: char, d: char) -> CronExpr { CronExpr::ValueExpr(((c as u32 - 48) * 10 + (d as u32 - 48)) as u8) }
/// minutes: 10 to 59, 00 to 09, 0 to 9
pub open spec fn min_at(x: Seq<char>, i: int) -> Ans<CronExpr> {
  if in_at(x, i, '1', '5') && in_at(x, i + 1, '0', '9') { Some((num2(x[i], x[i + 1]), i + 2)) }
  else if is_at(x, i, '0') && in_at(x, i + 1, '0', '9') { Some((num1(x[i + 1]), i + 2)) }
  else if in_at(x, i, '0', '9') { Some((num1(x[i]), i + 1)) } else { None }
}
/// hours: 20 to 23, 10 to 19, 00 to 09, 0 to 9
pub open spec fn hour_at(x: Seq<char>, i: int) -> Ans<CronExpr> {
  if is_at(x, i, '2') && in_at(x, i + 1, '0', '3') { Some((num2(x[i], x[i + 1]), i + 2)) }
  else if is_at(x, i, '1') && in_at(x, i + 1, '0', '9') { Some((num2(x[i], x[i + 1]), i + 2)) }
  else if is_at(x, i, '0') && in_at(x, i + 1, '0', '9') { Some((num1(x[i + 1]), i + 2)) }
  else if in_at(x, i, '0', '9') { Some((num1(x[i]), i + 1)) } else { None }
}
/// days of the month: 30, 31, 10 to 29, 01 to 09, 1 to 9
pub open spec fn day_at(x: Seq<char>, i: int) -> Ans<CronExpr> {
  if is_at(x, i, '3') && in_at(x, i + 1, '0', '1') { Some((num2(x[i], x[i + 1]), i + 2)) }
  else if in_at(x, i, '1', '2') && in_at(x, i + 1, '0', '9') { Some((num2(x[i], x[i + 1]), i + 2)) }
  else if is_at(x, i, '0') && in_at(x, i + 1, '1', '9') { Some((num1(x[i + 1]), i + 2)) }
  else if in_at(x, i, '1', '9') { Some((num1(x[i]), i + 1)) } else { None }
}
/// months: 10 to 12, 01 to 09, 1 to 9
pub open spec fn month_at(x: Seq<char>, i: int) -> Ans<CronExpr> {
  if is_at(x, i, '1') && in_at(x, i + 1, '0', '2') { Some((num2(x[i], x[i + 1]), i + 2)) }
  else if is_at(x, i, '0') && in_at(x, i + 1, '1', '9') { Some((num1(x[i + 1]), i + 2)) }
  else if in_at(x, i, '1', '9') { Some((num1(x[i]), i + 1)) } else { None }
}
pub open spec fn day_name_at(x: Seq<char>, i: int) -> Ans<CronExpr> {
  if word_at(x, i, 'S', 'U', 'N') { Some((CronExpr::ValueExpr(1), i + 3)) }
  else if word_at(x, i, 'M', 'O', 'N') { Some((CronExpr::ValueExpr(2), i + 3)) }
  else if word_at(x, i, 'T', 'U', 'E') { Some((CronExpr::ValueExpr(3), i + 3)) }
  else if word_at(x, i, 'W', 'E', 'D') { Some((CronExpr::ValueExpr(4), i + 3)) }
  else if word_at(x, i, 'T', 'H', 'U') { Some((CronExpr::ValueExpr(5), i + 3)) }
  else if word_at(x, i, 'F', 'R', 'I') { Some((CronExpr::ValueExpr(6), i + 3)) }
  else if word_at(x, i, 'S', 'A', 'T') { Some((CronExpr::ValueExpr(7), i + 3)) }
  else if is_at(x, i, 'L') { Some((CronExpr::LastValueExpr, i + 1)) } else { None }
}
pub open spec fn day_number_at(x: Seq<char>, i: int) -> Ans<CronExpr> {
  if in_at(x, i, '1', '7') { Some((num1(x[i]), i + 1)) } else { None }
}
pub open spec fn first_of(a: Ans<CronExpr>, b: Ans<CronExpr>) -> Ans<CronExpr> { if a is Some { a } else { b } }
pub open spec fn any_at(x: Seq<char>, i: int) -> Ans<CronExpr> { if is_at(x, i, '*') { Some((CronExpr::AnyValueExpr, i + 1)) } else { None } }
pub open spec fn min_f() -> Gram { |x: Seq<char>, i: int| min_at(x, i) }
pub open spec fn hour_f() -> Gram { |x: Seq<char>, i: int| hour_at(x, i) }
pub open spec fn day_f() -> Gram { |x: Seq<char>, i: int| day_at(x, i) }
pub open spec fn month_f() -> Gram { |x: Seq<char>, i: int| month_at(x, i) }
pub open spec fn dow_f() -> Gram { |x: Seq<char>, i: int| first_of(day_number_at(x, i), day_name_at(x, i)) }
/// `/` and a step
pub open spec fn per_at(g: Gram, x: Seq<char>, i: int) -> Ans<CronExpr> { if is_at(x, i, '/') { g(x, i + 1) } else { None } }
pub open spec fn per_f(g: Gram) -> Gram { |x: Seq<char>, i: int| per_at(g, x, i) }
/// an optional step
pub open spec fn opt_per_at(g: Gram, x: Seq<char>, i: int) -> Ans<CronExpr> {
  match per_at(g, x, i) { Some(t) => Some(t), None => Some((CronExpr::NoOp, i)) }
}
pub open spec fn opt_per_f(g: Gram) -> Gram { |x: Seq<char>, i: int| opt_per_at(g, x, i) }
/// `*` and a step
pub open spec fn any_per_at(g: Gram, x: Seq<char>, i: int) -> Ans<CronExpr> {
  if is_at(x, i, '*') {
    match per_at(g, x, i + 1) { Some(t) => Some((CronExpr::PerExpr { digit: box_of(CronExpr::AnyValueExpr), option: box_of(t.0) }, t.1)), None => None }
  } else { None }
}
pub open spec fn any_per_f(g: Gram) -> Gram { |x: Seq<char>, i: int| any_per_at(g, x, i) }
/// from-to, with an optional step
pub open spec fn range_at(g: Gram, x: Seq<char>, i: int) -> Ans<CronExpr> {
  match g(x, i) {
    None => None,
    Some(a) => if !is_at(x, a.1, '-') { None } else {
      match g(x, a.1 + 1) {
        None => None,
        Some(b) => match opt_per_at(g, x, b.1) {
          None => None,
          Some(c) => Some((CronExpr::RangeExpr { from: box_of(a.0), to: box_of(b.0), per_option: box_of(c.0) }, c.1)),
        },
      }
    },
  }
}
pub open spec fn item_at(g: Gram, x: Seq<char>, i: int) -> Ans<CronExpr> { first_of(range_at(g, x, i), g(x, i)) }
pub open spec fn item_f(g: Gram) -> Gram { |x: Seq<char>, i: int| item_at(g, x, i) }
/// the items that follow, each after a comma; a comma that no item follows is taken all the same
pub open spec fn more_at(g: Gram, x: Seq<char>, i: int) -> (Seq<CronExpr>, int)
  decreases (if i < x.len() { x.len() - i } else { 0 })
{
  if !is_at(x, i, ',') { (Seq::empty(), i) }
  else {
    match g(x, i + 1) {
      None => (Seq::empty(), i + 1),
      Some(t) => if i < t.1 { let m = more_at(g, x, t.1); (seq![t.0] + m.0, m.1) } else { (Seq::empty(), i) },
    }
  }
}
pub open spec fn list_of(items: Seq<CronExpr>) -> CronExpr { if items.len() == 1 { items[0] } else { CronExpr::ListExpr(vec_of(items)) } }
pub open spec fn list_at(g: Gram, x: Seq<char>, i: int) -> Ans<CronExpr> {
  match g(x, i) { None => None, Some(t) => { let m = more_at(g, x, t.1); Some((list_of(seq![t.0] + m.0), m.1)) } }
}
pub open spec fn list_f(g: Gram) -> Gram { |x: Seq<char>, i: int| list_at(g, x, i) }
/// one field: a list of values and ranges, `*` with a step, or `*`
#[verifier::opaque]
pub open spec fn field_at(g: Gram, x: Seq<char>, i: int) -> Ans<CronExpr> {
  first_of(first_of(list_at(item_f(g), x, i), any_per_at(g, x, i)), any_at(x, i))
}
/// the next field, after a blank
pub open spec fn next_at(a: Ans<CronExpr>, g: Gram, x: Seq<char>) -> Ans<CronExpr> {
  if a is Some && is_at(x, (a->0).1, ' ') { field_at(g, x, (a->0).1 + 1) } else { None }
}
/// the five fields, separated by single blanks
pub open spec fn cron_at(x: Seq<char>, i: int) -> Ans<CronExpr> {
  let a = field_at(min_f(), x, i);
  let b = next_at(a, hour_f(), x);
  let c = next_at(b, day_f(), x);
  let d = next_at(c, month_f(), x);
  let e = next_at(d, dow_f(), x);
  if e is Some {
    Some((CronExpr::CronExpr { mins: box_of((a->0).0), hours: box_of((b->0).0), days: box_of((c->0).0), months: box_of((d->0).0), day_of_weeks: box_of((e->0).0) }, (e->0).1))
  } else { None }
}

// ASSUMED: Box::from, vectors and boxes are their contents, derived Clone, comparison of char
pub uninterp spec fn vec_of<A>(s: Seq<A>) -> Vec<A>;
pub open spec fn box_of(x: CronExpr) -> Box<CronExpr> { Box::new(x) }
#[verifier::external_body]
pub fn vx_box_from(x: CronExpr) -> (r: Box<CronExpr>) ensures r == box_of(x) { Box::from(x) }
impl Clone for CronExpr {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

pub open spec fn comma<'a>(q: Parser<'a, char, char>) -> bool {
  forall|s: ParseState<'a, char>, r: ParseResult<'a, char, char>| #[trigger] q.post(s, r) ==> if is_at(s.input@, s.offset as int, ',') { r is Success && r->length == 1 } else { unc(r) }
}
/// ASSUMED: str::chars, collected, is the text's characters; to_string answers some text
#[verifier::external_body]
pub struct VxChars { x: Vec<char> }
impl VxChars {
  pub uninterp spec fn seq(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn collect<T: VxFromChars>(self) -> (r: T) ensures r.chars() == self.seq() { unimplemented!() }
}
pub trait VxFromChars: Sized { spec fn chars(&self) -> Seq<char>; }
impl VxFromChars for Vec<char> { open spec fn chars(&self) -> Seq<char> { self@ } }
pub trait VxStr { spec fn text(&self) -> Seq<char>; fn vx_chars(&self) -> (r: VxChars) ensures r.seq() == self.text(), r.seq().len() <= isize::MAX; }
impl VxStr for str {
  open spec fn text(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn vx_chars(&self) -> VxChars { unimplemented!() }
}
pub trait VxToString { fn vx_to_string(&self) -> (r: String); }
impl<'a, I> VxToString for ParseError<'a, I> {
  #[verifier::external_body]
  fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
pub mod vx_gram {
use super::*;
pub broadcast axiom fn axiom_vec<A>(v: Vec<A>)
  ensures #[trigger] vec_of(v@) == v;
pub broadcast axiom fn axiom_char_eq(a: char, b: char)
  ensures #[trigger] eqv(a, b) == (a == b);
pub broadcast axiom fn axiom_char_le(a: char, b: char)
  ensures #[trigger] lev(a, b) == (a <= b);
pub axiom fn lemma_chars()
  ensures char::obeys_eq_spec(), ordered::<char>();
pub proof fn lemma_01()
  ensures forall|c: char| #[trigger] "01"@.contains(c) == (c == '0' || c == '1')
{
  reveal_strlit("01");
  assert forall|c: char| #[trigger] "01"@.contains(c) == (c == '0' || c == '1') by {
    assert("01"@[0] == '0'); assert("01"@[1] == '1');
  }
}
pub proof fn lemma_12()
  ensures forall|c: char| #[trigger] "12"@.contains(c) == (c == '1' || c == '2')
{
  reveal_strlit("12");
  assert forall|c: char| #[trigger] "12"@.contains(c) == (c == '1' || c == '2') by {
    assert("12"@[0] == '1'); assert("12"@[1] == '2');
  }
}
pub proof fn lemma_012()
  ensures forall|c: char| #[trigger] "012"@.contains(c) == (c == '0' || c == '1' || c == '2')
{
  reveal_strlit("012");
  assert forall|c: char| #[trigger] "012"@.contains(c) == (c == '0' || c == '1' || c == '2') by {
    assert("012"@[0] == '0'); assert("012"@[1] == '1'); assert("012"@[2] == '2');
  }
}
/// the items of a repetition, and where it stops, are what `list_at` says
pub proof fn lemma_items<'a>(p: Parser<'a, char, CronExpr>, q: Parser<'a, char, char>, g: Gram, s: ParseState<'a, char>, items: Seq<CronExpr>, n: int)
  requires parses(p, g), comma(q), items_at(p, Some(q), s, items, n), items.len() >= 1, s.wf()
  ensures g(s.input@, s.offset as int) is Some, (g(s.input@, s.offset as int)->0).0 == items[0], 0 <= n, s.offset + n <= s.input@.len(),
    ({ let e = (g(s.input@, s.offset as int)->0).1; let m = more_at(g, s.input@, s.offset + n); more_at(g, s.input@, e) == (items.skip(1) + m.0, m.1) })
  decreases items.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  let x = s.input@;
  if items.len() == 1 {
    assert(takes(p, s, items[0], n));
    assert(items.skip(1) =~= Seq::<CronExpr>::empty());
    let m = more_at(g, x, s.offset + n);
    assert(Seq::<CronExpr>::empty() + m.0 =~= m.0);
  } else {
    let m = choose|m: int| #[trigger] mark(m) && items_at(p, Some(q), s, items.drop_last(), m) && exists|rq: ParseResult<'a, char, char>| #[trigger] q.post(adv(s, m), rq) && rq is Success
        && takes(p, adv(adv(s, m), rq->length as int), items.last(), n - m - rq->length);
    lemma_items(p, q, g, s, items.drop_last(), m);
    let rq = choose|rq: ParseResult<'a, char, char>| #[trigger] q.post(adv(s, m), rq) && rq is Success
        && takes(p, adv(adv(s, m), rq->length as int), items.last(), n - m - rq->length);
    assert(is_at(x, s.offset + m, ','));
    assert(g(x, s.offset + m + 1) == Some((items.last(), s.offset + n)));
    let k = more_at(g, x, s.offset + n);
    assert(more_at(g, x, s.offset + m) == (seq![items.last()] + k.0, k.1));
    assert(items.drop_last().skip(1) + (seq![items.last()] + k.0) =~= items.skip(1) + k.0);
  }
}
pub broadcast proof fn lemma_list<'a>(p: Parser<'a, char, CronExpr>, q: Parser<'a, char, char>, g: Gram, s: ParseState<'a, char>, items: Seq<CronExpr>, total: int)
  requires #[trigger] parses(p, g), comma(q), #[trigger] rep_end(p, None, Some(q), s, items, total), s.wf()
  ensures match g(s.input@, s.offset as int) {
    None => items.len() == 0,
    Some(t) => items.len() >= 1 && items == seq![t.0] + more_at(g, s.input@, t.1).0 && s.offset + total == more_at(g, s.input@, t.1).1,
  }
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(rep_end);
  let x = s.input@;
  let n = choose|n: int| #[trigger] items_at(p, Some(q), s, items, n) && stops_at(p, Some(q), None, adv(s, n), items.len() as int, n, total);
  if items.len() >= 1 {
    lemma_items(p, q, g, s, items, n);
    let m = more_at(g, x, s.offset + n);
    assert(m.0 =~= Seq::<CronExpr>::empty() && m.1 == s.offset + total);
    assert(items =~= seq![items[0]] + (items.skip(1) + m.0));
  }
}
}
