// ---- what a HOCON text means: at index i of the bytes x, the value and the index behind it (ordered choice, no going back)
pub type Rd<A> = spec_fn(Seq<u8>, int) -> Option<(A, int)>;
/// where a piece of the grammar ends
pub type Piece = spec_fn(Seq<u8>, int) -> Option<int>;
/// it is there: the value and the length; it is not: a failure, which rules nothing out
pub open spec fn gives<'a, A>(o: Option<(A, int)>, s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>) -> bool {
  match o { Some(t) => ok(r, t.0, t.1 - s.offset) && s.offset < t.1, None => unc(r) }
}
/// the same, when a failure may be a committed one
pub open spec fn reads_as<'a, A>(o: Option<(A, int)>, s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>) -> bool {
  match o { Some(t) => ok(r, t.0, t.1 - s.offset) && s.offset < t.1, None => r is Failure }
}
/// only the length matters
pub open spec fn ends<'a, A>(o: Option<int>, s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>) -> bool {
  match o { Some(e) => r is Success && r->length == e - s.offset && s.offset < e, None => unc(r) }
}
pub open spec fn stops<'a, A>(o: Option<int>, s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>) -> bool {
  match o { Some(e) => r is Success && r->length == e - s.offset && s.offset <= e, None => r is Failure }
}
pub open spec fn reads<'a, A>(p: Parser<'a, u8, A>, g: Rd<A>) -> bool {
  forall|s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>| #[trigger] p.post(s, r) ==> reads_as(g(s.input@, s.offset as int), s, r)
}
pub open spec fn eats<'a, A>(p: Parser<'a, u8, A>, g: Piece) -> bool {
  forall|s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>| #[trigger] p.post(s, r) ==> stops(g(s.input@, s.offset as int), s, r)
}
/// .. and something is taken
pub open spec fn bites<'a, A>(p: Parser<'a, u8, A>, g: Piece) -> bool {
  forall|s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>| #[trigger] p.post(s, r) ==> match g(s.input@, s.offset as int) { Some(e) => r is Success && r->length == e - s.offset && s.offset < e, None => r is Failure }
}
pub open spec fn hint<A>(g: Rd<A>) -> bool { true }
pub open spec fn hint1(g: Piece) -> bool { true }
pub open spec fn hint2<A>(g: Rd<A>, h: Piece) -> bool { true }
/// the same parser, of which only `post` is known (a step for the solver: the body is the identity, and it is verified)
pub fn vx_only<'a, A>(p: Parser<'a, u8, A>, Ghost(post): Ghost<spec_fn(ParseState<'a, u8>, ParseResult<'a, u8, A>) -> bool>) -> (q: Parser<'a, u8, A>)
  requires forall|s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>| #[trigger] p.post(s, r) ==> post(s, r)
  ensures forall|s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>| #[trigger] q.post(s, r) ==> post(s, r)
{ p }
impl<'a, A> Parser<'a, u8, A> {
  /// .. behind a call
  pub fn vx_then(self, Ghost(post): Ghost<spec_fn(ParseState<'a, u8>, ParseResult<'a, u8, A>) -> bool>) -> (q: Parser<'a, u8, A>)
    requires forall|s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>| #[trigger] self.post(s, r) ==> post(s, r)
    ensures forall|s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>| #[trigger] q.post(s, r) ==> post(s, r)
  { self }
}
pub open spec fn is_at(x: Seq<u8>, i: int, c: u8) -> bool { 0 <= i < x.len() && x[i] == c }
pub open spec fn bytes(t: Seq<char>) -> Seq<u8> { Seq::new(t.len(), |i: int| t[i] as u8) }
/// the word t
pub open spec fn kw(x: Seq<u8>, i: int, t: Seq<char>) -> bool { 0 <= i && i + t.len() <= x.len() && x.subrange(i, i + t.len()) == bytes(t) }
pub open spec fn first_of<A>(a: Option<(A, int)>, b: Option<(A, int)>) -> Option<(A, int)> { if a is Some { a } else { b } }

// ---- repetition
/// as many of the piece as there are
pub open spec fn run(g: Piece, x: Seq<u8>, i: int) -> int
  decreases (if i < x.len() { x.len() - i } else { 0 })
{
  match g(x, i) { Some(e) => if i < e <= x.len() { run(g, x, e) } else { i }, None => i }
}
pub open spec fn many_at<A>(g: Rd<A>, x: Seq<u8>, i: int) -> (Seq<A>, int)
  decreases (if i < x.len() { x.len() - i } else { 0 })
{
  match g(x, i) { Some(t) => if i < t.1 <= x.len() { let m = many_at(g, x, t.1); (seq![t.0] + m.0, m.1) } else { (Seq::empty(), i) }, None => (Seq::empty(), i) }
}
/// the items that follow, each after a separator; a separator that no item follows is taken all the same
pub open spec fn more_at<A>(g: Rd<A>, h: Piece, x: Seq<u8>, i: int) -> (Seq<A>, int)
  decreases (if i < x.len() { x.len() - i } else { 0 })
{
  match h(x, i) {
    None => (Seq::empty(), i),
    Some(j) => match g(x, j) {
      None => (Seq::empty(), j),
      Some(t) => if i < t.1 <= x.len() { let m = more_at(g, h, x, t.1); (seq![t.0] + m.0, m.1) } else { (Seq::empty(), i) },
    },
  }
}
/// items with separators between them
pub open spec fn commas_at<A>(g: Rd<A>, h: Piece, x: Seq<u8>, i: int) -> (Seq<A>, int) {
  match g(x, i) { None => (Seq::empty(), i), Some(t) => { let m = more_at(g, h, x, t.1); (seq![t.0] + m.0, m.1) } }
}

// ---- between the tokens
pub open spec fn blank(c: u8) -> bool { c == 32 || c == 9 || c == 13 || c == 10 }
pub open spec fn blank_f() -> Piece { |x: Seq<u8>, i: int| if 0 <= i < x.len() && blank(x[i]) { Some(i + 1) } else { None } }
/// behind the blanks
pub open spec fn ws(x: Seq<u8>, i: int) -> int { run(blank_f(), x, i) }
/// behind the end of the line
pub open spec fn eol(x: Seq<u8>, i: int) -> int
  decreases (if i < x.len() { x.len() - i } else { 0 })
{
  if 0 <= i < x.len() { if x[i] == 13 || x[i] == 10 { i + 1 } else { eol(x, i + 1) } } else { i }
}
/// // or # to the end of the line
pub open spec fn remark_at(x: Seq<u8>, i: int) -> Option<int> {
  if kw(x, i, "//"@) { Some(eol(x, i + "//"@.len())) } else if is_at(x, i, 35) { Some(eol(x, i + 1)) } else { None }
}
pub open spec fn remark_f() -> Piece { |x: Seq<u8>, i: int| remark_at(x, i) }
/// blanks and then comments
#[verifier::opaque]
pub open spec fn comment_at(x: Seq<u8>, i: int) -> Option<int> {
  let j = ws(x, i);
  if remark_at(x, j) is Some { Some(run(remark_f(), x, j)) } else { None }
}
pub open spec fn comment_f() -> Piece { |x: Seq<u8>, i: int| comment_at(x, i) }
/// behind all blanks and comments
#[verifier::opaque]
pub open spec fn sc(x: Seq<u8>, i: int) -> int { ws(x, run(comment_f(), x, i)) }
/// the character, with blanks and comments around it
pub open spec fn tok(x: Seq<u8>, i: int, c: u8) -> Option<int> { if is_at(x, sc(x, i), c) { Some(sc(x, sc(x, i) + 1)) } else { None } }
pub open spec fn word_tok(x: Seq<u8>, i: int, t: Seq<char>) -> Option<int> { if kw(x, sc(x, i), t) { Some(sc(x, sc(x, i) + t.len())) } else { None } }
pub open spec fn comma_f() -> Piece { |x: Seq<u8>, i: int| tok(x, i, 44) }
/// a comma or nothing
pub open spec fn opt_comma_f() -> Piece { |x: Seq<u8>, i: int| match tok(x, i, 44) { Some(e) => Some(e), None => Some(i) } }
pub open spec fn dot_f() -> Piece { |x: Seq<u8>, i: int| if is_at(x, i, 46) { Some(i + 1) } else { None } }

// ---- numbers and durations
pub open spec fn digit(c: u8) -> bool { 48 <= c && c <= 57 }
pub open spec fn digit_f() -> Piece { |x: Seq<u8>, i: int| if 0 <= i < x.len() && digit(x[i]) { Some(i + 1) } else { None } }
/// behind the digits
pub open spec fn digits(x: Seq<u8>, i: int) -> int { run(digit_f(), x, i) }
/// 0, or digits of which the first is not 0
#[verifier::opaque]
pub open spec fn int_end(x: Seq<u8>, i: int) -> Option<int> {
  if 0 <= i < x.len() && 49 <= x[i] && x[i] <= 57 { Some(digits(x, i + 1)) } else if is_at(x, i, 48) { Some(i + 1) } else { None }
}
pub open spec fn digits1(x: Seq<u8>, i: int) -> Option<int> { if 0 <= i < x.len() && digit(x[i]) { Some(digits(x, i)) } else { None } }
#[verifier::opaque]
pub open spec fn frac_end(x: Seq<u8>, i: int) -> Option<int> { if is_at(x, i, 46) { digits1(x, i + 1) } else { None } }
#[verifier::opaque]
pub open spec fn exp_end(x: Seq<u8>, i: int) -> Option<int> {
  if is_at(x, i, 101) || is_at(x, i, 69) { digits1(x, if is_at(x, i + 1, 43) || is_at(x, i + 1, 45) { i + 2 } else { i + 1 }) } else { None }
}
/// the text up to there, as it is written
pub open spec fn written<'a>(o: Option<int>, s: ParseState<'a, u8>, r: ParseResult<'a, u8, String>) -> bool {
  match o { Some(e) => ok(r, str_of(asc(s.input@.subrange(s.offset as int, e))), e - s.offset) && s.offset < e, None => r is Failure }
}
pub open spec fn or_here(o: Option<int>, i: int) -> int { match o { Some(e) => e, None => i } }
pub open spec fn part(x: Seq<u8>, i: int, o: Option<int>) -> Option<String> { match o { Some(e) => Some(str_of(asc(x.subrange(i, e)))), None => None } }
pub open spec fn minus_end(x: Seq<u8>, i: int) -> int { if is_at(x, i, 45) { i + 1 } else { i } }
/// .. or nothing
pub open spec fn opt_written<'a>(x: Seq<u8>, i: int, o: Option<int>, s: ParseState<'a, u8>, r: ParseResult<'a, u8, Option<String>>) -> bool {
  ok(r, part(x, i, o), or_here(o, i) - i) && i <= or_here(o, i)
}
/// minus?, whole part, fraction, exponent, as they are written
pub struct NumParts { pub minus: bool, pub whole: String, pub frac: Option<String>, pub exp: Option<String> }
#[verifier::opaque]
pub open spec fn num_parts(x: Seq<u8>, j: int) -> Option<(NumParts, int)> {
  let k = minus_end(x, j);
  match int_end(x, k) {
    None => None,
    Some(a) => {
      let b = or_here(frac_end(x, a), a);
      Some((NumParts { minus: is_at(x, j, 45), whole: str_of(asc(x.subrange(k, a))), frac: part(x, a, frac_end(x, a)), exp: part(x, b, exp_end(x, b)) }, or_here(exp_end(x, b), b)))
    },
  }
}
pub open spec fn number_gives<'a>(s: ParseState<'a, u8>, r: ParseResult<'a, u8, (Option<&'a u8>, String, Option<String>, Option<String>)>) -> bool {
  match num_parts(s.input@, sc(s.input@, s.offset as int)) {
    None => unc(r),
    Some(t) => r is Success && r->length == t.1 - s.offset && s.offset < t.1 && (r->value.0 is Some == t.0.minus) && r->value.1 == t.0.whole && r->value.2 == t.0.frac && r->value.3 == t.0.exp,
  }
}
pub open spec fn digits_give<'a>(s: ParseState<'a, u8>, r: ParseResult<'a, u8, (((Option<&'a u8>, String), Option<String>), Option<String>)>) -> bool {
  match num_parts(s.input@, s.offset as int) {
    None => unc(r),
    Some(t) => r is Success && r->length == t.1 - s.offset && s.offset < t.1 && (r->value.0.0.0 is Some == t.0.minus) && r->value.0.0.1 == t.0.whole && r->value.0.1 == t.0.frac && r->value.1 == t.0.exp,
  }
}
/// the decimal number of the text as it is written
#[verifier::opaque]
pub open spec fn number_at(x: Seq<u8>, i: int) -> Option<(ConfigNumberValue, int)> {
  let j = sc(x, i);
  match int_end(x, minus_end(x, j)) {
    None => None,
    Some(a) => {
      let b = or_here(frac_end(x, a), a);
      match exp_end(x, b) {
        None => match decimal_of(asc(x.subrange(j, b))) { Some(d) => Some((ConfigNumberValue(d), b)), None => None },
        Some(c) => match scientific_of(asc(x.subrange(j, c))) { Some(d) => Some((ConfigNumberValue(d), c)), None => None },
      }
    },
  }
}
pub open spec fn unit_kw(x: Seq<u8>, i: int, t: Seq<char>, other: Option<int>) -> Option<int> { if kw(x, i, t) { Some(i + t.len()) } else { other } }
pub open spec fn unit_end(x: Seq<u8>, i: int, u: TimeUnit) -> Option<int> {
  match u {
    TimeUnit::Nanoseconds => unit_kw(x, i, "ns"@, unit_kw(x, i, "nanoseconds"@, unit_kw(x, i, "nanosecond"@, unit_kw(x, i, "nanos"@, unit_kw(x, i, "nano"@, None))))),
    TimeUnit::Microseconds => unit_kw(x, i, "us"@, unit_kw(x, i, "microseconds"@, unit_kw(x, i, "microsecond"@, unit_kw(x, i, "micros"@, unit_kw(x, i, "micro"@, None))))),
    TimeUnit::Milliseconds => unit_kw(x, i, "ms"@, unit_kw(x, i, "milliseconds"@, unit_kw(x, i, "millisecond"@, unit_kw(x, i, "millis"@, unit_kw(x, i, "milli"@, None))))),
    TimeUnit::Seconds => unit_kw(x, i, "seconds"@, unit_kw(x, i, "second"@, unit_kw(x, i, "s"@, None))),
    TimeUnit::Minutes => unit_kw(x, i, "minutes"@, unit_kw(x, i, "minute"@, unit_kw(x, i, "m"@, None))),
    TimeUnit::Hours => unit_kw(x, i, "hours"@, unit_kw(x, i, "hour"@, unit_kw(x, i, "h"@, None))),
    TimeUnit::Days => unit_kw(x, i, "days"@, unit_kw(x, i, "day"@, unit_kw(x, i, "d"@, None))),
  }
}
#[verifier::opaque]
pub open spec fn unit_of(x: Seq<u8>, i: int, u: TimeUnit) -> Option<(TimeUnit, int)> { match unit_end(x, i, u) { Some(e) => Some((u, e)), None => None } }
pub open spec fn unit_at(x: Seq<u8>, i: int) -> Option<(TimeUnit, int)> {
  first_of(unit_of(x, i, TimeUnit::Nanoseconds), first_of(unit_of(x, i, TimeUnit::Microseconds), first_of(unit_of(x, i, TimeUnit::Milliseconds),
    first_of(unit_of(x, i, TimeUnit::Seconds), first_of(unit_of(x, i, TimeUnit::Minutes), first_of(unit_of(x, i, TimeUnit::Hours), unit_of(x, i, TimeUnit::Days)))))))
}
pub open spec fn gap_f() -> Piece { |x: Seq<u8>, i: int| if is_at(x, i, 32) || is_at(x, i, 9) { Some(i + 1) } else { None } }
/// a number and a unit, on one line
#[verifier::opaque]
pub open spec fn duration_at(x: Seq<u8>, i: int) -> Option<((ConfigNumberValue, TimeUnit), int)> {
  match number_at(x, i) { None => None, Some(n) => match unit_at(x, run(gap_f(), x, n.1)) { None => None, Some(u) => Some(((n.0, u.0), u.1)) } }
}

// ---- texts
pub type Class = spec_fn(u8) -> bool;
/// p takes one byte of the class
pub open spec fn is_class<'a>(p: Parser<'a, u8, &'a u8>, f: Class) -> bool {
  forall|s: ParseState<'a, u8>, r: ParseResult<'a, u8, &'a u8>| #[trigger] p.post(s, r) ==> one(s, r, f(rest(s)[0]))
}
pub open spec fn class_hint(f: Class) -> bool { true }
/// { } [ ] , # CR LF \ " '
pub open spec fn mark_c(c: u8) -> bool { c == 123 || c == 125 || c == 91 || c == 93 || c == 44 || c == 35 || c == 13 || c == 10 || c == 92 || c == 34 || c == 39 }
pub open spec fn plain_c() -> Class { |c: u8| !mark_c(c) }
/// .. and = :
pub open spec fn key_c() -> Class { |c: u8| !mark_c(c) && c != 61 && c != 58 }
/// between quotes q: anything but the quote, \ and the end of the line
pub open spec fn quoted_c(q: u8) -> Class { |c: u8| c != 13 && c != 10 && c != 92 && c != q }
pub open spec fn escape_of(c: u8) -> Option<u8> {
  if c == 92 || c == 47 || c == 34 { Some(c) } else if c == 98 { Some(8) } else if c == 102 { Some(12) }
  else if c == 110 { Some(10) } else if c == 114 { Some(13) } else if c == 116 { Some(9) } else { None }
}
pub open spec fn char_at(f: Class, x: Seq<u8>, i: int) -> Option<(u8, int)> {
  if !(0 <= i < x.len()) { None }
  else if f(x[i]) { Some((x[i], i + 1)) }
  else if x[i] == 92 && i + 1 < x.len() { match escape_of(x[i + 1]) { Some(c) => Some((c, i + 2)), None => None } } else { None }
}
pub open spec fn char_f(f: Class) -> Rd<u8> { |x: Seq<u8>, i: int| char_at(f, x, i) }
/// characters and escapes, as long as they are UTF-8 together
pub open spec fn chars_at(f: Class, x: Seq<u8>, i: int) -> Option<(String, int)> {
  let m = many_at(char_f(f), x, i);
  if m.0.len() > 0 { match utf8_of(m.0) { Some(t) => Some((str_of(t), m.1)), None => None } } else { None }
}
pub open spec fn chars_f(f: Class) -> Rd<String> { |x: Seq<u8>, i: int| chars_at(f, x, i) }
/// what an escape stands for
pub open spec fn escape_gives<'a>(s: ParseState<'a, u8>, r: ParseResult<'a, u8, &'a u8>) -> bool {
  let x = s.input@; let i = s.offset as int;
  if !is_at(x, i, 92) { unc(r) } else if i + 1 < x.len() { match escape_of(x[i + 1]) { Some(c) => r is Success && *r->value == c && r->length == 2, None => r is Failure } } else { r is Failure }
}
pub open spec fn hexdig(c: u8) -> bool { digit(c) || (65 <= c && c <= 70) || (97 <= c && c <= 102) }
pub open spec fn hex_val(c: u8) -> int { if c <= 57 { c - 48 } else if c <= 70 { c - 55 } else { c - 87 } }
pub open spec fn hex(t: Seq<u8>) -> int decreases t.len() { if t.len() == 0 { 0 } else { hex(t.drop_last()) * 16 + hex_val(t.last()) } }
pub open spec fn hex_text(t: Seq<u8>) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> hexdig(#[trigger] t[i]) }
pub open spec fn hex_at(x: Seq<u8>, i: int) -> Option<(u8, int)> { if 0 <= i < x.len() && hexdig(x[i]) { Some((x[i], i + 1)) } else { None } }
pub open spec fn hex_f() -> Rd<u8> { |x: Seq<u8>, i: int| hex_at(x, i) }
/// \u and four hexadecimal digits
pub open spec fn code_at(x: Seq<u8>, i: int) -> Option<(u16, int)> {
  let j = i + "\\u"@.len();
  if kw(x, i, "\\u"@) && j + 4 <= x.len() && hex_text(x.subrange(j, j + 4)) { Some((hex(x.subrange(j, j + 4)) as u16, j + 4)) } else { None }
}
pub open spec fn code_f() -> Rd<u16> { |x: Seq<u8>, i: int| code_at(x, i) }
/// \u escapes, read together
pub open spec fn codes_at(x: Seq<u8>, i: int) -> Option<(String, int)> {
  let u = many_at(code_f(), x, i);
  if u.0.len() > 0 { Some((str_of(utf16_text(u.0)), u.1)) } else { None }
}
pub open spec fn piece_at(f: Class, x: Seq<u8>, i: int) -> Option<(String, int)> { first_of(chars_at(f, x, i), codes_at(x, i)) }
pub open spec fn piece_f(f: Class) -> Rd<String> { |x: Seq<u8>, i: int| piece_at(f, x, i) }
pub open spec fn concat_of(s: Seq<String>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { concat_of(s.drop_last()) + s.last()@ } }
pub open spec fn quoted_at(q: u8, x: Seq<u8>, i: int) -> Option<(Vec<String>, int)> {
  let j = sc(x, i);
  if !is_at(x, j, q) { None } else {
    let m = many_at(piece_f(quoted_c(q)), x, j + 1);
    if is_at(x, m.1, q) { Some((vec_of(m.0), sc(x, m.1 + 1))) } else { None }
  }
}
pub open spec fn quoted_f(q: u8) -> Rd<Vec<String>> { |x: Seq<u8>, i: int| quoted_at(q, x, i) }
pub open spec fn bare_at(f: Class, x: Seq<u8>, i: int) -> Option<(Vec<String>, int)> {
  let m = many_at(piece_f(f), x, i);
  if m.0.len() > 0 { Some((vec_of(m.0), m.1)) } else { None }
}
#[verifier::opaque]
pub open spec fn text_at(f: Class, x: Seq<u8>, i: int) -> Option<(String, int)> {
  match first_of(quoted_at(34, x, i), first_of(quoted_at(39, x, i), bare_at(f, x, i))) { Some(t) => Some((str_of(concat_of(t.0@)), t.1)), None => None }
}

// ---- paths, substitutions, keys
pub open spec fn path_c(c: u8) -> bool { (65 <= c && c <= 90) || (97 <= c && c <= 122) || c == 45 || c == 95 }
pub open spec fn path_c_f() -> Piece { |x: Seq<u8>, i: int| if 0 <= i < x.len() && path_c(x[i]) { Some(i + 1) } else { None } }
pub open spec fn element_end(x: Seq<u8>, i: int) -> Option<int> { if 0 <= i < x.len() && path_c(x[i]) { Some(run(path_c_f(), x, i)) } else { None } }
pub open spec fn element_f() -> Rd<()> { |x: Seq<u8>, i: int| match element_end(x, i) { Some(e) => Some(((), e)), None => None } }
pub open spec fn element_p() -> Piece { |x: Seq<u8>, i: int| element_end(x, i) }
/// words with dots between them; the text as it is written
#[verifier::opaque]
pub open spec fn path_at(x: Seq<u8>, i: int) -> Option<(String, int)> {
  let m = commas_at(element_f(), dot_f(), x, i);
  if m.0.len() > 0 { Some((str_of(asc(x.subrange(i, m.1))), m.1)) } else { None }
}
#[verifier::opaque]
pub open spec fn reference_at(x: Seq<u8>, i: int) -> Option<((bool, String), int)> {
  match word_tok(x, i, "${"@) { None => None, Some(j) => {
    let q = is_at(x, j, 63);
    match path_at(x, if q { j + 1 } else { j }) { None => None, Some(p) =>
      match word_tok(x, p.1, "}"@) { None => None, Some(e) => Some(((q, p.0), e)) } }
  } }
}
#[verifier::opaque]
pub open spec fn key_at(x: Seq<u8>, i: int) -> Option<(String, int)> {
  let j = sc(x, i);
  match first_of(path_at(x, j), text_at(key_c(), x, j)) { Some(t) => Some((t.0, sc(x, t.1))), None => None }
}

// ---- values
pub type At = Option<(ConfigValue, int)>;
// the two names the grammar is recursive through; every use is behind at least one character of the text
pub uninterp spec fn value_at(x: Seq<u8>, i: int) -> At;
pub uninterp spec fn property_at(x: Seq<u8>, i: int) -> Option<((String, ConfigValue), int)>;
pub open spec fn value_f() -> Rd<ConfigValue> { |x: Seq<u8>, i: int| value_at(x, i) }
pub open spec fn property_f() -> Rd<(String, ConfigValue)> { |x: Seq<u8>, i: int| property_at(x, i) }
pub open spec fn link_of(r: ConfigValue) -> ConfigValueLink { *r->Link_0 }
/// v with x put on top (`pushed`, as a value)
pub open spec fn push_of(v: ConfigValue, x: ConfigValue) -> ConfigValue {
  ConfigValue::Link(Rc::new(ConfigValueLink { prev: Rc::new(v), value: match x {
    ConfigValue::Reference { prev, path, missing } => ConfigValue::Reference { prev: Some(Rc::new(v)), path, missing },
    x => x,
  } }))
}
pub open spec fn entry_put(m: Map<Seq<char>, ConfigValue>, k: Seq<char>, v: ConfigValue) -> Map<Seq<char>, ConfigValue> {
  if m.dom().contains(k) { m.insert(k, push_of(m[k], v)) } else { m.insert(k, v) }
}
/// the map of the entries: of a key given repeatedly the last value is on top
pub open spec fn entries(items: Seq<(String, ConfigValue)>) -> Map<Seq<char>, ConfigValue> decreases items.len() {
  if items.len() == 0 { Map::empty() } else { entry_put(entries(items.drop_last()), items.last().0@, items.last().1) }
}
#[verifier::opaque]
pub open spec fn object_at(x: Seq<u8>, i: int) -> Option<(HashMap<String, ConfigValue>, int)> {
  match tok(x, i, 123) { None => None, Some(j) => {
    let a = commas_at(property_f(), opt_comma_f(), x, j);
    match tok(x, a.1, 125) { None => None, Some(e) => Some((map_of(entries(a.0)), e)) }
  } }
}
#[verifier::opaque]
pub open spec fn array_at(x: Seq<u8>, i: int) -> Option<(Vec<ConfigValue>, int)> {
  match tok(x, i, 91) { None => None, Some(j) => {
    let a = commas_at(value_f(), comma_f(), x, j);
    match tok(x, a.1, 93) { None => None, Some(e) => Some((vec_of(a.0), e)) }
  } }
}
pub open spec fn object_v(x: Seq<u8>, i: int) -> At { match object_at(x, i) { Some(t) => Some((ConfigValue::Object(ConfigObjectValue(t.0)), t.1)), None => None } }
pub open spec fn array_v(x: Seq<u8>, i: int) -> At { match array_at(x, i) { Some(t) => Some((ConfigValue::Array(ConfigArrayValue(t.0)), t.1)), None => None } }
pub open spec fn text_v(x: Seq<u8>, i: int) -> At { match text_at(plain_c(), x, i) { Some(t) => Some((ConfigValue::String(t.0), t.1)), None => None } }
pub open spec fn reference_v(x: Seq<u8>, i: int) -> At { match reference_at(x, i) { Some(t) => Some((ConfigValue::Reference { prev: None, path: t.0.1, missing: t.0.0 }, t.1)), None => None } }
pub open spec fn number_v(x: Seq<u8>, i: int) -> At { match number_at(x, i) { Some(t) => Some((ConfigValue::Number(t.0), t.1)), None => None } }
pub open spec fn duration_v(x: Seq<u8>, i: int) -> At { match duration_at(x, i) { Some(t) => Some((ConfigValue::Duration(ConfigDurationValue { value: t.0.0, unit: t.0.1 }), t.1)), None => None } }
pub open spec fn word_v(x: Seq<u8>, i: int, t: Seq<char>, v: ConfigValue) -> At { if kw(x, i, t) { Some((v, i + t.len())) } else { None } }
/// behind blanks and comments before and after it
pub open spec fn around(x: Seq<u8>, o: At) -> At { match o { Some(t) => Some((t.0, sc(x, t.1))), None => None } }
/// null, true, false, a duration, a number, a text
#[verifier::opaque]
pub open spec fn simple_at(x: Seq<u8>, i: int) -> At {
  let j = sc(x, i);
  around(x, first_of(word_v(x, j, "null"@, ConfigValue::Null), first_of(word_v(x, j, "true"@, ConfigValue::Bool(true)), first_of(word_v(x, j, "false"@, ConfigValue::Bool(false)),
    first_of(duration_v(x, j), first_of(number_v(x, j), text_v(x, j)))))))
}
pub open spec fn part_f() -> Rd<ConfigValue> { |x: Seq<u8>, i: int| first_of(text_v(x, i), reference_v(x, i)) }
/// texts and substitutions, one after the other
#[verifier::opaque]
pub open spec fn parts_at(x: Seq<u8>, i: int) -> At {
  let m = many_at(part_f(), x, i);
  if m.0.len() > 0 { Some((ConfigValue::Enumeration { prev: None, values: ConfigArrayValue(vec_of(m.0)) }, m.1)) } else { None }
}
#[verifier::opaque]
pub open spec fn value_is(x: Seq<u8>, i: int) -> At {
  let j = sc(x, i);
  around(x, first_of(array_v(x, j), first_of(object_v(x, j), first_of(reference_v(x, j), first_of(simple_at(x, j), parts_at(x, j))))))
}
/// = or : and a value
pub open spec fn assigned_at(x: Seq<u8>, i: int) -> At { if is_at(x, i, 61) || is_at(x, i, 58) { value_at(x, i + 1) } else { None } }
#[verifier::opaque]
pub open spec fn property_is(x: Seq<u8>, i: int) -> Option<((String, ConfigValue), int)> {
  match key_at(x, i) { None => None, Some(k) => match first_of(assigned_at(x, k.1), first_of(object_v(x, k.1), array_v(x, k.1))) { None => None, Some(v) => Some(((k.0, v.0), v.1)) } }
}
// ---- documents
/// file or url
pub open spec fn method_at(x: Seq<u8>, i: int) -> Option<(String, int)> {
  if kw(x, i, "file"@) { Some((str_of("file"@), i + "file"@.len())) } else if kw(x, i, "url"@) { Some((str_of("url"@), i + "url"@.len())) } else { None }
}
#[verifier::opaque]
pub open spec fn include_at(x: Seq<u8>, i: int) -> At {
  if !kw(x, i, "include"@) { None } else { let j = i + "include"@.len(); if !is_at(x, j, 32) { None } else {
    match method_at(x, j + 1) { None => None, Some(w) => if !kw(x, w.1, "(\""@) { None } else { match path_at(x, w.1 + "(\""@.len()) { None => None, Some(p) =>
      if !kw(x, p.1, "\")"@) { None } else { Some((ConfigValue::Include(ConfigIncludeValue { method: w.0, file_name: str_of("\""@ + p.0@ + "\""@) }), p.1 + "\")"@.len())) } } } }
  } }
}
pub open spec fn include_f() -> Rd<ConfigValue> { |x: Seq<u8>, i: int| include_at(x, i) }
pub open spec fn block_f() -> Rd<ConfigValue> { |x: Seq<u8>, i: int| first_of(object_v(x, i), array_v(x, i)) }
/// m with the entry merged in
pub open spec fn entry_merged(m: Map<Seq<char>, ConfigValue>, k: Seq<char>, v: ConfigValue, r: Map<Seq<char>, ConfigValue>) -> bool {
  if m.dom().contains(k) { r.dom().contains(k) && is_merged(m[k], v, r[k]) && r == m.insert(k, r[k]) } else { r == m.insert(k, v) }
}
/// the entries of a document in order, merged key by key
pub open spec fn document(items: Seq<(String, ConfigValue)>, r: Map<Seq<char>, ConfigValue>) -> bool decreases items.len() {
  if items.len() == 0 { r == Map::<Seq<char>, ConfigValue>::empty() } else { exists|m: Map<Seq<char>, ConfigValue>| document(items.drop_last(), m) && #[trigger] entry_merged(m, items.last().0@, items.last().1, r) }
}
pub open spec fn config_end(x: Seq<u8>, i: int) -> int {
  let a = many_at(property_f(), x, i); let b = many_at(include_f(), x, i);
  if a.0.len() > 0 { a.1 } else if b.0.len() > 0 { b.1 } else { many_at(block_f(), x, i).1 }
}
pub open spec fn config_is(x: Seq<u8>, i: int, v: Vec<ConfigValue>) -> bool {
  let a = many_at(property_f(), x, i); let b = many_at(include_f(), x, i);
  if a.0.len() > 0 { v@.len() == 1 && v@[0] is Object && document(a.0, v@[0]->Object_0.0.m()) } else if b.0.len() > 0 { v@ == b.0 } else { v@ == many_at(block_f(), x, i).0 }
}

// ---- ASSUMED: std and rust_decimal, as far as they are used
pub uninterp spec fn vec_of<A>(s: Seq<A>) -> Vec<A>;
pub uninterp spec fn str_of(s: Seq<char>) -> String;
pub uninterp spec fn map_of(m: Map<Seq<char>, ConfigValue>) -> HashMap<String, ConfigValue>;
/// the text of the bytes, if they are UTF-8
pub uninterp spec fn utf8_of(b: Seq<u8>) -> Option<Seq<char>>;
/// the decimal number the text denotes, if there is one
pub uninterp spec fn decimal_of(t: Seq<char>) -> Option<Decimal>;
pub uninterp spec fn scientific_of(t: Seq<char>) -> Option<Decimal>;
#[verifier::opaque]
pub open spec fn ascii(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 128 }
pub open spec fn asc(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| b[i] as char) }
#[verifier::external_body]
pub struct VxUtf8Error { x: u8 }
#[verifier::external_body]
pub struct VxParseError { x: u8 }
pub type VxStrRes<'a> = std::result::Result<&'a str, VxUtf8Error>;
pub type VxStringRes = std::result::Result<String, VxUtf8Error>;
pub type VxNumRes = std::result::Result<ConfigNumberValue, VxParseError>;
pub type VxNumParts<'a> = (Option<&'a u8>, String, Option<String>, Option<String>);
pub open spec fn str_read<'a>(b: Seq<u8>, r: VxStrRes<'a>) -> bool { match utf8_of(b) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err } }
pub open spec fn string_read(b: Seq<u8>, r: VxStringRes) -> bool { match utf8_of(b) { Some(t) => r == Ok::<String, VxUtf8Error>(str_of(t)), None => r is Err } }
/// the number of the parts put together
pub open spec fn parts_text(v: VxNumParts<'_>) -> Seq<char> { (if v.0 is Some { "-"@ } else { Seq::<char>::empty() }) + v.1@ + match v.2 { Some(f) => f@, None => Seq::<char>::empty() } }
pub open spec fn number_of(v: VxNumParts<'_>) -> Option<Decimal> { match v.3 { None => decimal_of(parts_text(v)), Some(e) => scientific_of(parts_text(v) + e@) } }
#[verifier::external_body]
pub fn vx_from_utf8(v: Vec<u8>) -> (r: std::result::Result<String, VxUtf8Error>)
  ensures string_read(v@, r)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_str_from_utf8<'a>(v: &'a [u8]) -> (r: std::result::Result<&'a str, VxUtf8Error>)
  ensures str_read(v@, r)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_string_from(t: &str) -> (r: String) ensures r == str_of(t@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_b(t: &'static str) -> (r: &'static [u8]) ensures r@ == bytes(t@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_u16_radix(t: &str, radix: u32) -> (r: std::result::Result<u16, VxParseError>)
  ensures forall|b: Seq<u8>| radix == 16 && t@ == #[trigger] asc(b) && hex_text(b) && hex(b) <= 65535 ==> r == Ok::<u16, VxParseError>(hex(b) as u16)
{ unimplemented!() }
impl Decimal {
  #[verifier::external_body]
  pub fn from_str_radix(t: &str, radix: u32) -> (r: std::result::Result<Decimal, VxParseError>)
    ensures radix == 10 ==> match decimal_of(t@) { Some(d) => r == Ok::<Decimal, VxParseError>(d), None => r is Err }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn from_scientific(t: &str) -> (r: std::result::Result<Decimal, VxParseError>)
    ensures match scientific_of(t@) { Some(d) => r == Ok::<Decimal, VxParseError>(d), None => r is Err }
  { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_no_text() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<'a, T: VxShow + ?Sized> VxShow for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
pub trait VxBuild {
  spec fn sofar(&self) -> Seq<char>;
  fn vx_put<T: VxShow + ?Sized>(&mut self, x: &T) ensures final(self).sofar() == old(self).sofar() + x.shown();
  fn vx_push_str(&mut self, x: &str) ensures final(self).sofar() == old(self).sofar() + x@;
}
impl VxBuild for String {
  open spec fn sofar(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn vx_put<T: VxShow + ?Sized>(&mut self, x: &T) { unimplemented!() }
  #[verifier::external_body]
  fn vx_push_str(&mut self, x: &str) { unimplemented!() }
}
pub trait VxToString { spec fn text_of(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.text_of(); }
impl VxToString for str { open spec fn text_of(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
pub trait VxOption<T>: Sized {
  spec fn opt(self) -> Option<T>;
  fn vx_map_or<B, F: FnOnce(T) -> B>(self, d: B, f: F) -> (r: B)
    requires self.opt() is Some ==> f.requires((self.opt()->0,))
    ensures match self.opt() { Some(t) => f.ensures((t,), r), None => r == d };
}
impl<T> VxOption<T> for Option<T> {
  open spec fn opt(self) -> Option<T> { self }
  fn vx_map_or<B, F: FnOnce(T) -> B>(self, d: B, f: F) -> B { match self { Some(t) => f(t), None => d } }
}
pub trait VxOrDefault: Sized { spec fn opt_text(self) -> Option<String>; fn vx_unwrap_or_default(self) -> (r: String) ensures match self.opt_text() { Some(t) => r == t, None => r@ == Seq::<char>::empty() }; }
impl VxOrDefault for Option<String> {
  open spec fn opt_text(self) -> Option<String> { self }
  #[verifier::external_body]
  fn vx_unwrap_or_default(self) -> String { unimplemented!() }
}
pub trait VxConcat { fn vx_concat(&self) -> (r: String) ensures r == str_of(concat_of(self.all())); spec fn all(&self) -> Seq<String>; }
impl VxConcat for Vec<String> {
  open spec fn all(&self) -> Seq<String> { self@ }
  #[verifier::external_body]
  fn vx_concat(&self) -> String { unimplemented!() }
}
/// r is b with the items of s folded in, in order
pub open spec fn folded<T, B, F: FnMut(B, T) -> B>(f: F, b: B, s: Seq<T>, r: B) -> bool decreases s.len() {
  if s.len() == 0 { r == b } else { exists|y: B| folded(f, b, s.drop_last(), y) && #[trigger] f.ensures((y, s.last()), r) }
}
impl<T> VxIter<T> {
  #[verifier::external_body]
  pub fn fold<B, F: FnMut(B, T) -> B>(self, b: B, f: F) -> (r: B)
    requires forall|y: B, t: T| #[trigger] f.requires((y, t))
    ensures folded(f, b, self.view(), r)
  { unimplemented!() }
}
// UTF-16: a unit outside the surrogates is its character, a high surrogate with a low one behind it is one character, any other is an error
pub struct VxUtf16Error { pub x: u8 }
pub open spec fn code(c: char) -> int { c as u32 as int }
pub open spec fn char_of(n: int) -> char { choose|c: char| #[trigger] code(c) == n }
pub open spec fn utf16(u: Seq<u16>) -> Seq<std::result::Result<char, VxUtf16Error>> decreases u.len() {
  if u.len() == 0 { Seq::empty() }
  else if u[0] < 0xD800 || 0xDFFF < u[0] { seq![Ok::<char, VxUtf16Error>(char_of(u[0] as int))] + utf16(u.skip(1)) }
  else if u[0] < 0xDC00 && u.len() > 1 && 0xDC00 <= u[1] && u[1] <= 0xDFFF { seq![Ok::<char, VxUtf16Error>(char_of(0x10000 + (u[0] - 0xD800) * 0x400 + (u[1] - 0xDC00)))] + utf16(u.skip(2)) }
  else { seq![Err::<char, VxUtf16Error>(VxUtf16Error { x: 0 })] + utf16(u.skip(1)) }
}
/// .. and an error is read as U+FFFD
pub open spec fn utf16_text(u: Seq<u16>) -> Seq<char> { Seq::new(utf16(u).len(), |i: int| match utf16(u)[i] { Ok(c) => c, Err(_) => '\u{FFFD}' }) }
pub assume_specification<T, E>[ std::result::Result::<T, E>::unwrap_or ](r: std::result::Result<T, E>, d: T) -> (v: T)
  ensures v == match r { Ok(t) => t, Err(_) => d };
pub const REPLACEMENT_CHARACTER: char = '\u{FFFD}';
#[verifier::external_body]
pub struct VxUtf16 { x: u8 }
#[verifier::external_body]
pub struct VxChars { x: u8 }
impl VxUtf16 {
  pub uninterp spec fn seq(&self) -> Seq<std::result::Result<char, VxUtf16Error>>;
  #[verifier::external_body]
  pub fn map<F: Fn(std::result::Result<char, VxUtf16Error>) -> char>(self, f: F) -> (r: VxChars)
    requires forall|x: std::result::Result<char, VxUtf16Error>| #[trigger] f.requires((x,))
    ensures r.seq().len() == self.seq().len(), forall|i: int| 0 <= i < self.seq().len() ==> f.ensures((self.seq()[i],), #[trigger] r.seq()[i])
  { unimplemented!() }
}
impl VxChars {
  pub uninterp spec fn seq(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn collect<T: VxFromChars>(self) -> (r: T) ensures r.is_text(self.seq()) { unimplemented!() }
}
pub trait VxFromChars: Sized { spec fn is_text(&self, s: Seq<char>) -> bool; }
impl VxFromChars for String { open spec fn is_text(&self, s: Seq<char>) -> bool { *self == str_of(s) } }
#[verifier::external_body]
pub fn decode_utf16(u: Vec<u16>) -> (r: VxUtf16) ensures r.seq() == utf16(u@) { unimplemented!() }

/// ASSUMED: a function value is the function
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct VxFn0<R> { f: Rc<dyn Fn() -> R> }
#[verifier::external]
impl<R> FnOnce<()> for VxFn0<R> { type Output = R; extern "rust-call" fn call_once(self, a: ()) -> R { (self.f)() } }
#[verifier::external]
impl<R> FnMut<()> for VxFn0<R> { extern "rust-call" fn call_mut(&mut self, a: ()) -> R { (self.f)() } }
#[verifier::external]
impl<R> Fn<()> for VxFn0<R> { extern "rust-call" fn call(&self, a: ()) -> R { (self.f)() } }
impl<R> Clone for VxFn0<R> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_fn0<R, F: Fn() -> R>(f: F) -> (r: VxFn0<R>)
  ensures f.requires(()) ==> r.requires(()), forall|c: R| #[trigger] r.ensures((), c) ==> f.ensures((), c)
{ unimplemented!() }

// ASSUMED: the crate's impl of Set for arrays of bytes (written by a macro; one call of slice contains)
impl<const N: usize> Set<u8> for [u8; N] {
  open spec fn has(&self, x: u8) -> bool { exists|i: int| 0 <= i < N && #[trigger] self@[i] == x }
  open spec fn lawful(&self) -> bool { true }
  #[verifier::external_body]
  fn contains(&self, elem: &u8) -> bool { unimplemented!() }
}
impl Clone for ConfigNumberValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for TimeUnit { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<K, V> Clone for HashMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub mod vx_hocongram {
use super::*;
pub broadcast axiom fn axiom_byte_eq(a: u8, b: u8)
  ensures #[trigger] eqv(a, b) == (a == b);
pub broadcast axiom fn axiom_byte_le(a: u8, b: u8)
  ensures #[trigger] lev(a, b) == (a <= b);
pub axiom fn lemma_bytes()
  ensures <u8 as PartialEqSpec<u8>>::obeys_eq_spec(), ordered::<u8>();
pub broadcast axiom fn axiom_vec<A>(v: Vec<A>)
  ensures #[trigger] vec_of(v@) == v;
pub broadcast axiom fn axiom_str(v: String)
  ensures #[trigger] str_of(v@) == v;
/// ASSUMED for this grammar: a hash map is its finite map (nothing here looks at the order of a traversal)
pub broadcast axiom fn axiom_map(h: HashMap<String, ConfigValue>)
  ensures #[trigger] map_of(h.m()) == h;
pub broadcast axiom fn axiom_view(t: Seq<char>)
  ensures (#[trigger] str_of(t))@ == t;
pub broadcast axiom fn axiom_ascii(b: Seq<u8>)
  ensures ascii(b) ==> #[trigger] utf8_of(b) == Some(asc(b));
/// putting a value on top is `push_of`
pub broadcast proof fn lemma_push(v: ConfigValue, x: ConfigValue, r: ConfigValue)
  requires #[trigger] pushed(v, x, r)
  ensures r == push_of(v, x)
{
  if x is Reference { axiom_str(link_of(r).value->path); axiom_str(x->path); }
}
/// folding the entries of an object
pub broadcast proof fn lemma_fold_object<F: FnMut(HashMap<String, ConfigValue>, (String, ConfigValue)) -> HashMap<String, ConfigValue>>(f: F, b: HashMap<String, ConfigValue>, s: Seq<(String, ConfigValue)>, r: HashMap<String, ConfigValue>)
  requires #[trigger] folded(f, b, s, r), b.m() == Map::<Seq<char>, ConfigValue>::empty(),
    forall|m: HashMap<String, ConfigValue>, e: (String, ConfigValue), n: HashMap<String, ConfigValue>| #[trigger] f.ensures((m, e), n) ==> n.m() == entry_put(m.m(), e.0@, e.1)
  ensures r.m() == entries(s)
  decreases s.len()
{
  if s.len() > 0 {
    let y = choose|y: HashMap<String, ConfigValue>| folded(f, b, s.drop_last(), y) && #[trigger] f.ensures((y, s.last()), r);
    lemma_fold_object(f, b, s.drop_last(), y);
  }
}
/// .. and those of a document
pub broadcast proof fn lemma_fold_document<F: FnMut(HashMap<String, ConfigValue>, (String, ConfigValue)) -> HashMap<String, ConfigValue>>(f: F, b: HashMap<String, ConfigValue>, s: Seq<(String, ConfigValue)>, r: HashMap<String, ConfigValue>)
  requires #[trigger] folded(f, b, s, r), b.m() == Map::<Seq<char>, ConfigValue>::empty(),
    forall|m: HashMap<String, ConfigValue>, e: (String, ConfigValue), n: HashMap<String, ConfigValue>| #[trigger] f.ensures((m, e), n) ==> entry_merged(m.m(), e.0@, e.1, n.m())
  ensures document(s, r.m())
  decreases s.len()
{
  if s.len() > 0 {
    let y = choose|y: HashMap<String, ConfigValue>| folded(f, b, s.drop_last(), y) && #[trigger] f.ensures((y, s.last()), r);
    lemma_fold_document(f, b, s.drop_last(), y);
    assert(entry_merged(y.m(), s.last().0@, s.last().1, r.m()));
  }
}
/// the words of the values are not empty
pub proof fn lemma_consts()
  ensures "null"@.len() > 0, "true"@.len() > 0, "false"@.len() > 0
{ reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false"); }
/// .. nor those of an include
pub proof fn lemma_include()
  ensures "include"@.len() > 0, "(\""@.len() > 0, "\")"@.len() > 0
{ reveal_strlit("include"); reveal_strlit("(\""); reveal_strlit("\")"); }
// the two equations of the recursion
pub broadcast axiom fn axiom_value(x: Seq<u8>, i: int)
  ensures #[trigger] value_at(x, i) == value_is(x, i);
pub broadcast axiom fn axiom_property(x: Seq<u8>, i: int)
  ensures #[trigger] property_at(x, i) == property_is(x, i);

pub broadcast proof fn lemma_class(f: Class)
  ensures #[trigger] class_hint(f), hint(char_f(f)), hint(piece_f(f))
{ }
proof fn lemma_run_all(g: Piece, m: Class, x: Seq<u8>, i: int)
  requires 0 <= i <= x.len(), forall|k: int| #[trigger] g(x, k) is Some ==> 0 <= k < x.len() && m(x[k]) && g(x, k) == Some(k + 1)
  ensures forall|k: int| i <= k < run(g, x, i) ==> m(#[trigger] x[k])
  decreases x.len() - i
{ if g(x, i) is Some { lemma_run_all(g, m, x, i + 1); } }
pub broadcast proof fn lemma_digits(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures i <= #[trigger] digits(x, i) <= x.len(), forall|k: int| i <= k < digits(x, i) ==> digit(#[trigger] x[k]), i < x.len() && digit(x[i]) ==> i < digits(x, i)
{ broadcast use lemma_run_end; lemma_run_all(digit_f(), |c: u8| digit(c), x, i); if i < x.len() && digit(x[i]) { lemma_run_end(digit_f(), x, i + 1); } }
pub broadcast proof fn lemma_int(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures match #[trigger] int_end(x, i) { Some(e) => i < e <= x.len() && ascii(x.subrange(i, e)), None => true }
{ reveal(ascii); reveal(int_end); broadcast use lemma_digits;
  match int_end(x, i) { Some(e) => { assert forall|k: int| 0 <= k < e - i implies #[trigger] x.subrange(i, e)[k] < 128 by { assert(x.subrange(i, e)[k] == x[i + k]); if k > 0 { assert(digit(x[i + k])); } } }, None => { } } }
pub broadcast proof fn lemma_frac(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures match #[trigger] frac_end(x, i) { Some(e) => i < e <= x.len() && ascii(x.subrange(i, e)), None => true }
{ reveal(ascii); reveal(frac_end); broadcast use lemma_digits;
  match frac_end(x, i) { Some(e) => { assert forall|k: int| 0 <= k < e - i implies #[trigger] x.subrange(i, e)[k] < 128 by { assert(x.subrange(i, e)[k] == x[i + k]); if k > 0 { assert(digit(x[i + k])); } } }, None => { } } }
pub broadcast proof fn lemma_exp(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures match #[trigger] exp_end(x, i) { Some(e) => i < e <= x.len() && ascii(x.subrange(i, e)), None => true }
{ reveal(ascii); reveal(exp_end); broadcast use lemma_digits;
  match exp_end(x, i) { Some(e) => { assert forall|k: int| 0 <= k < e - i implies #[trigger] x.subrange(i, e)[k] < 128 by { assert(x.subrange(i, e)[k] == x[i + k]); if k > 1 { assert(digit(x[i + k])); } } }, None => { } } }
/// the parts, put together, are the text as it is written
pub broadcast proof fn lemma_parts<'a>(s: ParseState<'a, u8>, r: ParseResult<'a, u8, VxNumParts<'a>>)
  requires s.wf(), #[trigger] number_gives(s, r)
  ensures match number_at(s.input@, s.offset as int) { Some(t) => r is Success && number_of(r->value) == Some((t.0).0) && r->length == t.1 - s.offset && s.offset < t.1, None => unc(r) || (r is Success && number_of(r->value) is None) }
{
  broadcast use {lemma_int, lemma_frac, lemma_exp, lemma_sc, axiom_view};
  reveal(num_parts); reveal(number_at);
  let x = s.input@; let j = sc(x, s.offset as int); let k = minus_end(x, j);
  match int_end(x, k) { None => { }, Some(a) => {
    let b = or_here(frac_end(x, a), a); let c = or_here(exp_end(x, b), b);
    reveal_strlit("-");
    assert("-"@ =~= seq!['-']);
    assert(45u8 as char == '-');
    assert(parts_text(r->value) =~= asc(x.subrange(j, b)));
    assert(asc(x.subrange(j, b)) + asc(x.subrange(b, c)) =~= asc(x.subrange(j, c)));
  } }
}
pub broadcast proof fn lemma_kw(x: Seq<u8>, i: int, t: Seq<char>)
  ensures #[trigger] kw(x, i, t) && t.len() > 0 ==> is_at(x, i, t[0] as u8), kw(x, i, t) ==> i + t.len() <= x.len()
{ if kw(x, i, t) && t.len() > 0 { assert(x.subrange(i, i + t.len())[0] == bytes(t)[0]); } }
/// the methods are ASCII words
pub proof fn lemma_methods()
  ensures "file"@.len() > 0, "url"@.len() > 0, "file"@[0] == 'f', "url"@[0] == 'u', ascii(bytes("file"@)), ascii(bytes("url"@)), asc(bytes("file"@)) == "file"@, asc(bytes("url"@)) == "url"@
{
  reveal(ascii); reveal_strlit("file"); reveal_strlit("url");
  assert(asc(bytes("file"@)) =~= "file"@); assert(asc(bytes("url"@)) =~= "url"@);
}
/// the words of the units are not empty
pub proof fn lemma_units()
  ensures "ns"@.len() > 0, "nanoseconds"@.len() > 0, "nanosecond"@.len() > 0, "nanos"@.len() > 0, "nano"@.len() > 0, "us"@.len() > 0, "microseconds"@.len() > 0, "microsecond"@.len() > 0, "micros"@.len() > 0, "micro"@.len() > 0,
    "ms"@.len() > 0, "milliseconds"@.len() > 0, "millisecond"@.len() > 0, "millis"@.len() > 0, "milli"@.len() > 0, "seconds"@.len() > 0, "second"@.len() > 0, "s"@.len() > 0, "minutes"@.len() > 0, "minute"@.len() > 0, "m"@.len() > 0,
    "hours"@.len() > 0, "hour"@.len() > 0, "h"@.len() > 0, "days"@.len() > 0, "day"@.len() > 0, "d"@.len() > 0
{
  reveal_strlit("ns"); reveal_strlit("nanoseconds"); reveal_strlit("nanosecond"); reveal_strlit("nanos"); reveal_strlit("nano"); reveal_strlit("us"); reveal_strlit("microseconds"); reveal_strlit("microsecond"); reveal_strlit("micros"); reveal_strlit("micro");
  reveal_strlit("ms"); reveal_strlit("milliseconds"); reveal_strlit("millisecond"); reveal_strlit("millis"); reveal_strlit("milli"); reveal_strlit("seconds"); reveal_strlit("second"); reveal_strlit("s"); reveal_strlit("minutes"); reveal_strlit("minute"); reveal_strlit("m");
  reveal_strlit("hours"); reveal_strlit("hour"); reveal_strlit("h"); reveal_strlit("days"); reveal_strlit("day"); reveal_strlit("d");
}
/// a path is ASCII
proof fn lemma_more_path(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures i <= more_at(element_f(), dot_f(), x, i).1 <= x.len(), forall|k: int| i <= k < more_at(element_f(), dot_f(), x, i).1 ==> path_c(#[trigger] x[k]) || x[k] == 46
  decreases x.len() - i
{
  if dot_f()(x, i) is Some { let j = i + 1;
    lemma_element(x, j);
    match element_f()(x, j) { Some(t) => { lemma_more_path(x, t.1); }, None => { } }
  }
}
pub broadcast proof fn lemma_element(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures match #[trigger] element_end(x, i) { Some(e) => i < e <= x.len() && forall|k: int| i <= k < e ==> path_c(#[trigger] x[k]), None => true }
{ lemma_run_end(path_c_f(), x, i); lemma_run_all(path_c_f(), |c: u8| path_c(c), x, i); if i < x.len() && path_c(x[i]) { lemma_run_end(path_c_f(), x, i + 1); } }
pub broadcast proof fn lemma_path(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures ({ let m = #[trigger] commas_at(element_f(), dot_f(), x, i); i <= m.1 <= x.len() && (m.0.len() > 0 ==> i < m.1) && ascii(x.subrange(i, m.1)) })
{
  reveal(ascii);
  lemma_element(x, i);
  match element_f()(x, i) { Some(t) => { lemma_more_path(x, t.1); }, None => { } }
  let e = commas_at(element_f(), dot_f(), x, i).1;
  assert forall|k: int| 0 <= k < e - i implies #[trigger] x.subrange(i, e)[k] < 128 by { assert(x.subrange(i, e)[k] == x[i + k]); }
}
/// membership in a short array, written out
pub broadcast proof fn lemma_has<const N: usize>(a: [u8; N], x: u8)
  ensures #[trigger] a.has(x) == ((0 < N && a@[0] == x) || (1 < N && a@[1] == x) || (2 < N && a@[2] == x) || (3 < N && a@[3] == x) || (4 < N && a@[4] == x)
    || (5 < N && a@[5] == x) || (6 < N && a@[6] == x) || (7 < N && a@[7] == x) || (8 < N && a@[8] == x) || (9 < N && a@[9] == x) || (10 < N && a@[10] == x)
    || (11 < N && a@[11] == x) || (12 < N && a@[12] == x) || exists|i: int| 13 <= i < N && #[trigger] a@[i] == x)
{
  if a.has(x) { let i = choose|i: int| 0 <= i < N && #[trigger] a@[i] == x; }
}
pub broadcast proof fn lemma_rest<'a>(s: ParseState<'a, u8>, n: int)
  requires s.wf(), 0 <= n <= rem(s)
  ensures #[trigger] rest(s).take(n) == s.input@.subrange(s.offset as int, s.offset + n)
{ assert(rest(s).take(n) =~= s.input@.subrange(s.offset as int, s.offset + n)); }
/// a literal is there, or the parser fails
pub broadcast proof fn lemma_seq<'a, B>(t: Seq<char>, s: ParseState<'a, u8>, r: ParseResult<'a, u8, B>)
  requires s.wf()
  ensures #[trigger] seq_post(bytes(t), s, r) ==> (if kw(s.input@, s.offset as int, t) { r is Success && r->length == t.len() } else { r is Failure && (!unc(r) ==> t.len() > 0 && is_at(s.input@, s.offset as int, t[0] as u8)) })
{
  broadcast use axiom_byte_eq;
  reveal(seq_post);
  let x = s.input@; let o = s.offset as int; let a = bytes(t);
  if kw(x, o, t) {
    assert forall|j: int| 0 <= j < a.len() implies eqv(#[trigger] a[j], rest(s)[j]) by { assert(x.subrange(o, o + a.len())[j] == a[j]); }
  } else if a.len() <= rem(s) && forall|j: int| 0 <= j < a.len() ==> eqv(#[trigger] a[j], rest(s)[j]) {
    assert forall|j: int| 0 <= j < a.len() implies x.subrange(o, o + a.len())[j] == a[j] by { assert(eqv(a[j], rest(s)[j])); }
    assert(x.subrange(o, o + a.len()) =~= a);
  }
}
pub broadcast proof fn lemma_eol(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures i <= #[trigger] eol(x, i) <= x.len(), i < x.len() ==> i < eol(x, i)
  decreases x.len() - i
{ if i < x.len() && !(x[i] == 13 || x[i] == 10) { lemma_eol(x, i + 1); } }
/// up to the end of the line, and past it
pub broadcast proof fn lemma_till<'a, F: Fn(&u8) -> bool>(f: F, s: ParseState<'a, u8>, r: ParseResult<'a, u8, &'a [u8]>)
  requires s.wf(), forall|c: &u8, b: bool| #[trigger] f.ensures((c,), b) ==> b == (*c == 13 || *c == 10), #[trigger] till_post(f, true, s, r)
  ensures r is Success && r->length == eol(s.input@, s.offset as int) - s.offset
{
  let x = s.input@; let o = s.offset as int;
  if all_are(f, rest(s), 0, rem(s), false) && r is Success && r->length == rem(s) {
    assert forall|j: int| o <= j < x.len() implies !(#[trigger] x[j] == 13 || x[j] == 10) by { assert(rest(s)[j - o] == x[j]); }
    lemma_eol_is(x, o, x.len() as int);
  } else {
    let k = choose|k: int| 0 <= k < rem(s) && all_are(f, rest(s), 0, k, false) && f.ensures((&#[trigger] rest(s)[k],), true)
      && r is Success && r->length == k + 1 && r->value@ == rest(s).take(k + 1);
    assert(rest(s)[k] == x[o + k]);
    assert forall|j: int| o <= j < o + k implies !(#[trigger] x[j] == 13 || x[j] == 10) by { assert(rest(s)[j - o] == x[j]); }
    lemma_eol_is(x, o, o + k);
  }
}
pub proof fn lemma_eol_is(x: Seq<u8>, i: int, k: int)
  requires 0 <= i <= k <= x.len(), forall|j: int| i <= j < k ==> !(#[trigger] x[j] == 13 || x[j] == 10), k == x.len() || x[k] == 13 || x[k] == 10
  ensures eol(x, i) == if k == x.len() { k } else { k + 1 }
  decreases k - i
{ if i < k { lemma_eol_is(x, i + 1, k); } }
pub broadcast proof fn lemma_run_end(g: Piece, x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures i <= #[trigger] run(g, x, i) <= x.len()
  decreases x.len() - i
{ match g(x, i) { Some(e) => { if i < e <= x.len() { lemma_run_end(g, x, e); } }, None => { } } }
pub broadcast proof fn lemma_sc(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures i <= #[trigger] sc(x, i) <= x.len()
{ broadcast use lemma_run_end; reveal(sc); }
proof fn lemma_run_items<'a, A>(p: Parser<'a, u8, A>, sep: Option<Parser<'a, u8, ()>>, g: Piece, s: ParseState<'a, u8>, items: Seq<A>, n: int)
  requires bites(p, g), sep is None, items_at(p, sep, s, items, n), s.wf()
  ensures 0 <= n, s.offset + n <= s.input@.len(), run(g, s.input@, s.offset as int) == run(g, s.input@, s.offset + n), items.len() > 0 ==> 0 < n && g(s.input@, s.offset as int) is Some
  decreases items.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  let x = s.input@;
  if items.len() == 1 { assert(takes(p, s, items[0], n)); }
  else if items.len() > 1 {
    let m = choose|m: int| #[trigger] mark(m) && items_at(p, sep, s, items.drop_last(), m) && takes(p, adv(s, m), items.last(), n - m);
    lemma_run_items(p, sep, g, s, items.drop_last(), m);
    assert(adv(s, m).offset == s.offset + m);
    assert(g(x, s.offset + m) == Some(s.offset + n));
  }
}
/// a repetition takes as many of the piece as there are
pub broadcast proof fn lemma_run<'a, A>(p: Parser<'a, u8, A>, sep: Option<Parser<'a, u8, ()>>, g: Piece, s: ParseState<'a, u8>, items: Seq<A>, total: int)
  requires #[trigger] hint1(g), bites(p, g), sep is None, #[trigger] rep_end(p, None, sep, s, items, total), s.wf()
  ensures s.offset + total == run(g, s.input@, s.offset as int), 0 <= total, s.offset + total <= s.input@.len(), items.len() > 0 <==> g(s.input@, s.offset as int) is Some, items.len() > 0 ==> 0 < total
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(rep_end);
  let n = choose|n: int| #[trigger] items_at(p, sep, s, items, n) && stops_at(p, sep, None, adv(s, n), items.len() as int, n, total);
  lemma_run_items(p, sep, g, s, items, n);
}
proof fn lemma_many_items<'a, A>(p: Parser<'a, u8, A>, sep: Option<Parser<'a, u8, ()>>, g: Rd<A>, s: ParseState<'a, u8>, items: Seq<A>, n: int)
  requires reads(p, g), sep is None, items_at(p, sep, s, items, n), s.wf()
  ensures 0 <= n, s.offset + n <= s.input@.len(), ({ let m = many_at(g, s.input@, s.offset + n); many_at(g, s.input@, s.offset as int) == (items + m.0, m.1) })
  decreases items.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  let x = s.input@;
  if items.len() == 0 { let m = many_at(g, x, s.offset as int); assert(items + m.0 =~= m.0); }
  else if items.len() == 1 { assert(takes(p, s, items[0], n)); assert(items =~= seq![items[0]]); }
  else {
    let m = choose|m: int| #[trigger] mark(m) && items_at(p, sep, s, items.drop_last(), m) && takes(p, adv(s, m), items.last(), n - m);
    lemma_many_items(p, sep, g, s, items.drop_last(), m);
    assert(adv(s, m).offset == s.offset + m);
    assert(g(x, s.offset + m) == Some((items.last(), s.offset + n)));
    let k = many_at(g, x, s.offset + n);
    assert(items.drop_last() + (seq![items.last()] + k.0) =~= items + k.0);
  }
}
proof fn lemma_many_len<A>(g: Rd<A>, x: Seq<u8>, i: int)
  ensures many_at(g, x, i).1 >= i, many_at(g, x, i).0.len() > 0 ==> many_at(g, x, i).1 > i
  decreases (if i < x.len() { x.len() - i } else { 0 })
{ match g(x, i) { Some(t) => { if i < t.1 <= x.len() { lemma_many_len(g, x, t.1); } }, None => { } } }
/// a repetition reads as many items as there are, in order
pub broadcast proof fn lemma_many<'a, A>(p: Parser<'a, u8, A>, sep: Option<Parser<'a, u8, ()>>, g: Rd<A>, s: ParseState<'a, u8>, items: Seq<A>, total: int)
  requires #[trigger] hint(g), reads(p, g), sep is None, #[trigger] rep_end(p, None, sep, s, items, total), s.wf()
  ensures many_at(g, s.input@, s.offset as int) == (items, s.offset + total), 0 <= total, items.len() > 0 ==> 0 < total, s.offset + total <= s.input@.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(rep_end);
  let n = choose|n: int| #[trigger] items_at(p, sep, s, items, n) && stops_at(p, sep, None, adv(s, n), items.len() as int, n, total);
  lemma_many_items(p, sep, g, s, items, n);
  let m = many_at(g, s.input@, s.offset + n);
  assert(items + m.0 =~= items);
  lemma_many_len(g, s.input@, s.offset as int);
}
proof fn lemma_hex_items<'a>(p: Parser<'a, u8, u8>, sep: Option<Parser<'a, u8, ()>>, s: ParseState<'a, u8>, items: Seq<u8>, n: int)
  requires reads(p, hex_f()), sep is None, items_at(p, sep, s, items, n), s.wf()
  ensures n == items.len(), s.offset + n <= s.input@.len(), items =~= s.input@.subrange(s.offset as int, s.offset + n), forall|j: int| 0 <= j < n ==> hexdig(#[trigger] s.input@[s.offset + j])
  decreases items.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  let x = s.input@;
  if items.len() == 1 { assert(takes(p, s, items[0], n)); assert(hex_f()(x, s.offset as int) is Some); }
  else if items.len() > 1 {
    let m = choose|m: int| #[trigger] mark(m) && items_at(p, sep, s, items.drop_last(), m) && takes(p, adv(s, m), items.last(), n - m);
    lemma_hex_items(p, sep, s, items.drop_last(), m);
    assert(adv(s, m).offset == s.offset + m);
    assert(hex_f()(x, s.offset + m) is Some);
    assert forall|j: int| 0 <= j < n implies items[j] == x.subrange(s.offset as int, s.offset + n)[j] by {
      if j < m { assert(items.drop_last()[j] == x.subrange(s.offset as int, s.offset + m)[j]); }
    }
    assert forall|j: int| 0 <= j < n implies hexdig(#[trigger] x[s.offset + j]) by { if j == m { } }
  }
}
/// four hexadecimal digits, or fewer when there are not four
pub broadcast proof fn lemma_hex<'a>(p: Parser<'a, u8, u8>, sep: Option<Parser<'a, u8, ()>>, s: ParseState<'a, u8>, items: Seq<u8>, total: int)
  requires #[trigger] hint(hex_f()), reads(p, hex_f()), sep is None, #[trigger] rep_end(p, Some(4int), sep, s, items, total), s.wf()
  ensures items.len() < 4 ==> !(s.offset + 4 <= s.input@.len() && hex_text(s.input@.subrange(s.offset as int, s.offset + 4))),
    items.len() >= 4 ==> total == 4 && s.offset + 4 <= s.input@.len() && items == s.input@.subrange(s.offset as int, s.offset + 4) && hex_text(items) && 0 <= hex(items) <= 65535 && ascii(items)
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(rep_end);
  let x = s.input@; let o = s.offset as int;
  let n = choose|n: int| #[trigger] items_at(p, sep, s, items, n) && stops_at(p, sep, Some(4int), adv(s, n), items.len() as int, n, total);
  lemma_hex_items(p, sep, s, items, n);
  if items.len() < 4 {
    assert(adv(s, n).offset == o + n);
    if o + 4 <= x.len() && hex_text(x.subrange(o, o + 4)) { assert(x.subrange(o, o + 4)[n] == x[o + n]); }
  } else {
    reveal(ascii);
    assert(items =~= x.subrange(o, o + 4));
    assert forall|j: int| 0 <= j < 4 implies hexdig(#[trigger] items[j]) by { assert(hexdig(x[o + j])); }
    reveal_with_fuel(hex, 5);
    let a = items.drop_last(); let b = a.drop_last(); let c = b.drop_last();
    assert(items.last() == items[3] && a.last() == items[2] && b.last() == items[1] && c.last() == items[0]);
    assert(c.drop_last().len() == 0);
  }
}
pub broadcast proof fn lemma_utf16(u: Seq<u16>, t: Seq<char>)
  requires t.len() == utf16(u).len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == match utf16(u)[i] { Ok(c) => c, Err(_) => '\u{FFFD}' }
  ensures #[trigger] str_of(t) == str_of(#[trigger] utf16_text(u))
{ assert(t =~= utf16_text(u)); }
proof fn lemma_commas_items<'a, A, B>(p: Parser<'a, u8, A>, q: Parser<'a, u8, B>, g: Rd<A>, h: Piece, s: ParseState<'a, u8>, items: Seq<A>, n: int)
  requires reads(p, g), eats(q, h), items_at(p, Some(q), s, items, n), items.len() >= 1, s.wf()
  ensures g(s.input@, s.offset as int) is Some, (g(s.input@, s.offset as int)->0).0 == items[0], 0 <= n, s.offset + n <= s.input@.len(),
    ({ let e = (g(s.input@, s.offset as int)->0).1; let m = more_at(g, h, s.input@, s.offset + n); more_at(g, h, s.input@, e) == (items.skip(1) + m.0, m.1) })
  decreases items.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  let x = s.input@;
  if items.len() == 1 {
    assert(takes(p, s, items[0], n));
    assert(items.skip(1) =~= Seq::<A>::empty());
    let m = more_at(g, h, x, s.offset + n);
    assert(Seq::<A>::empty() + m.0 =~= m.0);
  } else {
    let m = choose|m: int| #[trigger] mark(m) && items_at(p, Some(q), s, items.drop_last(), m) && exists|rq: ParseResult<'a, u8, B>| #[trigger] q.post(adv(s, m), rq) && rq is Success
        && takes(p, adv(adv(s, m), rq->length as int), items.last(), n - m - rq->length);
    lemma_commas_items(p, q, g, h, s, items.drop_last(), m);
    let rq = choose|rq: ParseResult<'a, u8, B>| #[trigger] q.post(adv(s, m), rq) && rq is Success
        && takes(p, adv(adv(s, m), rq->length as int), items.last(), n - m - rq->length);
    let j = s.offset + m + rq->length;
    assert(h(x, s.offset + m) == Some(j));
    assert(g(x, j) == Some((items.last(), s.offset + n)));
    let k = more_at(g, h, x, s.offset + n);
    assert(more_at(g, h, x, s.offset + m) == (seq![items.last()] + k.0, k.1));
    assert(items.drop_last().skip(1) + (seq![items.last()] + k.0) =~= items.skip(1) + k.0);
  }
}
/// a repetition with commas reads what `commas_at` says
pub broadcast proof fn lemma_commas<'a, A, B>(p: Parser<'a, u8, A>, q: Parser<'a, u8, B>, g: Rd<A>, h: Piece, s: ParseState<'a, u8>, items: Seq<A>, total: int)
  requires #[trigger] hint2(g, h), reads(p, g), eats(q, h), #[trigger] rep_end(p, None, Some(q), s, items, total), s.wf()
  ensures commas_at(g, h, s.input@, s.offset as int) == (items, s.offset + total), 0 <= total, s.offset + total <= s.input@.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(rep_end);
  let x = s.input@;
  let n = choose|n: int| #[trigger] items_at(p, Some(q), s, items, n) && stops_at(p, Some(q), None, adv(s, n), items.len() as int, n, total);
  if items.len() >= 1 {
    lemma_commas_items(p, q, g, h, s, items, n);
    let m = more_at(g, h, x, s.offset + n);
    assert(m.0 =~= Seq::<A>::empty() && m.1 == s.offset + total);
    assert(items =~= seq![items[0]] + (items.skip(1) + m.0));
  } else { assert(items =~= Seq::<A>::empty()); }
}
proof fn lemma_words_items<'a, A, B>(p: Parser<'a, u8, A>, q: Parser<'a, u8, B>, s: ParseState<'a, u8>, items: Seq<A>, n: int) -> (u: Seq<()>)
  requires bites(p, element_p()), eats(q, dot_f()), items_at(p, Some(q), s, items, n), items.len() >= 1, s.wf()
  ensures u.len() == items.len() - 1, element_end(s.input@, s.offset as int) is Some, 0 <= n, s.offset + n <= s.input@.len(),
    ({ let e = element_end(s.input@, s.offset as int)->0; let m = more_at(element_f(), dot_f(), s.input@, s.offset + n); more_at(element_f(), dot_f(), s.input@, e) == (u + m.0, m.1) })
  decreases items.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  let x = s.input@; let g = element_p(); let h = dot_f();
  if items.len() == 1 {
    assert(takes(p, s, items[0], n));
    assert(g(x, s.offset as int) is Some);
    let m = more_at(element_f(), h, x, s.offset + n);
    assert(Seq::<()>::empty() + m.0 =~= m.0);
    Seq::empty()
  } else {
    let m = choose|m: int| #[trigger] mark(m) && items_at(p, Some(q), s, items.drop_last(), m) && exists|rq: ParseResult<'a, u8, B>| #[trigger] q.post(adv(s, m), rq) && rq is Success
        && takes(p, adv(adv(s, m), rq->length as int), items.last(), n - m - rq->length);
    let u = lemma_words_items(p, q, s, items.drop_last(), m);
    let rq = choose|rq: ParseResult<'a, u8, B>| #[trigger] q.post(adv(s, m), rq) && rq is Success
        && takes(p, adv(adv(s, m), rq->length as int), items.last(), n - m - rq->length);
    let j = s.offset + m + rq->length;
    assert(h(x, s.offset + m) == Some(j));
    assert(g(x, j) == Some(s.offset + n));
    let k = more_at(element_f(), h, x, s.offset + n);
    assert(more_at(element_f(), h, x, s.offset + m) == (seq![()] + k.0, k.1));
    assert(u + (seq![()] + k.0) =~= u.push(()) + k.0);
    u.push(())
  }
}
/// words with dots between them
pub broadcast proof fn lemma_words<'a, A, B>(p: Parser<'a, u8, A>, q: Parser<'a, u8, B>, s: ParseState<'a, u8>, items: Seq<A>, total: int)
  requires #[trigger] hint2(element_f(), dot_f()), bites(p, element_p()), eats(q, dot_f()), #[trigger] rep_end(p, None, Some(q), s, items, total), s.wf()
  ensures commas_at(element_f(), dot_f(), s.input@, s.offset as int).0.len() == items.len(), commas_at(element_f(), dot_f(), s.input@, s.offset as int).1 == s.offset + total, 0 <= total, s.offset + total <= s.input@.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(rep_end);
  let x = s.input@;
  let n = choose|n: int| #[trigger] items_at(p, Some(q), s, items, n) && stops_at(p, Some(q), None, adv(s, n), items.len() as int, n, total);
  assert(element_p()(x, s.offset as int) == element_end(x, s.offset as int));
  if items.len() >= 1 {
    let u = lemma_words_items(p, q, s, items, n);
    let m = more_at(element_f(), dot_f(), x, s.offset + n);
    let w = adv(s, n);
    assert(dot_f()(x, s.offset + n) is Some ==> element_p()(x, s.offset + n + 1) is None);
    assert(m.0 =~= Seq::<()>::empty() && m.1 == s.offset + total);
  }
}
}
