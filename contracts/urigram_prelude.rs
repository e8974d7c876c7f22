// ---- bytes of the text x from index i: where a piece of the grammar ends
pub type Piece = spec_fn(Seq<u8>, int) -> Option<int>;
pub open spec fn ends<'a, A>(o: Option<int>, s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>) -> bool {
  match o { Some(e) => r is Success && r->length == e - s.offset, None => unc(r) }
}
/// the piece is there and the value is its bytes
pub open spec fn slc<'a>(o: Option<int>, s: ParseState<'a, u8>, r: ParseResult<'a, u8, &'a [u8]>) -> bool {
  ends(o, s, r) && (o is Some ==> r->value@ == s.input@.subrange(s.offset as int, o->0))
}
pub open spec fn is_at(x: Seq<u8>, i: int, c: u8) -> bool { 0 <= i < x.len() && x[i] == c }
pub open spec fn alpha(c: u8) -> bool { (65 <= c && c <= 90) || (97 <= c && c <= 122) }
pub open spec fn digit(c: u8) -> bool { 48 <= c && c <= 57 }
pub open spec fn hexdig(c: u8) -> bool { digit(c) || (65 <= c && c <= 70) || (97 <= c && c <= 102) }
/// - . _ ~
pub open spec fn unres(c: u8) -> bool { alpha(c) || digit(c) || c == 45 || c == 46 || c == 95 || c == 126 }
/// ! $ ' ( ) * + , ;
pub open spec fn sub_no_eq_amp(c: u8) -> bool { c == 33 || c == 36 || (39 <= c && c <= 44) || c == 59 }
/// and & =
pub open spec fn sub(c: u8) -> bool { sub_no_eq_amp(c) || c == 38 || c == 61 }
/// : / ? # [ ] @
pub open spec fn gen_c(c: u8) -> bool { c == 58 || c == 47 || c == 63 || c == 35 || c == 91 || c == 93 || c == 64 }
pub open spec fn pct_at(x: Seq<u8>, i: int) -> Option<int> {
  if is_at(x, i, 37) && i + 2 < x.len() && hexdig(x[i + 1]) && hexdig(x[i + 2]) { Some(i + 3) } else { None }
}
pub open spec fn one_at(x: Seq<u8>, i: int, m: bool) -> Option<int> { if 0 <= i < x.len() && m { Some(i + 1) } else { None } }
pub open spec fn or_at(a: Option<int>, b: Option<int>) -> Option<int> { if a is Some { a } else { b } }
pub open spec fn unres_at(x: Seq<u8>, i: int) -> Option<int> { one_at(x, i, unres(x[i])) }
pub open spec fn pchar_at(x: Seq<u8>, i: int) -> Option<int> { or_at(pct_at(x, i), one_at(x, i, unres(x[i]) || sub(x[i]) || x[i] == 58 || x[i] == 64)) }
pub open spec fn pchar_no_eq_amp_at(x: Seq<u8>, i: int) -> Option<int> { or_at(pct_at(x, i), one_at(x, i, unres(x[i]) || sub_no_eq_amp(x[i]) || x[i] == 58 || x[i] == 64)) }

// ---- repetition of a piece
/// p takes exactly the piece g, and commits to nothing when it is not there
pub open spec fn eats<'a, A>(p: Parser<'a, u8, A>, g: Piece) -> bool {
  forall|s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>| #[trigger] p.post(s, r) ==> ends(g(s.input@, s.offset as int), s, r)
}
/// .. and its value is its bytes
pub open spec fn cuts<'a>(p: Parser<'a, u8, &'a [u8]>, g: Piece) -> bool {
  forall|s: ParseState<'a, u8>, r: ParseResult<'a, u8, &'a [u8]>| #[trigger] p.post(s, r) ==> slc(g(s.input@, s.offset as int), s, r)
}
/// every such piece takes something, within the text, and only ASCII
#[verifier::opaque]
pub open spec fn good(g: Piece) -> bool { grows(g) && asc_piece(g) }
pub open spec fn grows(g: Piece) -> bool { forall|x: Seq<u8>, i: int| (#[trigger] g(x, i)) is Some ==> i < g(x, i)->0 <= x.len() }
pub open spec fn asc_in(x: Seq<u8>, i: int, e: int) -> bool { forall|k: int| i <= k < e ==> #[trigger] x[k] < 128 }
pub open spec fn asc_piece(g: Piece) -> bool { forall|x: Seq<u8>, i: int| (#[trigger] g(x, i)) is Some ==> asc_in(x, i, g(x, i)->0) }
/// as many of the piece as there are
pub open spec fn run(g: Piece, x: Seq<u8>, i: int) -> int
  decreases (if i < x.len() { x.len() - i } else { 0 })
{
  match g(x, i) { Some(e) => if i < e <= x.len() { run(g, x, e) } else { i }, None => i }
}
pub open spec fn run1(g: Piece, x: Seq<u8>, i: int) -> Option<int> { if g(x, i) is Some { Some(run(g, x, i)) } else { None } }
/// the same for pieces with a value
pub type Reads<A> = spec_fn(Seq<u8>, int) -> Option<(A, int)>;
pub open spec fn gives<'a, A>(o: Option<(A, int)>, s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>) -> bool {
  match o { Some(t) => ok(r, t.0, t.1 - s.offset), None => unc(r) }
}
pub open spec fn reads<'a, A>(p: Parser<'a, u8, A>, g: Reads<A>) -> bool {
  forall|s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>| #[trigger] p.post(s, r) ==> gives(g(s.input@, s.offset as int), s, r)
}
#[verifier::opaque]
pub open spec fn vgrows<A>(g: Reads<A>) -> bool { forall|x: Seq<u8>, i: int| (#[trigger] g(x, i)) is Some ==> i < (g(x, i)->0).1 <= x.len() }
pub open spec fn vrun<A>(g: Reads<A>, x: Seq<u8>, i: int) -> (Seq<A>, int)
  decreases (if i < x.len() { x.len() - i } else { 0 })
{
  match g(x, i) { Some(t) => if i < t.1 <= x.len() { let m = vrun(g, x, t.1); (seq![t.0] + m.0, m.1) } else { (Seq::empty(), i) }, None => (Seq::empty(), i) }
}

// ---- the grammar
pub open spec fn text_of(x: Seq<u8>, i: int, e: int) -> String { str_of(x.subrange(i, e)) }
pub open spec fn scheme_char_f() -> Piece { |x: Seq<u8>, i: int| one_at(x, i, alpha(x[i]) || digit(x[i]) || x[i] == 43 || x[i] == 45 || x[i] == 46) }
/// a letter, then letters, digits, + - .
pub open spec fn scheme_at(x: Seq<u8>, i: int) -> Option<(Scheme, int)> {
  if 0 <= i < x.len() && alpha(x[i]) { let e = run(scheme_char_f(), x, i + 1); Some((Scheme(text_of(x, i, e)), e)) } else { None }
}

pub open spec fn user_char_at(x: Seq<u8>, i: int) -> Option<int> { or_at(pct_at(x, i), one_at(x, i, unres(x[i]) || sub(x[i]))) }
pub open spec fn user_f() -> Piece { |x: Seq<u8>, i: int| user_char_at(x, i) }
pub open spec fn pass_f() -> Piece { |x: Seq<u8>, i: int| or_at(user_char_at(x, i), one_at(x, i, x[i] == 58)) }
/// a name, and after a colon a password
pub open spec fn user_info_at(x: Seq<u8>, i: int) -> (UserInfo, int) {
  let e = run(user_f(), x, i);
  if is_at(x, e, 58) { let f = run(pass_f(), x, e + 1); (UserInfo { user_name: text_of(x, i, e), password: Some(text_of(x, e + 1, f)) }, f) }
  else { (UserInfo { user_name: text_of(x, i, e), password: None }, e) }
}
pub open spec fn frag_f() -> Piece { |x: Seq<u8>, i: int| or_at(pchar_at(x, i), one_at(x, i, x[i] == 47 || x[i] == 63)) }
pub open spec fn frag_at(x: Seq<u8>, i: int) -> (String, int) { let e = run(frag_f(), x, i); (text_of(x, i, e), e) }
pub open spec fn key_f() -> Piece { |x: Seq<u8>, i: int| or_at(pchar_no_eq_amp_at(x, i), one_at(x, i, x[i] == 47 || x[i] == 63)) }
pub open spec fn val_f() -> Piece { |x: Seq<u8>, i: int| or_at(pchar_no_eq_amp_at(x, i), one_at(x, i, x[i] == 47 || x[i] == 63 || x[i] == 61)) }
pub open spec fn key_text_f() -> Reads<String> { |x: Seq<u8>, i: int| Some((text_of(x, i, run(key_f(), x, i)), run(key_f(), x, i))) }
pub open spec fn val_text_f() -> Reads<String> { |x: Seq<u8>, i: int| Some((text_of(x, i, run(val_f(), x, i)), run(val_f(), x, i))) }
pub open spec fn pair_f() -> Reads<(String, Option<String>)> { |x: Seq<u8>, i: int| Some(pair_at(x, i)) }
#[verifier::opaque]
pub open spec fn pair_at(x: Seq<u8>, i: int) -> ((String, Option<String>), int) {
  let e = run(key_f(), x, i);
  if is_at(x, e, 61) { let f = run(val_f(), x, e + 1); ((text_of(x, i, e), Some(text_of(x, e + 1, f))), f) } else { ((text_of(x, i, e), None), e) }
}
pub open spec fn amp_pair_f() -> Reads<(String, Option<String>)> { |x: Seq<u8>, i: int| if is_at(x, i, 38) { Some(pair_at(x, i + 1)) } else { None } }
/// pairs with & between them
pub open spec fn query_at(x: Seq<u8>, i: int) -> (Seq<(String, Option<String>)>, int) {
  let a = pair_at(x, i); let m = vrun(amp_pair_f(), x, a.1); (seq![a.0] + m.0, m.1)
}

// ---- numbers
pub open spec fn digit_f() -> Piece { |x: Seq<u8>, i: int| one_at(x, i, digit(x[i])) }
pub open spec fn digit_v() -> Reads<u8> { |x: Seq<u8>, i: int| if 0 <= i < x.len() && digit(x[i]) { Some((x[i], i + 1)) } else { None } }
pub open spec fn dec(t: Seq<char>) -> int decreases t.len() { if t.len() == 0 { 0 } else { dec(t.drop_last()) * 10 + (t.last() as int - 48) } }
pub open spec fn dec_text(t: Seq<char>) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> '0' <= #[trigger] t[i] && t[i] <= '9' }
pub open spec fn hex_char(c: char) -> bool { ('0' <= c && c <= '9') || ('A' <= c && c <= 'F') || ('a' <= c && c <= 'f') }
pub open spec fn hex_val(c: char) -> int { if c <= '9' { c as int - 48 } else if c <= 'F' { c as int - 55 } else { c as int - 87 } }
pub open spec fn hex(t: Seq<char>) -> int decreases t.len() { if t.len() == 0 { 0 } else { hex(t.drop_last()) * 16 + hex_val(t.last()) } }
pub open spec fn hex_text(t: Seq<char>) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> hex_char(#[trigger] t[i]) }
/// the digits up to e, which must be a number up to max
pub open spec fn port_at(x: Seq<u8>, i: int) -> Option<(u16, int)> {
  let e = run(digit_f(), x, i);
  let n = dec(asc(x.subrange(i, e)));
  if i < e && n <= 65535 { Some((n as u16, e)) } else { None }
}
// ASSUMED: reading numbers from text
pub struct VxParseError { x: u8 }
pub trait VxFromStr: Sized { spec fn from_text(t: Seq<char>, r: Result<Self, VxParseError>) -> bool; }
impl VxFromStr for u16 {
  open spec fn from_text(t: Seq<char>, r: Result<u16, VxParseError>) -> bool { (t.len() == 0 ==> r is Err) && (dec_text(t) ==> if dec(t) <= 65535 { r == Ok::<u16, VxParseError>(dec(t) as u16) } else { r is Err }) }
}
impl VxFromStr for u8 {
  open spec fn from_text(t: Seq<char>, r: Result<u8, VxParseError>) -> bool { (t.len() == 0 ==> r is Err) && (dec_text(t) ==> if dec(t) <= 255 { r == Ok::<u8, VxParseError>(dec(t) as u8) } else { r is Err }) }
}
pub trait VxParse { spec fn whole(&self) -> Seq<char>; fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, VxParseError>) ensures T::from_text(self.whole(), r); }
impl VxParse for String {
  open spec fn whole(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn vx_parse<T: VxFromStr>(&self) -> Result<T, VxParseError> { unimplemented!() }
}

pub open spec fn in_at(x: Seq<u8>, i: int, a: u8, b: u8) -> bool { 0 <= i < x.len() && a <= x[i] && x[i] <= b }
pub open spec fn two_at(x: Seq<u8>, i: int, a: bool, b: bool) -> Option<int> { if 0 <= i && i + 1 < x.len() && a && b { Some(i + 2) } else { None } }
pub open spec fn three_at(x: Seq<u8>, i: int, a: bool, b: bool, c: bool) -> Option<int> { if 0 <= i && i + 2 < x.len() && a && b && c { Some(i + 3) } else { None } }
pub open spec fn oct5_at(x: Seq<u8>, i: int) -> Option<int> { three_at(x, i, x[i] == 50, x[i + 1] == 53, 48 <= x[i + 2] && x[i + 2] <= 53) }
pub open spec fn oct4_at(x: Seq<u8>, i: int) -> Option<int> { three_at(x, i, x[i] == 50, 48 <= x[i + 1] && x[i + 1] <= 52, digit(x[i + 2])) }
pub open spec fn oct3_at(x: Seq<u8>, i: int) -> Option<int> { three_at(x, i, x[i] == 49, digit(x[i + 1]), digit(x[i + 2])) }
pub open spec fn oct2_at(x: Seq<u8>, i: int) -> Option<int> { two_at(x, i, digit(x[i]) && x[i] != 48, digit(x[i + 1])) }
pub open spec fn oct1_at(x: Seq<u8>, i: int) -> Option<int> { one_at(x, i, digit(x[i])) }
/// 250 to 255, 200 to 249, 100 to 199, 10 to 99, 0 to 9: where it ends
pub open spec fn octet_end(x: Seq<u8>, i: int) -> Option<int> {
  or_at(oct5_at(x, i), or_at(oct4_at(x, i), or_at(oct3_at(x, i), or_at(oct2_at(x, i), oct1_at(x, i)))))
}
pub open spec fn octet_text(x: Seq<u8>, i: int, e: int) -> bool { let t = asc(x.subrange(i, e)); ascii(x.subrange(i, e)) && dec_text(t) && 0 <= dec(t) <= 255 }
#[verifier::opaque]
pub open spec fn octet_at(x: Seq<u8>, i: int) -> Option<(u8, int)> {
  match octet_end(x, i) {
    Some(e) => Some(((if e == i + 1 { x[i] - 48 } else if e == i + 2 { (x[i] - 48) * 10 + (x[i + 1] - 48) } else { (x[i] - 48) * 100 + (x[i + 1] - 48) * 10 + (x[i + 2] - 48) }) as u8, e)),
    None => None,
  }
}
/// a dot and an octet
pub open spec fn dot_octet_at(x: Seq<u8>, o: Option<(u8, int)>) -> Option<(u8, int)> { if o is Some && is_at(x, (o->0).1, 46) { octet_at(x, (o->0).1 + 1) } else { None } }
// ASSUMED: an IPv4 address is its four octets
pub uninterp spec fn v4_of(a: u8, b: u8, c: u8, d: u8) -> Ipv4Addr;
impl Ipv4Addr {
  #[verifier::external_body]
  pub fn new(a: u8, b: u8, c: u8, d: u8) -> (r: Self) ensures r == v4_of(a, b, c, d) { unimplemented!() }
  pub uninterp spec fn oct(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn octets(&self) -> (r: [u8; 4]) ensures r@ == self.oct() { unimplemented!() }
}
pub open spec fn v4_at(x: Seq<u8>, i: int) -> Option<(Ipv4Addr, int)> {
  let a = octet_at(x, i);
  let b = dot_octet_at(x, a);
  let c = dot_octet_at(x, b);
  let d = dot_octet_at(x, c);
  if d is Some { Some((v4_of((a->0).0, (b->0).0, (c->0).0, (d->0).0), (d->0).1)) } else { None }
}
/// a registered name of at least one character
pub open spec fn name_at(x: Seq<u8>, i: int) -> Option<(HostName, int)> {
  match run1(user_f(), x, i) { Some(e) => Some((HostName::RegName(text_of(x, i, e)), e)), None => None }
}
pub open spec fn hex_f() -> Piece { |x: Seq<u8>, i: int| one_at(x, i, hexdig(x[i])) }
pub open spec fn future_f() -> Piece { |x: Seq<u8>, i: int| one_at(x, i, unres(x[i]) || sub(x[i]) || x[i] == 58) }
/// v, hexadecimal digits, a dot, and characters
pub open spec fn future_at(x: Seq<u8>, i: int) -> Option<(String, int)> {
  if !is_at(x, i, 118) && !is_at(x, i, 86) { None }
  else {
    match run1(hex_f(), x, i + 1) {
      None => None,
      Some(j) => if !is_at(x, j, 46) { None } else { match run1(future_f(), x, j + 1) { None => None, Some(e) => Some((text_of(x, i, e), e)) } },
    }
  }
}

/// at most n of the piece: how many, and where they end
pub open spec fn run_n(g: Piece, x: Seq<u8>, i: int, n: int) -> (int, int)
  decreases (if n > 0 { n } else { 0 })
{
  if n <= 0 { (0, i) }
  else { match g(x, i) { Some(e) => if i < e <= x.len() { let m = run_n(g, x, e, n - 1); (m.0 + 1, m.1) } else { (0, i) }, None => (0, i) } }
}
pub open spec fn vrun_n<A>(g: Reads<A>, x: Seq<u8>, i: int, n: int) -> (Seq<A>, int)
  decreases (if n > 0 { n } else { 0 })
{
  if n <= 0 { (Seq::empty(), i) }
  else { match g(x, i) { Some(t) => if i < t.1 <= x.len() { let m = vrun_n(g, x, t.1, n - 1); (seq![t.0] + m.0, m.1) } else { (Seq::empty(), i) }, None => (Seq::empty(), i) } }
}
/// 1 to 4 hexadecimal digits
#[verifier::opaque]
pub open spec fn h16_at(x: Seq<u8>, i: int) -> Option<(H16, int)> {
  let m = run_n(hex_f(), x, i, 4);
  if m.0 == 0 { None } else { Some((H16(hex(asc(x.subrange(i, m.1))) as u16), m.1)) }
}
// TRUSTED: derived Clone
impl Clone for H16 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for LS32 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Ipv4Addr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Ipv6Addr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for UserInfo { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Scheme { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for HostName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for IpLiteral { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Authority { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for HierPart { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Uri { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Query { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// ASSUMED: reading a number in base 16
#[verifier::external_body]
pub fn vx_u16_radix(s: &str, radix: u32) -> (r: Result<u16, VxParseError>)
  ensures radix == 16 && hex_text(s@) && s@.len() <= 4 ==> r == Ok::<u16, VxParseError>(hex(s@) as u16)
{ unimplemented!() }
/// two groups, or an IPv4 address
#[verifier::opaque]
pub open spec fn ls32_at(x: Seq<u8>, i: int) -> Option<(LS32, int)> {
  let a = h16_at(x, i);
  let b = if a is Some && is_at(x, (a->0).1, 58) { h16_at(x, (a->0).1 + 1) } else { None };
  if b is Some { Some((LS32::Ls32((a->0).0, (b->0).0), (b->0).1)) }
  else { match v4_at(x, i) { Some(t) => Some((LS32::Ipv4Address(t.0), t.1)), None => None } }
}

// ---- paths
pub open spec fn pchar_f() -> Piece { |x: Seq<u8>, i: int| pchar_at(x, i) }
pub open spec fn nc_f() -> Piece { |x: Seq<u8>, i: int| or_at(pct_at(x, i), one_at(x, i, unres(x[i]) || sub(x[i]) || x[i] == 64)) }
/// a slash and a segment
pub open spec fn seg_f() -> Piece { |x: Seq<u8>, i: int| if is_at(x, i, 47) { Some(run(pchar_f(), x, i + 1)) } else { None } }
/// the pieces themselves
pub open spec fn prun(g: Piece, x: Seq<u8>, i: int) -> Seq<Seq<u8>>
  decreases (if i < x.len() { x.len() - i } else { 0 })
{
  match g(x, i) { Some(e) => if i < e <= x.len() { seq![x.subrange(i, e)] + prun(g, x, e) } else { Seq::empty() }, None => Seq::empty() }
}
pub open spec fn views<'a>(v: Seq<&'a [u8]>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn all_ascii<'a>(v: Seq<&'a [u8]>) -> bool { forall|i: int| 0 <= i < v.len() ==> ascii((#[trigger] v[i])@) }
pub open spec fn str_texts(v: Seq<Seq<u8>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| str_of(v[i])@) }
pub open spec fn strings(g: Piece) -> Reads<String> { |x: Seq<u8>, i: int| match g(x, i) { Some(e) => Some((text_of(x, i, e), e)), None => None } }
/// where the path ends and its segments, as they are written
pub type PathAns = Option<(Seq<Seq<u8>>, int)>;
/// *( "/" segment ), or at least one of them
pub open spec fn abempty_at(required: bool, x: Seq<u8>, i: int) -> PathAns {
  if required && !is_at(x, i, 47) { None } else { Some((prun(seg_f(), x, i), run(seg_f(), x, i))) }
}
/// segment-nz *( "/" segment ), with the first segment of the piece g
pub open spec fn segments_at(g: Piece, x: Seq<u8>, i: int) -> PathAns {
  match run1(g, x, i) { Some(e) => Some((seq![x.subrange(i, e)] + prun(seg_f(), x, e), run(seg_f(), x, e))), None => None }
}
/// "/" and perhaps such segments
pub open spec fn absolute_at(x: Seq<u8>, i: int) -> PathAns {
  if !is_at(x, i, 47) { None }
  else { match segments_at(pchar_f(), x, i + 1) { Some(t) => Some((seq![x.subrange(i, i + 1)] + t.0, t.1)), None => Some((seq![x.subrange(i, i + 1)], i + 1)) } }
}
pub open spec fn gives_path<'a>(o: PathAns, kind: int, s: ParseState<'a, u8>, r: ParseResult<'a, u8, Path>) -> bool {
  match o { Some(t) => r is Success && r->length == t.1 - s.offset && is_path(r->value, kind, str_texts(t.0)), None => unc(r) }
}
pub open spec fn opt_segments_post<'a>(s: ParseState<'a, u8>, r: ParseResult<'a, u8, Option<Vec<&'a [u8]>>>) -> bool {
  r is Success && match segments_at(pchar_f(), s.input@, s.offset as int) {
    Some(t) => r->length == t.1 - s.offset && r->value is Some && views(r->value->0@) =~= t.0 && all_ascii(r->value->0@),
    None => r->length == 0 && r->value is None,
  }
}
/// a path that starts with a segment, or else with a slash, or nothing
pub open spec fn path_post<'a>(s: ParseState<'a, u8>, r: ParseResult<'a, u8, Option<Path>>) -> bool {
  r is Success && match segments_at(pchar_f(), s.input@, s.offset as int) {
    Some(t) => r->length == t.1 - s.offset && r->value is Some && is_path(r->value->0, 0, str_texts(t.0)),
    None => match abempty_at(true, s.input@, s.offset as int) {
      Some(t) => r->length == t.1 - s.offset && r->value is Some && is_path(r->value->0, 1, str_texts(t.0)),
      None => r->length == 0 && r->value is None,
    },
  }
}
// ---- IPv6
/// like gives, but a failure may be committed
pub open spec fn gives_or_fails<'a, A>(o: Option<(A, int)>, s: ParseState<'a, u8>, r: ParseResult<'a, u8, A>) -> bool {
  match o { Some(t) => ok(r, t.0, t.1 - s.offset), None => r is Failure }
}
pub open spec fn slc_or_fails<'a>(o: Option<int>, s: ParseState<'a, u8>, r: ParseResult<'a, u8, &'a [u8]>) -> bool {
  match o { Some(e) => r is Success && r->length == e - s.offset && r->value@ == s.input@.subrange(s.offset as int, e), None => r is Failure }
}
// ASSUMED: an IPv6 address is its eight groups
pub uninterp spec fn v6_of(g: Seq<u16>) -> Ipv6Addr;
impl Ipv6Addr {
  #[verifier::external_body]
  pub fn new(a: u16, b: u16, c: u16, d: u16, e: u16, f: u16, g: u16, h: u16) -> (r: Self)
    ensures forall|t: Seq<u16>| t.len() == 8 && t[0] == a && t[1] == b && t[2] == c && t[3] == d && t[4] == e && t[5] == f && t[6] == g && t[7] == h ==> r == #[trigger] v6_of(t)
  { unimplemented!() }
}
/// ASSUMED: the address a text stands for, as the standard library reads it
pub uninterp spec fn v6_text(t: Seq<char>) -> Option<Ipv6Addr>;
impl VxFromStr for Ipv6Addr {
  open spec fn from_text(t: Seq<char>, r: Result<Ipv6Addr, VxParseError>) -> bool { match v6_text(t) { Some(a) => r == Ok::<Ipv6Addr, VxParseError>(a), None => r is Err } }
}
pub open spec fn pair16(a: u8, b: u8) -> u16 { ((a as u16) << 8) | (b as u16) }
pub open spec fn ls_groups(l: LS32) -> Seq<u16> {
  match l { LS32::Ls32(a, b) => seq![a.0, b.0], LS32::Ipv4Address(ip) => seq![pair16(ip.oct()[0], ip.oct()[1]), pair16(ip.oct()[2], ip.oct()[3])] }
}
/// a group and a colon
pub open spec fn group_colon_f() -> Reads<H16> {
  |x: Seq<u8>, i: int| match h16_at(x, i) { Some(t) => if is_at(x, t.1, 58) { Some((t.0, t.1 + 1)) } else { None }, None => None }
}
pub open spec fn ends_f<A>(g: Reads<A>) -> Piece { |x: Seq<u8>, i: int| match g(x, i) { Some(t) => Some(t.1), None => None } }
/// a colon and a group
pub open spec fn colon_group_f() -> Piece { |x: Seq<u8>, i: int| if is_at(x, i, 58) { match h16_at(x, i + 1) { Some(t) => Some(t.1), None => None } } else { None } }
pub open spec fn numbers(v: Seq<H16>) -> Seq<u16> { Seq::new(v.len(), |i: int| v[i].0) }
pub open spec fn two_colons(x: Seq<u8>, i: int) -> bool { is_at(x, i, 58) && is_at(x, i + 1, 58) }
/// exactly n groups, each with its colon, and the last 32 bits
#[verifier::opaque]
pub open spec fn groups_at(x: Seq<u8>, i: int, n: int) -> Option<(Seq<u16>, int)> {
  let m = vrun_n(group_colon_f(), x, i, n);
  if m.0.len() < n { None } else { match ls32_at(x, m.1) { Some(t) => Some((numbers(m.0) + ls_groups(t.0), t.1)), None => None } }
}
/// the groups on the left of the two colons: none, or one and at most n more: where they end
#[verifier::opaque]
pub open spec fn left_end(x: Seq<u8>, i: int, n: int) -> int {
  match h16_at(x, i) { Some(t) => run_n(colon_group_f(), x, t.1, n).1, None => i }
}
pub open spec fn form1_at(x: Seq<u8>, i: int) -> Option<(Ipv6Addr, int)> { match groups_at(x, i, 6) { Some(t) => Some((v6_of(t.0), t.1)), None => None } }
pub open spec fn form2_at(x: Seq<u8>, i: int) -> Option<(Ipv6Addr, int)> {
  if two_colons(x, i) { match groups_at(x, i + 2, 5) { Some(t) => Some((v6_of(seq![0u16] + t.0), t.1)), None => None } } else { None }
}
pub open spec fn with_top(h: Option<H16>, t: Seq<u16>) -> Seq<u16> { seq![match h { Some(g) => g.0, None => 0u16 }, 0u16] + t }
pub open spec fn form3_at(x: Seq<u8>, i: int) -> Option<(Ipv6Addr, int)> {
  let h = h16_at(x, i);
  let j = match h { Some(t) => t.1, None => i };
  if two_colons(x, j) {
    match groups_at(x, j + 2, 4) { Some(t) => Some((v6_of(with_top(match h { Some(g) => Some(g.0), None => None }, t.0)), t.1)), None => None }
  } else { None }
}
/// the address that the text from i to e stands for
pub open spec fn v6_text_at(x: Seq<u8>, i: int, o: Option<int>) -> Option<(Ipv6Addr, int)> {
  match o { Some(e) => match v6_text(asc(x.subrange(i, e))) { Some(a) => Some((a, e)), None => None }, None => None }
}
/// groups, two colons, m groups with their colons and the last 32 bits
#[verifier::opaque]
pub open spec fn form_end(x: Seq<u8>, i: int, n: int, m: int) -> Option<int> {
  let j = left_end(x, i, n);
  if two_colons(x, j) { match groups_at(x, j + 2, m) { Some(t) => Some(t.1), None => None } } else { None }
}
#[verifier::opaque]
pub open spec fn form7_end(x: Seq<u8>, i: int) -> Option<int> {
  let j = left_end(x, i, 4);
  if two_colons(x, j) { match ls32_at(x, j + 2) { Some(t) => Some(t.1), None => None } } else { None }
}
#[verifier::opaque]
pub open spec fn form8_end(x: Seq<u8>, i: int) -> Option<int> {
  let j = left_end(x, i, 5);
  if two_colons(x, j) { match h16_at(x, j + 2) { Some(t) => Some(t.1), None => None } } else { None }
}
#[verifier::opaque]
pub open spec fn form9_end(x: Seq<u8>, i: int) -> Option<int> {
  let j = left_end(x, i, 6);
  if two_colons(x, j) { Some(j + 2) } else { None }
}

/// the first of the nine forms that is there
#[verifier::opaque]
pub open spec fn v6_at(x: Seq<u8>, i: int) -> Option<(Ipv6Addr, int)> {
  or_v6(form1_at(x, i), or_v6(form2_at(x, i), or_v6(form3_at(x, i), or_v6(v6_text_at(x, i, form_end(x, i, 1, 3)), or_v6(v6_text_at(x, i, form_end(x, i, 2, 2)), or_v6(v6_text_at(x, i, form_end(x, i, 3, 1)),
    or_v6(v6_text_at(x, i, form7_end(x, i)), or_v6(v6_text_at(x, i, form8_end(x, i)), v6_text_at(x, i, form9_end(x, i))))))))))
}
pub open spec fn or_v6(a: Option<(Ipv6Addr, int)>, b: Option<(Ipv6Addr, int)>) -> Option<(Ipv6Addr, int)> { if a is Some { a } else { b } }
/// what stands between the brackets
pub open spec fn literal_inside_at(x: Seq<u8>, i: int) -> Option<(IpLiteral, int)> {
  match v6_at(x, i) { Some(t) => Some((IpLiteral::Ipv6Address(t.0), t.1)), None => match future_at(x, i) { Some(t) => Some((IpLiteral::IpvFuture(t.0), t.1)), None => None } }
}
#[verifier::opaque]
pub open spec fn literal_at(x: Seq<u8>, i: int) -> Option<(IpLiteral, int)> {
  if !is_at(x, i, 91) { None } else { match literal_inside_at(x, i + 1) { Some(t) => if is_at(x, t.1, 93) { Some((t.0, t.1 + 1)) } else { None }, None => None } }
}
/// an IP literal; an IPv4 address that no character of a name follows; or a name, which may be empty
#[verifier::opaque]
pub open spec fn host_end(x: Seq<u8>, i: int) -> int {
  if literal_at(x, i) is Some { (literal_at(x, i)->0).1 } else if v4_alone(x, i) { (v4_at(x, i)->0).1 } else { run(user_f(), x, i) }
}
pub open spec fn v4_alone(x: Seq<u8>, i: int) -> bool { match v4_at(x, i) { Some(t) => run1(user_f(), x, t.1) is None, None => false } }
#[verifier::opaque]
pub open spec fn host_is(h: HostName, x: Seq<u8>, i: int) -> bool {
  if literal_at(x, i) is Some { h == HostName::IpLiteral((literal_at(x, i)->0).0) }
  else if v4_alone(x, i) { h == HostName::Ipv4Address((v4_at(x, i)->0).0) }
  else { match name_at(x, i) { Some(t) => h == t.0, None => h is RegName && h->RegName_0@.len() == 0 } }
}
pub fn vx_host_or_default(o: Option<HostName>) -> (r: HostName)
  ensures match o { Some(h) => r == h, None => r is RegName && r->RegName_0@.len() == 0 }
{ match o { Some(h) => h, None => HostName::default() } }
pub fn vx_flatten<T>(o: Option<Option<T>>) -> (r: Option<T>) ensures r == flat(o) { match o { Some(t) => t, None => None } }
pub open spec fn flat<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(t) => t, None => None } }
/// [ userinfo "@" ] host [ ":" [ port ] ]
pub open spec fn user_at(x: Seq<u8>, i: int) -> (Option<UserInfo>, int) { let u = user_info_at(x, i); if is_at(x, u.1, 64) { (Some(u.0), u.1 + 1) } else { (None, i) } }
pub open spec fn port_part_at(x: Seq<u8>, i: int) -> (Option<u16>, int) {
  if is_at(x, i, 58) { match port_at(x, i + 1) { Some(t) => (Some(t.0), t.1), None => (None, i + 1) } } else { (None, i) }
}
#[verifier::opaque]
pub open spec fn auth_end(x: Seq<u8>, i: int) -> int { port_part_at(x, host_end(x, user_at(x, i).1)).1 }
#[verifier::opaque]
pub open spec fn auth_is(a: Authority, x: Seq<u8>, i: int) -> bool {
  let j = user_at(x, i).1;
  a.user_info == user_at(x, i).0 && host_is(a.host_name, x, j) && a.port == port_part_at(x, host_end(x, j)).0
}

pub open spec fn two_slashes(x: Seq<u8>, i: int) -> bool { is_at(x, i, 47) && is_at(x, i + 1, 47) }
/// "//" authority path-abempty, or else a path that starts with one slash, or with a segment, or nothing
#[verifier::opaque]
pub open spec fn hier_end(x: Seq<u8>, i: int) -> int {
  if two_slashes(x, i) { run(seg_f(), x, auth_end(x, i + 2)) }
  else if is_at(x, i, 47) { run(seg_f(), x, i) }
  else { match segments_at(pchar_f(), x, i) { Some(t) => t.1, None => i } }
}
#[verifier::opaque]
pub open spec fn hier_is(h: Option<HierPart>, x: Seq<u8>, i: int) -> bool {
  if two_slashes(x, i) { h is Some && h->0.authority is Some && auth_is(h->0.authority->0, x, i + 2) && is_path(h->0.path, 1, str_texts(prun(seg_f(), x, auth_end(x, i + 2)))) }
  else if is_at(x, i, 47) { h is Some && h->0.authority is None && is_path(h->0.path, 1, str_texts(prun(seg_f(), x, i))) }
  else { match segments_at(pchar_f(), x, i) { Some(t) => h is Some && h->0.authority is None && is_path(h->0.path, 0, str_texts(t.0)), None => h is None } }
}
pub open spec fn hier_gives<'a>(s: ParseState<'a, u8>, r: ParseResult<'a, u8, HierPart>) -> bool {
  r is Success && r->length == hier_end(s.input@, s.offset as int) - s.offset && hier_is(Some(r->value), s.input@, s.offset as int)
}
pub open spec fn hier_there(x: Seq<u8>, i: int) -> bool { is_at(x, i, 47) || segments_at(pchar_f(), x, i) is Some }
/// [ scheme ] ":" hier-part [ "?" query ] [ "#" fragment ]: where it ends
pub open spec fn scheme_end(x: Seq<u8>, i: int) -> int { match scheme_at(x, i) { Some(t) => t.1, None => i } }
pub open spec fn query_end(x: Seq<u8>, i: int) -> int { if is_at(x, i, 63) { query_at(x, i + 1).1 } else { i } }
pub open spec fn frag_end(x: Seq<u8>, i: int) -> int { if is_at(x, i, 35) { frag_at(x, i + 1).1 } else { i } }
pub open spec fn query_is(q: Option<Query>, x: Seq<u8>, i: int) -> bool { if is_at(x, i, 63) { q is Some && q->0.params@ == query_at(x, i + 1).0 } else { q is None } }
pub open spec fn frag_is(f: Option<String>, x: Seq<u8>, i: int) -> bool { if is_at(x, i, 35) { f == Some(frag_at(x, i + 1).0) } else { f is None } }
#[verifier::opaque]
pub open spec fn uri_end(x: Seq<u8>, i: int, with_fragment: bool) -> Option<int> {
  let j = scheme_end(x, i);
  if !is_at(x, j, 58) { None } else { let e = query_end(x, hier_end(x, j + 1)); Some(if with_fragment { frag_end(x, e) } else { e }) }
}
#[verifier::opaque]
pub open spec fn uri_is(u: Uri, x: Seq<u8>, i: int, with_fragment: bool) -> bool {
  let j = scheme_end(x, i);
  let h = hier_end(x, j + 1);
  (match scheme_at(x, i) { Some(t) => u.schema == Some(t.0), None => u.schema is None })
    && hier_is(u.hier_path, x, j + 1) && query_is(u.query, x, h)
    && if with_fragment { frag_is(u.fragment, x, query_end(x, h)) } else { u.fragment is None }
}
pub open spec fn uri_post<'a>(with_fragment: bool, s: ParseState<'a, u8>, r: ParseResult<'a, u8, Uri>) -> bool {
  match uri_end(s.input@, s.offset as int, with_fragment) {
    Some(e) => r is Success && r->length == e - s.offset && uri_is(r->value, s.input@, s.offset as int, with_fragment),
    None => r is Failure,
  }
}

/// TRUSTED: the bytes of a text
pub uninterp spec fn utf8(t: Seq<char>) -> Seq<u8>;
pub trait VxBytes { spec fn chars_of(&self) -> Seq<char>; fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self.chars_of()), r@.len() <= isize::MAX; }
impl VxBytes for str { open spec fn chars_of(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_bytes(&self) -> &[u8] { unimplemented!() } }
/// the whole text is a URI
pub open spec fn whole_uri(x: Seq<u8>) -> bool { uri_end(x, 0, true) == Some(x.len() as int) }

// ASSUMED: the crate's impl of Set for arrays of bytes (written by a macro; one call of slice contains)
impl<const N: usize> Set<u8> for [u8; N] {
  open spec fn has(&self, x: u8) -> bool { exists|i: int| 0 <= i < N && #[trigger] self@[i] == x }
  open spec fn lawful(&self) -> bool { true }
  #[verifier::external_body]
  fn contains(&self, elem: &u8) -> bool { unimplemented!() }
}
#[derive(Debug)]
pub struct VxUtf8Error { x: u8 }
pub open spec fn ascii(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 128 }
pub open spec fn asc(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| b[i] as char) }
pub uninterp spec fn str_of(b: Seq<u8>) -> String;
/// ASSUMED: String::from_utf8 of ASCII bytes is those characters
#[verifier::external_body]
pub fn vx_from_utf8(v: Vec<u8>) -> (r: Result<String, VxUtf8Error>)
  ensures ascii(v@) ==> r == Ok::<String, VxUtf8Error>(str_of(v@)) && str_of(v@)@ == asc(v@)
{ unimplemented!() }
pub mod vx_gram {
use super::*;
pub broadcast axiom fn axiom_byte_eq(a: u8, b: u8)
  ensures #[trigger] eqv(a, b) == (a == b);
pub broadcast axiom fn axiom_byte_le(a: u8, b: u8)
  ensures #[trigger] lev(a, b) == (a <= b);
/// membership in a short array, written out
pub broadcast proof fn lemma_has<const N: usize>(a: [u8; N], x: u8)
  ensures #[trigger] a.has(x) == ((0 < N && a@[0] == x) || (1 < N && a@[1] == x) || (2 < N && a@[2] == x) || (3 < N && a@[3] == x) || (4 < N && a@[4] == x)
    || (5 < N && a@[5] == x) || (6 < N && a@[6] == x) || (7 < N && a@[7] == x) || (8 < N && a@[8] == x) || (9 < N && a@[9] == x) || (10 < N && a@[10] == x)
    || exists|i: int| 11 <= i < N && #[trigger] a@[i] == x)
{
  if a.has(x) { let i = choose|i: int| 0 <= i < N && #[trigger] a@[i] == x; }
}
pub broadcast proof fn lemma_rest<'a>(s: ParseState<'a, u8>, n: int)
  requires s.offset <= s.input@.len(), 0 <= n <= rem(s)
  ensures #[trigger] rest(s).take(n) == s.input@.subrange(s.offset as int, s.offset + n)
{ assert(rest(s).take(n) =~= s.input@.subrange(s.offset as int, s.offset + n)); }
pub axiom fn lemma_bytes()
  ensures <u8 as PartialEqSpec<u8>>::obeys_eq_spec(), ordered::<u8>();
proof fn lemma_run_items<'a, A>(p: Parser<'a, u8, A>, sep: Option<Parser<'a, u8, ()>>, g: Piece, s: ParseState<'a, u8>, items: Seq<A>, n: int)
  requires eats(p, g), good(g), sep is None, items_at(p, sep, s, items, n), s.wf()
  ensures 0 <= n, s.offset + n <= s.input@.len(), run(g, s.input@, s.offset as int) == run(g, s.input@, s.offset + n), items.len() > 0 ==> g(s.input@, s.offset as int) is Some
  decreases items.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(good);
  reveal(vgrows);
  let x = s.input@;
  if items.len() == 1 { assert(takes(p, s, items[0], n)); }
  else if items.len() > 1 {
    let m = choose|m: int| #[trigger] mark(m) && items_at(p, sep, s, items.drop_last(), m) && takes(p, adv(s, m), items.last(), n - m);
    lemma_run_items(p, sep, g, s, items.drop_last(), m);
    assert(adv(s, m).offset == s.offset + m);
    assert(g(x, s.offset + m) == Some(s.offset + n));
  }
}
/// a repetition without bound takes as many of the piece as there are
pub broadcast proof fn lemma_run<'a, A>(p: Parser<'a, u8, A>, sep: Option<Parser<'a, u8, ()>>, g: Piece, s: ParseState<'a, u8>, items: Seq<A>, total: int)
  requires eats(p, g), #[trigger] good(g), sep is None, #[trigger] rep_end(p, None, sep, s, items, total), s.wf()
  ensures s.offset + total == run(g, s.input@, s.offset as int), 0 <= total, s.offset + total <= s.input@.len(), items.len() > 0 <==> g(s.input@, s.offset as int) is Some
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(good);
  reveal(vgrows);
  reveal(rep_end);
  let n = choose|n: int| #[trigger] items_at(p, sep, s, items, n) && stops_at(p, sep, None, adv(s, n), items.len() as int, n, total);
  lemma_run_items(p, sep, g, s, items, n);
}
pub broadcast proof fn lemma_run_ascii(g: Piece, x: Seq<u8>, i: int)
  requires #[trigger] good(g), 0 <= i <= x.len()
  ensures i <= #[trigger] run(g, x, i) <= x.len(), asc_in(x, i, run(g, x, i))
  decreases x.len() - i
{ reveal(good); if g(x, i) is Some { lemma_run_ascii(g, x, g(x, i)->0); } }
proof fn lemma_vrun_items<'a, A>(p: Parser<'a, u8, A>, sep: Option<Parser<'a, u8, ()>>, g: Reads<A>, s: ParseState<'a, u8>, items: Seq<A>, n: int)
  requires reads(p, g), vgrows(g), sep is None, items_at(p, sep, s, items, n), s.wf()
  ensures 0 <= n, s.offset + n <= s.input@.len(), ({ let m = vrun(g, s.input@, s.offset + n); vrun(g, s.input@, s.offset as int) == (items + m.0, m.1) })
  decreases items.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(good);
  reveal(vgrows);
  let x = s.input@;
  if items.len() == 0 { let m = vrun(g, x, s.offset as int); assert(items + m.0 =~= m.0); }
  else if items.len() == 1 { assert(takes(p, s, items[0], n)); assert(items =~= seq![items[0]]); }
  else {
    let m = choose|m: int| #[trigger] mark(m) && items_at(p, sep, s, items.drop_last(), m) && takes(p, adv(s, m), items.last(), n - m);
    lemma_vrun_items(p, sep, g, s, items.drop_last(), m);
    assert(adv(s, m).offset == s.offset + m);
    assert(g(x, s.offset + m) == Some((items.last(), s.offset + n)));
    let k = vrun(g, x, s.offset + n);
    assert(items.drop_last() + (seq![items.last()] + k.0) =~= items + k.0);
  }
}
/// a repetition without bound reads as many as there are, in order
pub broadcast proof fn lemma_vrun<'a, A>(p: Parser<'a, u8, A>, sep: Option<Parser<'a, u8, ()>>, g: Reads<A>, s: ParseState<'a, u8>, items: Seq<A>, total: int)
  requires reads(p, g), #[trigger] vgrows(g), sep is None, #[trigger] rep_end(p, None, sep, s, items, total), s.wf()
  ensures vrun(g, s.input@, s.offset as int) == (items, s.offset + total), 0 <= total, s.offset + total <= s.input@.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(good);
  reveal(vgrows);
  reveal(rep_end);
  let n = choose|n: int| #[trigger] items_at(p, sep, s, items, n) && stops_at(p, sep, None, adv(s, n), items.len() as int, n, total);
  lemma_vrun_items(p, sep, g, s, items, n);
  let m = vrun(g, s.input@, s.offset + n);
  assert(items + m.0 =~= items);
}
pub proof fn lemma_scheme_char_f() ensures good(scheme_char_f()) { reveal(good); }
pub proof fn lemma_user_f() ensures good(user_f()) { reveal(good); }
pub proof fn lemma_pass_f() ensures good(pass_f()) { reveal(good); }
pub proof fn lemma_frag_f() ensures good(frag_f()) { reveal(good); }
pub proof fn lemma_key_f() ensures good(key_f()) { reveal(good); }
pub proof fn lemma_val_f() ensures good(val_f()) { reveal(good); }
pub proof fn lemma_query() ensures good(key_f()), good(val_f()), vgrows(amp_pair_f())
{ lemma_key_f(); lemma_val_f(); reveal(vgrows); reveal(pair_at); broadcast use lemma_run_ascii; }
pub proof fn lemma_digits() ensures good(digit_f()), vgrows(digit_v()) { reveal(good); reveal(vgrows); }
/// a run of digits: the values are the bytes, all digits
pub broadcast proof fn lemma_digit_run(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures #[trigger] vrun(digit_v(), x, i) == (x.subrange(i, run(digit_f(), x, i)), run(digit_f(), x, i)), i <= run(digit_f(), x, i) <= x.len(),
    forall|k: int| i <= k < run(digit_f(), x, i) ==> digit(#[trigger] x[k])
  decreases x.len() - i
{
  lemma_digits();
  if i < x.len() && digit(x[i]) {
    lemma_digit_run(x, i + 1);
    let e = run(digit_f(), x, i + 1);
    assert(seq![x[i]] + x.subrange(i + 1, e) =~= x.subrange(i, e));
  } else { assert(Seq::<u8>::empty() =~= x.subrange(i, i)); }
}
pub proof fn lemma_hex_f() ensures good(hex_f()) { reveal(good); }
pub proof fn lemma_future_f() ensures good(future_f()) { reveal(good); }
proof fn lemma_octet(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len(), octet_end(x, i) is Some
  ensures i < octet_end(x, i)->0 <= x.len(), octet_text(x, i, octet_end(x, i)->0), octet_at(x, i) == Some((dec(asc(x.subrange(i, octet_end(x, i)->0))) as u8, octet_end(x, i)->0)),
{
  reveal(octet_at);
  let e = octet_end(x, i)->0;
  let t = asc(x.subrange(i, e));
  reveal_with_fuel(dec, 5);
  assert(t.drop_last().len() == t.len() - 1);
  if e >= i + 2 { assert(t.drop_last()[0] == t[0]); }
  if e == i + 3 { assert(t.drop_last().drop_last()[0] == t[0]); assert(t.drop_last()[1] == t[1]); }
}
pub proof fn lemma_octets()
  ensures forall|x: Seq<u8>, i: int| 0 <= i <= x.len() ==> match octet_end(x, i) {
      Some(e) => i < e <= x.len() && octet_text(x, i, e) && #[trigger] octet_at(x, i) == Some((dec(asc(x.subrange(i, e))) as u8, e)),
      None => octet_at(x, i) is None,
    }
{
  assert forall|x: Seq<u8>, i: int| 0 <= i <= x.len() implies match octet_end(x, i) {
      Some(e) => i < e <= x.len() && octet_text(x, i, e) && #[trigger] octet_at(x, i) == Some((dec(asc(x.subrange(i, e))) as u8, e)),
      None => octet_at(x, i) is None,
    } by { reveal(octet_at); if octet_end(x, i) is Some { lemma_octet(x, i); } }
}
proof fn lemma_run_n_items<'a, A>(p: Parser<'a, u8, A>, sep: Option<Parser<'a, u8, ()>>, g: Piece, hi: int, s: ParseState<'a, u8>, items: Seq<A>, n: int)
  requires eats(p, g), good(g), sep is None, items_at(p, sep, s, items, n), items.len() <= hi, s.wf()
  ensures 0 <= n, s.offset + n <= s.input@.len(), ({ let m = run_n(g, s.input@, s.offset + n, hi - items.len()); run_n(g, s.input@, s.offset as int, hi) == (m.0 + items.len(), m.1) })
  decreases items.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(good);
  let x = s.input@;
  if items.len() == 1 { assert(takes(p, s, items[0], n)); }
  else if items.len() > 1 {
    let m = choose|m: int| #[trigger] mark(m) && items_at(p, sep, s, items.drop_last(), m) && takes(p, adv(s, m), items.last(), n - m);
    lemma_run_n_items(p, sep, g, hi, s, items.drop_last(), m);
    assert(adv(s, m).offset == s.offset + m);
    assert(g(x, s.offset + m) == Some(s.offset + n));
  }
}
pub broadcast proof fn lemma_run_n<'a, A>(p: Parser<'a, u8, A>, sep: Option<Parser<'a, u8, ()>>, g: Piece, hi: int, s: ParseState<'a, u8>, items: Seq<A>, total: int)
  requires eats(p, g), #[trigger] good(g), sep is None, #[trigger] rep_end(p, Some(hi), sep, s, items, total), s.wf(), 0 <= hi
  ensures run_n(g, s.input@, s.offset as int, hi) == (items.len() as int, s.offset + total), 0 <= total, s.offset + total <= s.input@.len(),
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(rep_end);
  reveal(good);
  let n = choose|n: int| #[trigger] items_at(p, sep, s, items, n) && stops_at(p, sep, Some(hi), adv(s, n), items.len() as int, n, total);
  lemma_run_n_items(p, sep, g, hi, s, items, n);
}
proof fn lemma_vrun_n_items<'a, A>(p: Parser<'a, u8, A>, sep: Option<Parser<'a, u8, ()>>, g: Reads<A>, hi: int, s: ParseState<'a, u8>, items: Seq<A>, n: int)
  requires reads(p, g), vgrows(g), sep is None, items_at(p, sep, s, items, n), items.len() <= hi, s.wf()
  ensures 0 <= n, s.offset + n <= s.input@.len(), ({ let m = vrun_n(g, s.input@, s.offset + n, hi - items.len()); vrun_n(g, s.input@, s.offset as int, hi) == (items + m.0, m.1) })
  decreases items.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(vgrows);
  let x = s.input@;
  if items.len() == 0 { let m = vrun_n(g, x, s.offset as int, hi); assert(items + m.0 =~= m.0); }
  else if items.len() == 1 { assert(takes(p, s, items[0], n)); assert(items =~= seq![items[0]]); }
  else {
    let m = choose|m: int| #[trigger] mark(m) && items_at(p, sep, s, items.drop_last(), m) && takes(p, adv(s, m), items.last(), n - m);
    lemma_vrun_n_items(p, sep, g, hi, s, items.drop_last(), m);
    assert(adv(s, m).offset == s.offset + m);
    assert(g(x, s.offset + m) == Some((items.last(), s.offset + n)));
    let k = vrun_n(g, x, s.offset + n, hi - items.len());
    assert(items.drop_last() + (seq![items.last()] + k.0) =~= items + k.0);
  }
}
pub broadcast proof fn lemma_vrun_n<'a, A>(p: Parser<'a, u8, A>, sep: Option<Parser<'a, u8, ()>>, g: Reads<A>, hi: int, s: ParseState<'a, u8>, items: Seq<A>, total: int)
  requires reads(p, g), #[trigger] vgrows(g), sep is None, #[trigger] rep_end(p, Some(hi), sep, s, items, total), s.wf(), 0 <= hi
  ensures vrun_n(g, s.input@, s.offset as int, hi) == (items, s.offset + total), items.len() <= hi, 0 <= total, s.offset + total <= s.input@.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(rep_end);
  reveal(vgrows);
  let n = choose|n: int| #[trigger] items_at(p, sep, s, items, n) && stops_at(p, sep, Some(hi), adv(s, n), items.len() as int, n, total);
  lemma_vrun_n_items(p, sep, g, hi, s, items, n);
  let m = vrun_n(g, s.input@, s.offset + n, hi - items.len());
  assert(items + m.0 =~= items);
}
/// a bounded run of hexadecimal digits
pub proof fn lemma_hex_run(x: Seq<u8>, i: int, n: int)
  requires 0 <= i <= x.len(), 0 <= n
  ensures ({ let m = run_n(hex_f(), x, i, n); i <= m.1 <= x.len() && m.1 == i + m.0 && m.0 <= n && forall|k: int| i <= k < m.1 ==> hexdig(#[trigger] x[k]) })
  decreases n
{ if n > 0 && i < x.len() && hexdig(x[i]) { lemma_hex_run(x, i + 1, n - 1); } }
pub proof fn lemma_hex_runs()
  ensures good(hex_f()), forall|x: Seq<u8>, i: int| 0 <= i <= x.len() ==> ({ let m = #[trigger] run_n(hex_f(), x, i, 4); i <= m.1 <= x.len() && m.1 == i + m.0 && m.0 <= 4 && forall|k: int| i <= k < m.1 ==> hexdig(#[trigger] x[k]) })
{
  lemma_hex_f();
  assert forall|x: Seq<u8>, i: int| 0 <= i <= x.len() implies ({ let m = #[trigger] run_n(hex_f(), x, i, 4); i <= m.1 <= x.len() && m.1 == i + m.0 && m.0 <= 4 && forall|k: int| i <= k < m.1 ==> hexdig(#[trigger] x[k]) }) by { lemma_hex_run(x, i, 4); }
}
pub proof fn lemma_pchar_f() ensures good(pchar_f()) { reveal(good); }
pub proof fn lemma_nc_f() ensures good(nc_f()) { reveal(good); }
pub proof fn lemma_seg_f() ensures good(seg_f()), good(pchar_f()), vgrows(strings(seg_f()))
{ lemma_pchar_f(); reveal(good); reveal(vgrows); broadcast use lemma_run_ascii; }
/// reading pieces as strings
pub broadcast proof fn lemma_strings(g: Piece, x: Seq<u8>, i: int)
  requires #[trigger] good(g), 0 <= i <= x.len()
  ensures (#[trigger] vrun(strings(g), x, i)).1 == run(g, x, i), texts(vrun(strings(g), x, i).0) =~= str_texts(prun(g, x, i))
  decreases x.len() - i
{
  reveal(good);
  if g(x, i) is Some {
    let e = g(x, i)->0;
    lemma_strings(g, x, e);
    let m = vrun(strings(g), x, e);
    assert(vrun(strings(g), x, i).0 == seq![text_of(x, i, e)] + m.0);
    assert forall|k: int| 0 <= k < texts(vrun(strings(g), x, i).0).len() implies texts(vrun(strings(g), x, i).0)[k] == str_texts(prun(g, x, i))[k] by {
      if k > 0 { assert(texts(m.0)[k - 1] == str_texts(prun(g, x, e))[k - 1]); }
    }
  }
}
proof fn lemma_prun_ascii(g: Piece, x: Seq<u8>, i: int)
  requires good(g), 0 <= i <= x.len()
  ensures forall|k: int| 0 <= k < prun(g, x, i).len() ==> ascii(#[trigger] prun(g, x, i)[k])
  decreases x.len() - i
{
  reveal(good);
  if g(x, i) is Some {
    let e = g(x, i)->0;
    lemma_prun_ascii(g, x, e);
    assert forall|k: int| 0 <= k < prun(g, x, i).len() implies ascii(#[trigger] prun(g, x, i)[k]) by { if k > 0 { assert(prun(g, x, i)[k] == prun(g, x, e)[k - 1]); } }
  }
}
proof fn lemma_prun_items<'a>(p: Parser<'a, u8, &'a [u8]>, sep: Option<Parser<'a, u8, ()>>, g: Piece, s: ParseState<'a, u8>, items: Seq<&'a [u8]>, n: int)
  requires cuts(p, g), good(g), sep is None, items_at(p, sep, s, items, n), s.wf()
  ensures 0 <= n, s.offset + n <= s.input@.len(), prun(g, s.input@, s.offset as int) == views(items) + prun(g, s.input@, s.offset + n)
  decreases items.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(good);
  let x = s.input@;
  let k = prun(g, x, s.offset + n);
  if items.len() == 0 { assert(views(items) + k =~= k); }
  else if items.len() == 1 { assert(takes(p, s, items[0], n)); assert(views(items) =~= seq![items[0]@]); }
  else {
    let m = choose|m: int| #[trigger] mark(m) && items_at(p, sep, s, items.drop_last(), m) && takes(p, adv(s, m), items.last(), n - m);
    lemma_prun_items(p, sep, g, s, items.drop_last(), m);
    assert(adv(s, m).offset == s.offset + m);
    assert(g(x, s.offset + m) == Some(s.offset + n));
    assert(items.last()@ == x.subrange(s.offset + m, s.offset + n));
    assert(views(items.drop_last()) + (seq![items.last()@] + k) =~= views(items) + k);
  }
}
/// a repetition without bound keeps the pieces in order
pub broadcast proof fn lemma_prun<'a>(p: Parser<'a, u8, &'a [u8]>, sep: Option<Parser<'a, u8, ()>>, g: Piece, s: ParseState<'a, u8>, items: Seq<&'a [u8]>, total: int)
  requires cuts(p, g), #[trigger] good(g), sep is None, #[trigger] rep_end(p, None, sep, s, items, total), s.wf()
  ensures prun(g, s.input@, s.offset as int) == views(items), all_ascii(items), s.offset + total == run(g, s.input@, s.offset as int)
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  assert(eats(p, g));
  lemma_run(p, sep, g, s, items, total);
  reveal(items_at);
  reveal(rep_end);
  reveal(good);
  let n = choose|n: int| #[trigger] items_at(p, sep, s, items, n) && stops_at(p, sep, None, adv(s, n), items.len() as int, n, total);
  lemma_prun_items(p, sep, g, s, items, n);
  let m = prun(g, s.input@, s.offset + n);
  assert(m =~= Seq::<Seq<u8>>::empty());
  assert(views(items) + m =~= views(items));
  lemma_prun_ascii(g, s.input@, s.offset as int);
  assert forall|i: int| 0 <= i < items.len() implies ascii((#[trigger] items[i])@) by { assert(ascii(views(items)[i])); }
}
pub proof fn lemma_paths()
  ensures forall|x: Seq<u8>, i: int| #[trigger] segments_at(nc_f(), x, i) is Some ==> segments_at(pchar_f(), x, i) is Some,
    forall|x: Seq<u8>, i: int| #[trigger] absolute_at(x, i) is Some ==> abempty_at(true, x, i) is Some,
{
  assert forall|x: Seq<u8>, i: int| #[trigger] segments_at(nc_f(), x, i) is Some implies segments_at(pchar_f(), x, i) is Some by { assert(nc_f()(x, i) is Some); assert(pchar_f()(x, i) is Some); }
}
pub proof fn lemma_groups() ensures vgrows(group_colon_f())
{
  reveal(vgrows);
  assert forall|x: Seq<u8>, i: int| (#[trigger] group_colon_f()(x, i)) is Some implies i < (group_colon_f()(x, i)->0).1 <= x.len() by { lemma_h16(x, i); }
}
pub proof fn lemma_colon_groups() ensures good(colon_group_f())
{
  reveal(good);
  assert forall|x: Seq<u8>, i: int| (#[trigger] colon_group_f()(x, i)) is Some implies i < colon_group_f()(x, i)->0 <= x.len() && asc_in(x, i, colon_group_f()(x, i)->0) by { lemma_h16(x, i + 1); }
}
pub proof fn lemma_group_ends()
  ensures good(ends_f(group_colon_f())),
    forall|x: Seq<u8>, i: int, n: int| (#[trigger] run_n(ends_f(group_colon_f()), x, i, n)) == (vrun_n(group_colon_f(), x, i, n).0.len() as int, vrun_n(group_colon_f(), x, i, n).1)
{
  assert forall|x: Seq<u8>, i: int, n: int| (#[trigger] run_n(ends_f(group_colon_f()), x, i, n)) == (vrun_n(group_colon_f(), x, i, n).0.len() as int, vrun_n(group_colon_f(), x, i, n).1) by { lemma_ends_run(group_colon_f(), x, i, n); }
  reveal(good);
  assert forall|x: Seq<u8>, i: int| (#[trigger] ends_f(group_colon_f())(x, i)) is Some implies i < ends_f(group_colon_f())(x, i)->0 <= x.len() && asc_in(x, i, ends_f(group_colon_f())(x, i)->0) by { lemma_h16(x, i); }
}
/// where a bounded run ends does not depend on the values
proof fn lemma_ends_run<A>(g: Reads<A>, x: Seq<u8>, i: int, n: int)
  ensures run_n(ends_f(g), x, i, n) == (vrun_n(g, x, i, n).0.len() as int, vrun_n(g, x, i, n).1)
  decreases (if n > 0 { n } else { 0 })
{ if n > 0 && g(x, i) is Some { lemma_ends_run(g, x, (g(x, i)->0).1, n - 1); } }
pub proof fn lemma_h16(x: Seq<u8>, i: int)
  requires h16_at(x, i) is Some
  ensures 0 <= i < (h16_at(x, i)->0).1 <= x.len(), asc_in(x, i, (h16_at(x, i)->0).1)
{
  reveal(h16_at);
  if 0 <= i <= x.len() { lemma_hex_run(x, i, 4); }
}
pub broadcast proof fn lemma_two<'a, B>(a: Seq<u8>, s: ParseState<'a, u8>, r: ParseResult<'a, u8, B>)
  requires #[trigger] seq_post(a, s, r), a.len() == 2, s.wf()
  ensures if is_at(s.input@, s.offset as int, a[0]) && is_at(s.input@, s.offset + 1, a[1]) { r is Success && r->length == 2 } else { r is Failure }
{
  broadcast use {axiom_byte_eq};
  lemma_bytes();
  if rem(s) >= 2 { assert(eqv(a[0], rest(s)[0]) == (a[0] == s.input@[s.offset as int])); assert(eqv(a[1], rest(s)[1]) == (a[1] == s.input@[s.offset + 1])); }
}
pub proof fn lemma_groups_ascii(x: Seq<u8>, i: int, n: int)
  requires 0 <= i <= x.len()
  ensures ({ let m = vrun_n(group_colon_f(), x, i, n); i <= m.1 <= x.len() && asc_in(x, i, m.1) })
  decreases (if n > 0 { n } else { 0 })
{
  if n > 0 && group_colon_f()(x, i) is Some { lemma_h16(x, i); lemma_groups_ascii(x, (group_colon_f()(x, i)->0).1, n - 1); }
}
proof fn lemma_colon_ascii(x: Seq<u8>, i: int, n: int)
  requires 0 <= i <= x.len()
  ensures ({ let m = run_n(colon_group_f(), x, i, n); i <= m.1 <= x.len() && asc_in(x, i, m.1) })
  decreases (if n > 0 { n } else { 0 })
{
  if n > 0 && colon_group_f()(x, i) is Some { lemma_h16(x, i + 1); lemma_colon_ascii(x, colon_group_f()(x, i)->0, n - 1); }
}
proof fn lemma_v4_ascii(x: Seq<u8>, i: int)
  requires v4_at(x, i) is Some, 0 <= i <= x.len()
  ensures i < (v4_at(x, i)->0).1 <= x.len(), asc_in(x, i, (v4_at(x, i)->0).1)
{
  lemma_octets();
  reveal(octet_at);
}
pub proof fn lemma_ls32_ascii(x: Seq<u8>, i: int)
  requires ls32_at(x, i) is Some, 0 <= i <= x.len()
  ensures i < (ls32_at(x, i)->0).1 <= x.len(), asc_in(x, i, (ls32_at(x, i)->0).1)
{
  reveal(ls32_at);
  let a = h16_at(x, i);
  if a is Some { lemma_h16(x, i); if h16_at(x, (a->0).1 + 1) is Some { lemma_h16(x, (a->0).1 + 1); } }
  if v4_at(x, i) is Some { lemma_v4_ascii(x, i); }
}
proof fn lemma_left_ascii(x: Seq<u8>, i: int, n: int)
  requires 0 <= i <= x.len()
  ensures i <= left_end(x, i, n) <= x.len(), asc_in(x, i, left_end(x, i, n))
{
  reveal(left_end);
  if h16_at(x, i) is Some { lemma_h16(x, i); lemma_colon_ascii(x, (h16_at(x, i)->0).1, n); }
}
pub open spec fn asc_to(x: Seq<u8>, i: int, o: Option<int>) -> bool { o is Some ==> i <= o->0 <= x.len() && asc_in(x, i, o->0) }
pub proof fn lemma_forms_ascii()
  ensures
    forall|x: Seq<u8>, i: int, n: int, m: int| 0 <= i <= x.len() ==> asc_to(x, i, #[trigger] form_end(x, i, n, m)),
    forall|x: Seq<u8>, i: int| 0 <= i <= x.len() ==> asc_to(x, i, #[trigger] form7_end(x, i)),
    forall|x: Seq<u8>, i: int| 0 <= i <= x.len() ==> asc_to(x, i, #[trigger] form8_end(x, i)),
    forall|x: Seq<u8>, i: int| 0 <= i <= x.len() ==> asc_to(x, i, #[trigger] form9_end(x, i)),
{
  assert forall|x: Seq<u8>, i: int, n: int, m: int| 0 <= i <= x.len() implies asc_to(x, i, #[trigger] form_end(x, i, n, m)) by {
    reveal(form_end); reveal(groups_at);
    lemma_left_ascii(x, i, n);
    let j = left_end(x, i, n);
    if two_colons(x, j) { lemma_groups_ascii(x, j + 2, m); let k = vrun_n(group_colon_f(), x, j + 2, m).1; if ls32_at(x, k) is Some { lemma_ls32_ascii(x, k); } }
  }
  assert forall|x: Seq<u8>, i: int| 0 <= i <= x.len() implies asc_to(x, i, #[trigger] form7_end(x, i)) by {
    reveal(form7_end);
    lemma_left_ascii(x, i, 4);
    let j = left_end(x, i, 4);
    if two_colons(x, j) && ls32_at(x, j + 2) is Some { lemma_ls32_ascii(x, j + 2); }
  }
  assert forall|x: Seq<u8>, i: int| 0 <= i <= x.len() implies asc_to(x, i, #[trigger] form8_end(x, i)) by {
    reveal(form8_end);
    lemma_left_ascii(x, i, 5);
    let j = left_end(x, i, 5);
    if two_colons(x, j) && h16_at(x, j + 2) is Some { lemma_h16(x, j + 2); }
  }
  assert forall|x: Seq<u8>, i: int| 0 <= i <= x.len() implies asc_to(x, i, #[trigger] form9_end(x, i)) by {
    reveal(form9_end);
    lemma_left_ascii(x, i, 6);
  }
}
}
