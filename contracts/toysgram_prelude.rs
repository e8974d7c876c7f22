// ---- what a Toys text means: at index i of the text x, the tree and the index behind it (ordered choice, no going back)
pub type Rd<A> = spec_fn(Seq<char>, int) -> Option<(A, int)>;
pub type At = Option<(Rc<Expr>, int)>;
/// it is there: the value and the length; it is not: a failure, which rules nothing out
pub open spec fn gives<'a, A>(o: Option<(A, int)>, s: ParseState<'a, char>, r: ParseResult<'a, char, A>) -> bool {
  match o { Some(t) => ok(r, t.0, t.1 - s.offset) && s.offset < t.1, None => unc(r) }
}
/// the same, when a failure may be a committed one
pub open spec fn reads_as<'a, A>(o: Option<(A, int)>, s: ParseState<'a, char>, r: ParseResult<'a, char, A>) -> bool {
  match o { Some(t) => ok(r, t.0, t.1 - s.offset) && s.offset < t.1, None => r is Failure }
}
/// only the length matters
pub open spec fn ends<'a, A>(o: Option<int>, s: ParseState<'a, char>, r: ParseResult<'a, char, A>) -> bool {
  match o { Some(e) => r is Success && r->length == e - s.offset && s.offset < e, None => unc(r) }
}
pub open spec fn reads<'a, A>(p: Parser<'a, char, A>, g: Rd<A>) -> bool {
  forall|s: ParseState<'a, char>, r: ParseResult<'a, char, A>| #[trigger] p.post(s, r) ==> reads_as(g(s.input@, s.offset as int), s, r)
}
pub open spec fn hint<A>(g: Rd<A>) -> bool { true }
pub open spec fn chars_gives<'a>(s: ParseState<'a, char>, r: ParseResult<'a, char, String>) -> bool {
  let m = many_at(char_f(), s.input@, s.offset as int);
  if m.0.len() > 0 { ok(r, str_of(m.0), m.1 - s.offset) && s.offset < m.1 } else { unc(r) }
}
pub open spec fn units_gives<'a>(s: ParseState<'a, char>, r: ParseResult<'a, char, String>) -> bool {
  let m = many_at(unit_f(), s.input@, s.offset as int);
  if m.0.len() > 0 { ok(r, str_of(utf16_text(m.0)), m.1 - s.offset) && s.offset < m.1 } else { unc(r) }
}
pub open spec fn word_gives<'a, A>(t: Seq<char>, s: ParseState<'a, char>, r: ParseResult<'a, char, A>) -> bool {
  let x = s.input@; let j = sp(x, s.offset as int);
  if kw(x, j, t) { r is Success && r->length == sp(x, j + t.len()) - s.offset } else { r is Failure && (!unc(r) ==> is_at(x, j, t[0])) }
}
/// the same where no blank comes first
pub open spec fn bare_gives<'a, A>(t: Seq<char>, s: ParseState<'a, char>, r: ParseResult<'a, char, A>) -> bool {
  let x = s.input@; let j = s.offset as int;
  if kw(x, j, t) { r is Success && r->length == sp(x, j + t.len()) - s.offset } else { r is Failure }
}
/// the tree is there, up to the blanks around it
pub open spec fn inner_gives<'a>(o: At, s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>) -> bool {
  sp(s.input@, s.offset as int) == s.offset ==> match o { Some(t) => r is Success && r->value == t.0 && 0 < r->length && sp(s.input@, s.offset + r->length) == t.1, None => r is Failure }
}
pub open spec fn head_gives<'a>(t: Seq<char>, s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>) -> bool {
  sp(s.input@, s.offset as int) == s.offset ==> reads_as(head_at(s.input@, s.offset as int, t), s, r)
}
/// `global` and a name, `fn` and a name
#[verifier::opaque]
pub open spec fn named_at(x: Seq<char>, i: int, t: Seq<char>) -> Option<(String, int)> { let j = sp(x, i); if kw(x, j, t) { ident_at(x, j + t.len()) } else { None } }
pub open spec fn named_gives<'a>(t: Seq<char>, s: ParseState<'a, char>, r: ParseResult<'a, char, String>) -> bool {
  let x = s.input@;
  match named_at(x, s.offset as int, t) { Some(n) => ok(r, n.0, n.1 - s.offset) && s.offset < n.1, None => r is Failure && (!unc(r) ==> is_at(x, sp(x, s.offset as int), t[0])) }
}
/// ( name , name .. )
#[verifier::opaque]
pub open spec fn names_at(x: Seq<char>, i: int) -> Option<(Vec<String>, int)> {
  match tok(x, i, '(') { None => None, Some(k) => { let a = commas_at(ident_f(), x, k); match tok(x, a.1, ')') { None => None, Some(l) => Some((vec_of(a.0), l)) } } }
}
pub open spec fn names_give<'a>(s: ParseState<'a, char>, r: ParseResult<'a, char, Vec<String>>) -> bool { reads_as(names_at(s.input@, s.offset as int), s, r) }
pub open spec fn definition_gives<'a>(o: At, c: char, s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>) -> bool {
  match o { Some(t) => r is Success && r->value == t.0 && 0 < r->length && sp(s.input@, s.offset + r->length) == t.1, None => r is Failure && (!unc(r) ==> is_at(s.input@, sp(s.input@, s.offset as int), c)) }
}
/// the same parser, of which only `post` is known (a step for the solver: the body is the identity, and it is verified)
pub fn vx_only<'a, A>(p: Parser<'a, char, A>, Ghost(post): Ghost<spec_fn(ParseState<'a, char>, ParseResult<'a, char, A>) -> bool>) -> (q: Parser<'a, char, A>)
  requires forall|s: ParseState<'a, char>, r: ParseResult<'a, char, A>| #[trigger] p.post(s, r) ==> post(s, r)
  ensures forall|s: ParseState<'a, char>, r: ParseResult<'a, char, A>| #[trigger] q.post(s, r) ==> post(s, r)
{ p }
pub open spec fn is_at(x: Seq<char>, i: int, c: char) -> bool { 0 <= i < x.len() && x[i] == c }

// ---- tokens
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
/// behind the blanks
pub open spec fn sp(x: Seq<char>, i: int) -> int
  decreases (if i < x.len() { x.len() - i } else { 0 })
{
  if 0 <= i < x.len() && blank(x[i]) { sp(x, i + 1) } else { i }
}
/// the character, with blanks around it
pub open spec fn tok(x: Seq<char>, i: int, c: char) -> Option<int> {
  if is_at(x, sp(x, i), c) { Some(sp(x, sp(x, i) + 1)) } else { None }
}
/// the word t
pub open spec fn kw(x: Seq<char>, i: int, t: Seq<char>) -> bool { 0 <= i && i + t.len() <= x.len() && x.subrange(i, i + t.len()) == t }
pub open spec fn letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || c == '_' }
pub open spec fn dig(c: char) -> bool { '0' <= c && c <= '9' }
/// behind the letters and digits
pub open spec fn word_end(x: Seq<char>, i: int) -> int
  decreases (if i < x.len() { x.len() - i } else { 0 })
{
  if 0 <= i < x.len() && (letter(x[i]) || dig(x[i])) { word_end(x, i + 1) } else { i }
}
/// a name: a letter, then letters and digits, with blanks around it
pub open spec fn ident_at(x: Seq<char>, i: int) -> Option<(String, int)> {
  let j = sp(x, i);
  if 0 <= j < x.len() && letter(x[j]) { let e = word_end(x, j + 1); Some((str_of(x.subrange(j, e)), sp(x, e))) } else { None }
}

// ---- repetition
pub open spec fn many_at<A>(g: Rd<A>, x: Seq<char>, i: int) -> (Seq<A>, int)
  decreases (if i < x.len() { x.len() - i } else { 0 })
{
  match g(x, i) { Some(t) => if i < t.1 <= x.len() { let m = many_at(g, x, t.1); (seq![t.0] + m.0, m.1) } else { (Seq::empty(), i) }, None => (Seq::empty(), i) }
}
/// the items that follow, each after a comma; a comma that no item follows is taken all the same
pub open spec fn more_at<A>(g: Rd<A>, x: Seq<char>, i: int) -> (Seq<A>, int)
  decreases (if i < x.len() { x.len() - i } else { 0 })
{
  match tok(x, i, ',') {
    None => (Seq::empty(), i),
    Some(j) => match g(x, j) {
      None => (Seq::empty(), j),
      Some(t) => if i < t.1 <= x.len() { let m = more_at(g, x, t.1); (seq![t.0] + m.0, m.1) } else { (Seq::empty(), i) },
    },
  }
}
/// items with commas between them
pub open spec fn commas_at<A>(g: Rd<A>, x: Seq<char>, i: int) -> (Seq<A>, int) {
  match g(x, i) { None => (Seq::empty(), i), Some(t) => { let m = more_at(g, x, t.1); (seq![t.0] + m.0, m.1) } }
}

// ---- expressions
// the two names the grammar is recursive through; every use is behind at least one character of the text
pub uninterp spec fn expression_at(x: Seq<char>, i: int) -> At;
pub uninterp spec fn line_at(x: Seq<char>, i: int) -> At;
pub open spec fn expression_f() -> Rd<Rc<Expr>> { |x: Seq<char>, i: int| expression_at(x, i) }
pub open spec fn line_f() -> Rd<Rc<Expr>> { |x: Seq<char>, i: int| line_at(x, i) }
pub open spec fn ident_f() -> Rd<String> { |x: Seq<char>, i: int| ident_at(x, i) }
pub open spec fn rc(e: Expr) -> Rc<Expr> { Rc::new(e) }
pub open spec fn integer_at(x: Seq<char>, i: int) -> At {
  let j = sp(x, i);
  match number_end(x, j) {
    Some(e) => match int_of(x.subrange(j, e)) { Some(n) => Some((rc(Expr::IntegerLiteral(n)), sp(x, e))), None => None },
    None => None,
  }
}
pub open spec fn bool_at(x: Seq<char>, i: int) -> At {
  let j = sp(x, i);
  if kw(x, j, "true"@) { Some((rc(Expr::BoolLiteral(true)), sp(x, j + 4))) }
  else if kw(x, j, "false"@) { Some((rc(Expr::BoolLiteral(false)), sp(x, j + 5))) } else { None }
}
pub open spec fn identifier_at(x: Seq<char>, i: int) -> At {
  match ident_at(x, i) { Some(t) => Some((rc(Expr::Symbol(t.0)), t.1)), None => None }
}
pub open spec fn call_at(x: Seq<char>, i: int) -> At {
  match ident_at(x, i) { None => None, Some(t) => match tok(x, t.1, '(') { None => None, Some(j) => {
    let a = commas_at(expression_f(), x, j);
    match tok(x, a.1, ')') { None => None, Some(e) => Some((rc(Expr::FunctionCall(t.0, vec_of(a.0))), sp(x, e))) }
  } } }
}
pub open spec fn argument_at(x: Seq<char>, i: int) -> Option<(LabelledParameter, int)> {
  match ident_at(x, i) { None => None, Some(t) => if !is_at(x, t.1, '=') { None } else {
    match expression_at(x, sp(x, t.1 + 1)) { None => None, Some(v) => Some((LabelledParameter { name: t.0, parameter: v.0 }, v.1)) }
  } }
}
pub open spec fn argument_f() -> Rd<LabelledParameter> { |x: Seq<char>, i: int| argument_at(x, i) }
pub open spec fn labelled_at(x: Seq<char>, i: int) -> At {
  match ident_at(x, i) { None => None, Some(t) => match tok(x, t.1, '[') { None => None, Some(j) => {
    let a = commas_at(argument_f(), x, j);
    if a.0.len() == 0 { None } else {
      match tok(x, a.1, ']') { None => None, Some(e) => Some((rc(Expr::LabelledCall(t.0, vec_of(a.0))), sp(x, e))) }
    }
  } } }
}
pub open spec fn array_at(x: Seq<char>, i: int) -> At {
  match tok(x, i, '[') { None => None, Some(j) => {
    let a = commas_at(expression_f(), x, j);
    match tok(x, a.1, ']') { None => None, Some(e) => Some((rc(Expr::ArrayLiteral(vec_of(a.0))), sp(x, e))) }
  } }
}
pub open spec fn parens_at(x: Seq<char>, i: int) -> At {
  match tok(x, i, '(') { None => None, Some(j) => match expression_at(x, j) { None => None, Some(t) =>
    match tok(x, t.1, ')') { None => None, Some(e) => Some((rc(Expr::Parenthesized(t.0)), e)) } } }
}
pub open spec fn first_of(a: At, b: At) -> At { if a is Some { a } else { b } }
#[verifier::opaque]
pub open spec fn primary_at(x: Seq<char>, i: int) -> At {
  first_of(parens_at(x, i), first_of(integer_at(x, i), first_of(string_at(x, i), first_of(call_at(x, i), first_of(labelled_at(x, i),
    first_of(array_at(x, i), first_of(bool_at(x, i), identifier_at(x, i))))))))
}
pub open spec fn primary_f() -> Rd<Rc<Expr>> { |x: Seq<char>, i: int| primary_at(x, i) }

// string literals
pub open spec fn escape_of(c: char) -> Option<char> {
  if c == '\\' || c == '/' || c == '"' { Some(c) } else if c == 'b' { Some('\x08') } else if c == 'f' { Some('\x0C') }
  else if c == 'n' { Some('\n') } else if c == 'r' { Some('\r') } else if c == 't' { Some('\t') } else { None }
}
pub open spec fn char_at(x: Seq<char>, i: int) -> Option<(char, int)> {
  if !(0 <= i < x.len()) || x[i] == '"' { None }
  else if x[i] != '\\' { Some((x[i], i + 1)) }
  else if i + 1 < x.len() { match escape_of(x[i + 1]) { Some(c) => Some((c, i + 2)), None => None } } else { None }
}
pub open spec fn char_f() -> Rd<char> { |x: Seq<char>, i: int| char_at(x, i) }
pub open spec fn hexdig(c: char) -> bool { dig(c) || ('A' <= c && c <= 'F') || ('a' <= c && c <= 'f') }
pub open spec fn hex_val(c: char) -> int { if c <= '9' { c as int - 48 } else if c <= 'F' { c as int - 55 } else { c as int - 87 } }
pub open spec fn hex(t: Seq<char>) -> int decreases t.len() { if t.len() == 0 { 0 } else { hex(t.drop_last()) * 16 + hex_val(t.last()) } }
pub open spec fn hex_text(t: Seq<char>) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> hexdig(#[trigger] t[i]) }
pub open spec fn hex_at(x: Seq<char>, i: int) -> Option<(char, int)> { if 0 <= i < x.len() && hexdig(x[i]) { Some((x[i], i + 1)) } else { None } }
pub open spec fn hex_f() -> Rd<char> { |x: Seq<char>, i: int| hex_at(x, i) }
/// \u and four hexadecimal digits
pub open spec fn unit_at(x: Seq<char>, i: int) -> Option<(u16, int)> {
  if kw(x, i, "\\u"@) && i + 6 <= x.len() && hex_text(x.subrange(i + 2, i + 6)) { Some((hex(x.subrange(i + 2, i + 6)) as u16, i + 6)) } else { None }
}
pub open spec fn unit_f() -> Rd<u16> { |x: Seq<char>, i: int| unit_at(x, i) }
/// characters and escapes, or \u escapes that are read together
pub open spec fn piece_at(x: Seq<char>, i: int) -> Option<(String, int)> {
  let m = many_at(char_f(), x, i);
  if m.0.len() > 0 { Some((str_of(m.0), m.1)) }
  else { let u = many_at(unit_f(), x, i); if u.0.len() > 0 { Some((str_of(utf16_text(u.0)), u.1)) } else { None } }
}
pub open spec fn piece_f() -> Rd<String> { |x: Seq<char>, i: int| piece_at(x, i) }
pub open spec fn concat_of(s: Seq<String>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { concat_of(s.drop_last()) + s.last()@ } }
pub open spec fn string_at(x: Seq<char>, i: int) -> At {
  if !is_at(x, i, '"') { None } else {
    let m = many_at(piece_f(), x, i + 1);
    if is_at(x, m.1, '"') { Some((rc(Expr::StringLiteral(str_of(concat_of(m.0)))), m.1 + 1)) } else { None }
  }
}

// operators: which one there is, or a text that is cut off in one
pub enum Op { Is(Operator, int), No, Cut }
pub type OpRd = spec_fn(Seq<char>, int) -> Op;
pub open spec fn op_tok(x: Seq<char>, i: int, c: char, o: Operator, other: Op) -> Op { match tok(x, i, c) { Some(e) => Op::Is(o, e), None => other } }
pub open spec fn mul_op(x: Seq<char>, i: int) -> Op { op_tok(x, i, '*', Operator::Multiply, op_tok(x, i, '/', Operator::Divide, Op::No)) }
pub open spec fn mod_op(x: Seq<char>, i: int) -> Op { op_tok(x, i, '%', Operator::Mod, Op::No) }
pub open spec fn add_op(x: Seq<char>, i: int) -> Op { op_tok(x, i, '+', Operator::Add, op_tok(x, i, '-', Operator::Subtract, Op::No)) }
pub open spec fn op_kw(x: Seq<char>, i: int, t: Seq<char>, o: Operator, other: Op) -> Op { if kw(x, sp(x, i), t) { Op::Is(o, sp(x, sp(x, i) + t.len())) } else { other } }
pub open spec fn cmp_op(x: Seq<char>, i: int) -> Op {
  op_kw(x, i, "&&"@, Operator::And, op_kw(x, i, "||"@, Operator::Or, op_kw(x, i, "<="@, Operator::LessOrEqual, op_kw(x, i, ">="@, Operator::GreaterOrEqual,
  op_kw(x, i, "<"@, Operator::LessThan, op_kw(x, i, ">"@, Operator::GreaterThan, op_kw(x, i, "!="@, Operator::NotEqual, op_kw(x, i, "=="@, Operator::EqualEqual,
    if is_at(x, sp(x, i), '=') && sp(x, i) + 1 < x.len() { Op::Cut } else { Op::No }))))))))
}
/// the words of the operators of the last level
pub open spec fn op_word(t: Seq<char>) -> bool { t == "&&"@ || t == "||"@ || t == "<="@ || t == ">="@ || t == "<"@ || t == ">"@ || t == "!="@ || t == "=="@ }
pub open spec fn op_of(t: Seq<char>) -> Operator {
  if t == "&&"@ { Operator::And } else if t == "||"@ { Operator::Or } else if t == "<="@ { Operator::LessOrEqual } else if t == ">="@ { Operator::GreaterOrEqual }
  else if t == "<"@ { Operator::LessThan } else if t == ">"@ { Operator::GreaterThan } else if t == "!="@ { Operator::NotEqual } else { Operator::EqualEqual }
}
pub open spec fn mul_f() -> OpRd { |x: Seq<char>, i: int| mul_op(x, i) }
pub open spec fn mod_f() -> OpRd { |x: Seq<char>, i: int| mod_op(x, i) }
pub open spec fn add_f() -> OpRd { |x: Seq<char>, i: int| add_op(x, i) }
pub open spec fn cmp_f() -> OpRd { |x: Seq<char>, i: int| cmp_op(x, i) }
pub open spec fn bin(o: Operator, a: Rc<Expr>, b: Rc<Expr>) -> Rc<Expr> { rc(Expr::Binary(o, a, b)) }
/// operator, operand, operator, operand .. after v, combined from the left
pub open spec fn rest_at(g: Rd<Rc<Expr>>, h: OpRd, x: Seq<char>, v: Rc<Expr>, i: int) -> At
  decreases (if i < x.len() { x.len() - i } else { 0 })
{
  match h(x, i) {
    Op::No => Some((v, i)),
    Op::Cut => None,
    Op::Is(o, j) => match g(x, j) {
      None => None,
      Some(t) => if i < t.1 <= x.len() { rest_at(g, h, x, bin(o, v, t.0), t.1) } else { None },
    },
  }
}
pub open spec fn chain_at(g: Rd<Rc<Expr>>, h: OpRd, x: Seq<char>, i: int) -> At {
  match g(x, i) { None => None, Some(t) => rest_at(g, h, x, t.0, t.1) }
}
// the levels, from the tightest
#[verifier::opaque]
pub open spec fn mul_at(x: Seq<char>, i: int) -> At { chain_at(primary_f(), mul_f(), x, i) }
pub open spec fn mul_level() -> Rd<Rc<Expr>> { |x: Seq<char>, i: int| mul_at(x, i) }
#[verifier::opaque]
pub open spec fn mod_at(x: Seq<char>, i: int) -> At { chain_at(mul_level(), mod_f(), x, i) }
pub open spec fn mod_level() -> Rd<Rc<Expr>> { |x: Seq<char>, i: int| mod_at(x, i) }
#[verifier::opaque]
pub open spec fn add_at(x: Seq<char>, i: int) -> At { chain_at(mod_level(), add_f(), x, i) }
pub open spec fn add_level() -> Rd<Rc<Expr>> { |x: Seq<char>, i: int| add_at(x, i) }
#[verifier::opaque]
pub open spec fn cmp_at(x: Seq<char>, i: int) -> At { chain_at(add_level(), cmp_f(), x, i) }

// ---- statements
#[verifier::opaque]
pub open spec fn println_at(x: Seq<char>, i: int) -> At {
  let j = sp(x, i);
  if !kw(x, j, "println"@) { None } else {
    match tok(x, j + 7, '(') { None => None, Some(k) => match expression_at(x, k) { None => None, Some(t) =>
      match tok(x, t.1, ')') { None => None, Some(l) => match tok(x, l, ';') { None => None, Some(e) => Some((rc(Expr::Println(t.0)), sp(x, e))) } } } }
  }
}
/// ( expression )
pub open spec fn condition_at(x: Seq<char>, i: int) -> At {
  match tok(x, i, '(') { None => None, Some(j) => match expression_at(x, j) { None => None, Some(t) =>
    match tok(x, t.1, ')') { None => None, Some(e) => Some((t.0, e)) } } }
}
/// the word and ( expression )
#[verifier::opaque]
pub open spec fn head_at(x: Seq<char>, i: int, t: Seq<char>) -> At { let j = sp(x, i); if kw(x, j, t) { condition_at(x, sp(x, j + t.len())) } else { None } }
#[verifier::opaque]
pub open spec fn while_at(x: Seq<char>, i: int) -> At {
  match head_at(x, i, "while"@) { None => None, Some(c) => match line_at(x, c.1) { None => None, Some(b) => Some((rc(Expr::While(c.0, b.0)), sp(x, b.1))) } }
}
/// else and a statement, if they are there
#[verifier::opaque]
pub open spec fn else_at(x: Seq<char>, i: int) -> (Option<Rc<Expr>>, int) {
  let j = sp(x, i);
  if !kw(x, j, "else"@) { (None, i) } else { match line_at(x, sp(x, j + 4)) { None => (None, i), Some(t) => (Some(t.0), t.1) } }
}
#[verifier::opaque]
pub open spec fn if_at(x: Seq<char>, i: int) -> At {
  match head_at(x, i, "if"@) { None => None, Some(c) => match line_at(x, c.1) { None => None, Some(b) => {
    let e = else_at(x, b.1);
    Some((rc(Expr::If(c.0, b.0, e.0)), sp(x, e.1)))
  } } }
}
/// the block that sets the name to `from` and then, while it is less than `to`, runs the body and adds one
pub open spec fn for_of(name: String, from: Rc<Expr>, to: Rc<Expr>, body: Rc<Expr>) -> Rc<Expr> {
  let v = rc(Expr::Symbol(name));
  let next = rc(Expr::Assignment(name, bin(Operator::Add, v, rc(Expr::IntegerLiteral(1)))));
  rc(Expr::Block(vec_of(seq![rc(Expr::Assignment(name, from)), rc(Expr::While(bin(Operator::LessThan, v, to), rc(Expr::Block(vec_of(seq![body, next])))))])))
}
/// ( name in expression to expression )
#[verifier::opaque]
pub open spec fn span_at(x: Seq<char>, i: int) -> Option<(((String, Rc<Expr>), Rc<Expr>), int)> {
  match tok(x, i, '(') { None => None, Some(k) => match ident_at(x, k) { None => None, Some(n) =>
    if !kw(x, sp(x, n.1), "in"@) { None } else { match expression_at(x, sp(x, sp(x, n.1) + 2)) { None => None, Some(a) =>
      if !kw(x, sp(x, a.1), "to"@) { None } else { match expression_at(x, sp(x, sp(x, a.1) + 2)) { None => None, Some(b) =>
        match tok(x, b.1, ')') { None => None, Some(l) => Some((((n.0, a.0), b.0), l)) } } } } } } }
}
#[verifier::opaque]
pub open spec fn for_at(x: Seq<char>, i: int) -> At {
  let j = sp(x, i);
  if !kw(x, j, "for"@) { None } else { match span_at(x, sp(x, j + 3)) { None => None, Some(h) => match line_at(x, h.1) { None => None, Some(s) =>
    Some((for_of(h.0.0.0, h.0.0.1, h.0.1, s.0), sp(x, s.1))) } } }
}
#[verifier::opaque]
pub open spec fn assignment_at(x: Seq<char>, i: int) -> At {
  match ident_at(x, i) { None => None, Some(n) => match tok(x, n.1, '=') { None => None, Some(j) => match expression_at(x, j) { None => None, Some(t) =>
    match tok(x, t.1, ';') { None => None, Some(e) => Some((rc(Expr::Assignment(n.0, t.0)), sp(x, e))) } } } }
}
#[verifier::opaque]
pub open spec fn statement_at(x: Seq<char>, i: int) -> At {
  match expression_at(x, i) { None => None, Some(t) => match tok(x, t.1, ';') { None => None, Some(e) => Some((t.0, e)) } }
}
#[verifier::opaque]
pub open spec fn block_at(x: Seq<char>, i: int) -> At {
  match tok(x, i, '{') { None => None, Some(j) => {
    let m = many_at(line_f(), x, j);
    match tok(x, m.1, '}') { None => None, Some(e) => Some((rc(Expr::Block(vec_of(m.0))), sp(x, e))) }
  } }
}
pub open spec fn any_line_at(x: Seq<char>, j: int) -> At {
  first_of(println_at(x, j), first_of(while_at(x, j), first_of(if_at(x, j), first_of(for_at(x, j), first_of(assignment_at(x, j), first_of(statement_at(x, j), block_at(x, j)))))))
}
#[verifier::opaque]
pub open spec fn line_is(x: Seq<char>, i: int) -> At {
  match any_line_at(x, sp(x, i)) { None => None, Some(t) => Some((t.0, sp(x, t.1))) }
}

// ---- programs
#[verifier::opaque]
pub open spec fn global_at(x: Seq<char>, i: int) -> At {
  match named_at(x, i, "global"@) { None => None, Some(n) => match tok(x, n.1, '=') { None => None, Some(k) => match expression_at(x, k) { None => None, Some(t) =>
    match tok(x, t.1, ';') { None => None, Some(e) => Some((rc(Expr::GlobalVariableDefinition(n.0, t.0)), sp(x, e))) } } } }
}
#[verifier::opaque]
pub open spec fn function_at(x: Seq<char>, i: int) -> At {
  match named_at(x, i, "fn"@) { None => None, Some(n) => match names_at(x, n.1) { None => None, Some(a) => match block_at(x, a.1) { None => None, Some(b) =>
    Some((rc(Expr::FunctionDefinition(n.0, a.0, b.0)), sp(x, b.1))) } } }
}
pub open spec fn definition_at(x: Seq<char>, i: int) -> At { first_of(global_at(x, i), function_at(x, i)) }
pub open spec fn definition_f() -> Rd<Rc<Expr>> { |x: Seq<char>, i: int| definition_at(x, i) }
/// as many definitions as there are; the rest of the text is left
pub open spec fn program_at(x: Seq<char>, i: int) -> (Rc<Expr>, int) { let m = many_at(definition_f(), x, sp(x, i)); (rc(Expr::Program(vec_of(m.0))), m.1) }

// ---- ASSUMED: std and the regex crate, as far as they are used
pub uninterp spec fn vec_of<A>(s: Seq<A>) -> Vec<A>;
pub uninterp spec fn str_of(s: Seq<char>) -> String;
/// where the match of the pattern at index i ends
pub uninterp spec fn regex_end(pattern: Seq<char>, x: Seq<char>, i: int) -> Option<int>;
/// what `\d` matches
pub uninterp spec fn any_digit(c: char) -> bool;
pub open spec fn digits_end(x: Seq<char>, i: int) -> int
  decreases (if i < x.len() { x.len() - i } else { 0 })
{
  if 0 <= i < x.len() && any_digit(x[i]) { digits_end(x, i + 1) } else { i }
}
/// an optional minus and digits
pub open spec fn number_end(x: Seq<char>, i: int) -> Option<int> {
  let j = if is_at(x, i, '-') { i + 1 } else { i };
  if 0 <= j < x.len() && any_digit(x[j]) { Some(digits_end(x, j + 1)) } else { None }
}
pub open spec fn dec(t: Seq<char>) -> int decreases t.len() { if t.len() == 0 { 0 } else { dec(t.drop_last()) * 10 + (t.last() as int - 48) } }
pub open spec fn dec_text(t: Seq<char>) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> dig(#[trigger] t[i]) }
/// the decimal value, if it fits
pub open spec fn int_of(t: Seq<char>) -> Option<i64> {
  let neg = t.len() > 0 && t[0] == '-';
  let u = if neg { t.skip(1) } else { t };
  if !dec_text(u) { None } else { let n = if neg { -dec(u) } else { dec(u) }; if i64::MIN <= n <= i64::MAX { Some(n as i64) } else { None } }
}
pub struct VxParseError { x: u8 }
pub trait VxFromStr: Sized { spec fn from_text(t: Seq<char>, r: Result<Self, VxParseError>) -> bool; }
impl VxFromStr for i64 {
  open spec fn from_text(t: Seq<char>, r: Result<i64, VxParseError>) -> bool {
    (t.len() > 0 && t[0] != '+') ==> match int_of(t) { Some(n) => r == Ok::<i64, VxParseError>(n), None => r is Err }
  }
}
pub trait VxParse { spec fn whole(&self) -> Seq<char>; fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, VxParseError>) ensures T::from_text(self.whole(), r); }
impl VxParse for String {
  open spec fn whole(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn vx_parse<T: VxFromStr>(&self) -> Result<T, VxParseError> { unimplemented!() }
}
pub trait VxToString { fn vx_to_string(&self) -> (r: String) ensures r == self.same(); spec fn same(&self) -> String; }
impl VxToString for String {
  open spec fn same(&self) -> String { *self }
  #[verifier::external_body]
  fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_from_iter(v: Vec<char>) -> (r: String) ensures r == str_of(v@), r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_u16_radix(t: &str, radix: u32) -> (r: Result<u16, VxParseError>)
  ensures radix == 16 && hex_text(t@) && hex(t@) <= 65535 ==> r == Ok::<u16, VxParseError>(hex(t@) as u16)
{ unimplemented!() }
pub trait VxIsDigit { fn vx_is_digit(&self, radix: u32) -> (r: bool) ensures radix == 16 ==> r == hexdig(self.it()); spec fn it(&self) -> char; }
impl VxIsDigit for char {
  open spec fn it(&self) -> char { *self }
  #[verifier::external_body]
  fn vx_is_digit(&self, radix: u32) -> (r: bool) { unimplemented!() }
}
pub trait VxConcat { fn vx_concat(&self) -> (r: String) ensures r == str_of(concat_of(self.all())); spec fn all(&self) -> Seq<String>; }
impl VxConcat for Vec<String> {
  open spec fn all(&self) -> Seq<String> { self@ }
  #[verifier::external_body]
  fn vx_concat(&self) -> (r: String) { unimplemented!() }
}
// UTF-16: a unit outside the surrogates is its character, a high surrogate with a low one behind it is one character, any other is an error
pub struct VxUtf16Error { pub x: u8 }
pub open spec fn code(c: char) -> int { c as u32 as int }
pub open spec fn char_of(n: int) -> char { choose|c: char| #[trigger] code(c) == n }
pub open spec fn utf16(u: Seq<u16>) -> Seq<Result<char, VxUtf16Error>> decreases u.len() {
  if u.len() == 0 { Seq::empty() }
  else if u[0] < 0xD800 || 0xDFFF < u[0] { seq![Ok::<char, VxUtf16Error>(char_of(u[0] as int))] + utf16(u.skip(1)) }
  else if u[0] < 0xDC00 && u.len() > 1 && 0xDC00 <= u[1] && u[1] <= 0xDFFF { seq![Ok::<char, VxUtf16Error>(char_of(0x10000 + (u[0] - 0xD800) * 0x400 + (u[1] - 0xDC00)))] + utf16(u.skip(2)) }
  else { seq![Err::<char, VxUtf16Error>(VxUtf16Error { x: 0 })] + utf16(u.skip(1)) }
}
/// .. and an error is read as U+FFFD
pub open spec fn utf16_text(u: Seq<u16>) -> Seq<char> { Seq::new(utf16(u).len(), |i: int| match utf16(u)[i] { Ok(c) => c, Err(_) => '\u{FFFD}' }) }
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](r: Result<T, E>, d: T) -> (v: T)
  ensures v == match r { Ok(t) => t, Err(_) => d };
pub const REPLACEMENT_CHARACTER: char = '\u{FFFD}';
#[verifier::external_body]
pub struct VxUtf16 { x: u8 }
#[verifier::external_body]
pub struct VxChars { x: u8 }
impl VxUtf16 {
  pub uninterp spec fn seq(&self) -> Seq<Result<char, VxUtf16Error>>;
  #[verifier::external_body]
  pub fn map<F: Fn(Result<char, VxUtf16Error>) -> char>(self, f: F) -> (r: VxChars)
    requires forall|x: Result<char, VxUtf16Error>| #[trigger] f.requires((x,))
    ensures r.seq().len() == self.seq().len(), forall|i: int| 0 <= i < self.seq().len() ==> f.ensures((self.seq()[i],), #[trigger] r.seq()[i])
  { unimplemented!() }
}
impl VxChars {
  pub uninterp spec fn seq(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn collect<T: VxFromChars>(self) -> (r: T) ensures r.is_text(self.seq()) { unimplemented!() }
}
pub trait VxFromChars: Sized { spec fn is_text(&self, s: Seq<char>) -> bool; }
impl VxFromChars for String { open spec fn is_text(&self, s: Seq<char>) -> bool { *self == str_of(s) } }
#[verifier::external_body]
pub fn decode_utf16(u: Vec<u16>) -> (r: VxUtf16) ensures r.seq() == utf16(u@) { unimplemented!() }

/// ASSUMED: a function value is the function
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct VxFn0<R> { f: Rc<dyn Fn() -> R> }
#[verifier::external]
impl<R> FnOnce<()> for VxFn0<R> { type Output = R; extern "rust-call" fn call_once(self, a: ()) -> R { (self.f)() } }
#[verifier::external]
impl<R> FnMut<()> for VxFn0<R> { extern "rust-call" fn call_mut(&mut self, a: ()) -> R { (self.f)() } }
#[verifier::external]
impl<R> Fn<()> for VxFn0<R> { extern "rust-call" fn call(&self, a: ()) -> R { (self.f)() } }
impl<R> Clone for VxFn0<R> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_fn0<R, F: Fn() -> R>(f: F) -> (r: VxFn0<R>)
  ensures f.requires(()) ==> r.requires(()), forall|c: R| #[trigger] r.ensures((), c) ==> f.ensures((), c)
{ unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct VxFn2<A> { f: Rc<dyn Fn(A, A) -> A> }
#[verifier::external]
impl<A> FnOnce<(A, A)> for VxFn2<A> { type Output = A; extern "rust-call" fn call_once(self, a: (A, A)) -> A { (self.f)(a.0, a.1) } }
#[verifier::external]
impl<A> FnMut<(A, A)> for VxFn2<A> { extern "rust-call" fn call_mut(&mut self, a: (A, A)) -> A { (self.f)(a.0, a.1) } }
#[verifier::external]
impl<A> Fn<(A, A)> for VxFn2<A> { extern "rust-call" fn call(&self, a: (A, A)) -> A { (self.f)(a.0, a.1) } }
impl<A> Clone for VxFn2<A> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_fn2<A, F: Fn(A, A) -> A>(f: F) -> (r: VxFn2<A>)
  ensures forall|a: A, b: A, c: A| #[trigger] r.ensures((a, b), c) ==> f.ensures((a, b), c)
{ unimplemented!() }
pub open spec fn op_is(f: VxFn2<Rc<Expr>>, o: Operator) -> bool {
  forall|a: Rc<Expr>, b: Rc<Expr>, c: Rc<Expr>| #[trigger] f.ensures((a, b), c) ==> c == bin(o, a, b)
}
pub open spec fn op_gives<'a>(o: Op, s: ParseState<'a, char>, r: ParseResult<'a, char, VxFn2<Rc<Expr>>>) -> bool {
  match o {
    Op::Is(f, e) => r is Success && r->length == e - s.offset && s.offset < e && op_is(r->value, f),
    Op::No => unc(r),
    Op::Cut => r is Failure && !unc(r),
  }
}
pub open spec fn op_reads<'a>(p: Parser<'a, char, VxFn2<Rc<Expr>>>, h: OpRd) -> bool {
  forall|s: ParseState<'a, char>, r: ParseResult<'a, char, VxFn2<Rc<Expr>>>| #[trigger] p.post(s, r) ==> op_gives(h(s.input@, s.offset as int), s, r)
}
pub open spec fn op_hint(g: Rd<Rc<Expr>>, h: OpRd) -> bool { true }
impl Clone for Expr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for LabelledParameter { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

pub mod vx_toysgram {
use super::*;
pub broadcast axiom fn axiom_char_eq(a: char, b: char)
  ensures #[trigger] eqv(a, b) == (a == b);
pub axiom fn lemma_chars()
  ensures char::obeys_eq_spec(), ops_total::<Rc<Expr>, VxFn2<Rc<Expr>>>();
pub broadcast axiom fn axiom_vec<A>(v: Vec<A>)
  ensures #[trigger] vec_of(v@) == v;
pub broadcast axiom fn axiom_str(v: String)
  ensures #[trigger] str_of(v@) == v;
pub axiom fn axiom_lit(a: &str, b: &str)
  requires a@ == b@
  ensures a == b;
// the two equations of the recursion
pub broadcast axiom fn axiom_expression(x: Seq<char>, i: int)
  ensures #[trigger] expression_at(x, i) == cmp_at(x, i);
pub broadcast axiom fn axiom_line(x: Seq<char>, i: int)
  ensures #[trigger] line_at(x, i) == line_is(x, i);
// the two patterns of the grammar
pub broadcast axiom fn axiom_name_pattern(x: Seq<char>, i: int)
  ensures #[trigger] regex_end("[a-zA-Z_][a-zA-Z0-9_]*"@, x, i) == if 0 <= i < x.len() && letter(x[i]) { Some(word_end(x, i + 1)) } else { None };
pub broadcast axiom fn axiom_number_pattern(x: Seq<char>, i: int)
  ensures #[trigger] regex_end("^-?\\d+"@, x, i) == number_end(x, i);
pub broadcast axiom fn axiom_digit(c: char)
  ensures dig(c) ==> #[trigger] any_digit(c), c <= '\x7F' && any_digit(c) ==> dig(c);

pub broadcast proof fn lemma_sp(x: Seq<char>, i: int)
  requires 0 <= i <= x.len()
  ensures i <= #[trigger] sp(x, i) <= x.len(), sp(x, sp(x, i)) == sp(x, i), sp(x, i) < x.len() ==> !blank(x[sp(x, i)])
  decreases x.len() - i
{ if i < x.len() && blank(x[i]) { lemma_sp(x, i + 1); } }
pub broadcast proof fn lemma_word(x: Seq<char>, i: int)
  requires 0 <= i <= x.len()
  ensures i <= #[trigger] word_end(x, i) <= x.len()
  decreases x.len() - i
{ if i < x.len() && (letter(x[i]) || dig(x[i])) { lemma_word(x, i + 1); } }
pub broadcast proof fn lemma_digits(x: Seq<char>, i: int)
  requires 0 <= i <= x.len()
  ensures i <= #[trigger] digits_end(x, i) <= x.len()
  decreases x.len() - i
{ if i < x.len() && any_digit(x[i]) { lemma_digits(x, i + 1); } }
pub broadcast proof fn lemma_number(x: Seq<char>, i: int)
  requires 0 <= i <= x.len()
  ensures match #[trigger] number_end(x, i) { Some(e) => i < e <= x.len() && x.subrange(i, e).len() > 0 && x.subrange(i, e)[0] != '+', None => true }
{
  broadcast use {axiom_digit, lemma_digits};
  match number_end(x, i) { Some(e) => { assert(x.subrange(i, e)[0] == x[i]); }, None => { } }
}
/// what begins with a bracket is nothing else
pub broadcast proof fn lemma_starts(x: Seq<char>, i: int)
  requires 0 <= i <= x.len()
  ensures is_at(x, sp(x, i), '(') ==> #[trigger] primary_at(x, i) == parens_at(x, i), is_at(x, sp(x, i), '[') ==> primary_at(x, i) == array_at(x, i)
{
  broadcast use {axiom_digit, lemma_sp};
  reveal(primary_at);
  lemma_bools();
  let j = sp(x, i);
  if is_at(x, j, '(') || is_at(x, j, '[') {
    if kw(x, j, "true"@) { assert(x.subrange(j, j + 4)[0] == x[j]); }
    if kw(x, j, "false"@) { assert(x.subrange(j, j + 5)[0] == x[j]); }
    assert(!is_at(x, i, '"'));
  }
}
pub broadcast proof fn lemma_kw_first(x: Seq<char>, i: int, t: Seq<char>)
  ensures #[trigger] kw(x, i, t) && t.len() > 0 ==> is_at(x, i, t[0])
{ if kw(x, i, t) && t.len() > 0 { assert(x.subrange(i, i + t.len())[0] == t[0]); } }
/// a literal is there, or the parser fails; it fails for good only behind its first character
pub broadcast proof fn lemma_tag<'a, B>(a: Seq<char>, s: ParseState<'a, char>, r: ParseResult<'a, char, B>)
  requires s.wf(), a.len() > 0
  ensures #[trigger] tag_post(a, s, r) ==> (if kw(s.input@, s.offset as int, a) { r is Success && r->length == a.len() } else { r is Failure && (!unc(r) ==> is_at(s.input@, s.offset as int, a[0]))
      && (a.len() == 2 && is_at(s.input@, s.offset as int, a[0]) && s.offset + 1 < s.input@.len() ==> !unc(r)) && (a.len() == 2 && s.offset + 1 == s.input@.len() ==> unc(r)) })
{
  reveal(tag_post);
  let x = s.input@; let o = s.offset as int;
  if tag_post(a, s, r) {
    if kw(x, o, a) {
      assert forall|j: int| 0 <= j < a.len() implies #[trigger] a[j] == rest(s)[j] by { assert(x.subrange(o, o + a.len())[j] == a[j]); }
    } else if a.len() <= rem(s) && forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] == rest(s)[j] {
      assert forall|j: int| 0 <= j < a.len() implies x.subrange(o, o + a.len())[j] == a[j] by { assert(a[j] == rest(s)[j]); }
      assert(x.subrange(o, o + a.len()) =~= a);
    }
    if !kw(x, o, a) && a.len() == 2 && is_at(x, o, a[0]) && o + 1 < x.len() {
      if a[1] == rest(s)[1] { assert(x.subrange(o, o + 2) =~= a); }
    }
  }
}
proof fn lemma_many_items<'a, A>(p: Parser<'a, char, A>, sep: Option<Parser<'a, char, ()>>, g: Rd<A>, s: ParseState<'a, char>, items: Seq<A>, n: int)
  requires reads(p, g), sep is None, items_at(p, sep, s, items, n), s.wf()
  ensures 0 <= n, s.offset + n <= s.input@.len(), ({ let m = many_at(g, s.input@, s.offset + n); many_at(g, s.input@, s.offset as int) == (items + m.0, m.1) })
  decreases items.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  let x = s.input@;
  if items.len() == 0 { let m = many_at(g, x, s.offset as int); assert(items + m.0 =~= m.0); }
  else if items.len() == 1 { assert(takes(p, s, items[0], n)); assert(items =~= seq![items[0]]); }
  else {
    let m = choose|m: int| #[trigger] mark(m) && items_at(p, sep, s, items.drop_last(), m) && takes(p, adv(s, m), items.last(), n - m);
    lemma_many_items(p, sep, g, s, items.drop_last(), m);
    assert(adv(s, m).offset == s.offset + m);
    assert(g(x, s.offset + m) == Some((items.last(), s.offset + n)));
    let k = many_at(g, x, s.offset + n);
    assert(items.drop_last() + (seq![items.last()] + k.0) =~= items + k.0);
  }
}
proof fn lemma_many_len<A>(g: Rd<A>, x: Seq<char>, i: int)
  ensures many_at(g, x, i).1 >= i, many_at(g, x, i).0.len() > 0 ==> many_at(g, x, i).1 > i
  decreases (if i < x.len() { x.len() - i } else { 0 })
{ match g(x, i) { Some(t) => { if i < t.1 <= x.len() { lemma_many_len(g, x, t.1); } }, None => { } } }
/// a repetition reads as many items as there are, in order
pub broadcast proof fn lemma_many<'a, A>(p: Parser<'a, char, A>, sep: Option<Parser<'a, char, ()>>, g: Rd<A>, s: ParseState<'a, char>, items: Seq<A>, total: int)
  requires #[trigger] hint(g), reads(p, g), sep is None, #[trigger] rep_end(p, None, sep, s, items, total), s.wf()
  ensures many_at(g, s.input@, s.offset as int) == (items, s.offset + total), 0 <= total, items.len() > 0 ==> 0 < total, s.offset + total <= s.input@.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(rep_end);
  let n = choose|n: int| #[trigger] items_at(p, sep, s, items, n) && stops_at(p, sep, None, adv(s, n), items.len() as int, n, total);
  lemma_many_items(p, sep, g, s, items, n);
  let m = many_at(g, s.input@, s.offset + n);
  assert(items + m.0 =~= items);
  lemma_many_len(g, s.input@, s.offset as int);
}
pub open spec fn blank_f() -> Rd<char> { |x: Seq<char>, i: int| if 0 <= i < x.len() && blank(x[i]) { Some((x[i], i + 1)) } else { None } }
pub broadcast proof fn lemma_blanks(x: Seq<char>, i: int)
  requires 0 <= i <= x.len()
  ensures (#[trigger] many_at(blank_f(), x, i)).1 == sp(x, i)
  decreases x.len() - i
{ if i < x.len() && blank(x[i]) { lemma_blanks(x, i + 1); } }
pub proof fn lemma_blank_set()
  ensures forall|c: char| #[trigger] " \t\r\n"@.contains(c) == blank(c)
{
  reveal_strlit(" \t\r\n");
  assert forall|c: char| #[trigger] " \t\r\n"@.contains(c) == blank(c) by {
    let t = " \t\r\n"@; assert(t[0] == ' '); assert(t[1] == '\t'); assert(t[2] == '\r'); assert(t[3] == '\n');
  }
}
pub broadcast proof fn lemma_one(x: Seq<char>, i: int, t: Seq<char>)
  requires t.len() == 1
  ensures #[trigger] kw(x, i, t) == is_at(x, i, t[0])
{ if is_at(x, i, t[0]) { assert(x.subrange(i, i + 1) =~= t); } else if kw(x, i, t) { assert(x.subrange(i, i + 1)[0] == t[0]); } }
pub proof fn lemma_marks()
  ensures "["@.len() == 1, "["@[0] == '[', "]"@.len() == 1, "]"@[0] == ']', "{"@.len() == 1, "{"@[0] == '{', "}"@.len() == 1, "}"@[0] == '}', "("@.len() == 1, "("@[0] == '(', ")"@.len() == 1, ")"@[0] == ')', ","@.len() == 1, ","@[0] == ',', ";"@.len() == 1, ";"@[0] == ';', "="@.len() == 1, "="@[0] == '='
{
  reveal_strlit("["); reveal_strlit("]"); reveal_strlit("{"); reveal_strlit("}"); reveal_strlit("("); reveal_strlit(")"); reveal_strlit(","); reveal_strlit(";"); reveal_strlit("=");
  assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']); assert("{"@ =~= seq!['{']); assert("}"@ =~= seq!['}']); assert("("@ =~= seq!['(']); assert(")"@ =~= seq![')']); assert(","@ =~= seq![',']); assert(";"@ =~= seq![';']); assert("="@ =~= seq!['=']);
}
pub proof fn lemma_quoted_set()
  ensures "\\u"@.len() == 2, "\\u"@[0] == '\\', "\\u"@[1] == 'u', forall|c: char| #[trigger] "\\\""@.contains(c) == (c == '\\' || c == '"')
{
  reveal_strlit("\\\""); reveal_strlit("\\u");
  assert("\\u"@ =~= seq!['\\', 'u']);
  assert forall|c: char| #[trigger] "\\\""@.contains(c) == (c == '\\' || c == '"') by { let t = "\\\""@; assert(t[0] == '\\'); assert(t[1] == '"'); }
}
proof fn lemma_hex_items<'a>(p: Parser<'a, char, char>, sep: Option<Parser<'a, char, ()>>, s: ParseState<'a, char>, items: Seq<char>, n: int)
  requires reads(p, hex_f()), sep is None, items_at(p, sep, s, items, n), s.wf()
  ensures n == items.len(), s.offset + n <= s.input@.len(), items =~= s.input@.subrange(s.offset as int, s.offset + n), forall|j: int| 0 <= j < n ==> hexdig(#[trigger] s.input@[s.offset + j])
  decreases items.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  let x = s.input@;
  if items.len() == 1 { assert(takes(p, s, items[0], n)); assert(hex_f()(x, s.offset as int) is Some); }
  else if items.len() > 1 {
    let m = choose|m: int| #[trigger] mark(m) && items_at(p, sep, s, items.drop_last(), m) && takes(p, adv(s, m), items.last(), n - m);
    lemma_hex_items(p, sep, s, items.drop_last(), m);
    assert(adv(s, m).offset == s.offset + m);
    assert(hex_f()(x, s.offset + m) is Some);
    assert forall|j: int| 0 <= j < n implies items[j] == x.subrange(s.offset as int, s.offset + n)[j] by {
      if j < m { assert(items.drop_last()[j] == x.subrange(s.offset as int, s.offset + m)[j]); }
    }
    assert forall|j: int| 0 <= j < n implies hexdig(#[trigger] x[s.offset + j]) by { if j == m { } }
  }
}
/// four hexadecimal digits, or fewer when there are not four
pub broadcast proof fn lemma_hex<'a>(p: Parser<'a, char, char>, sep: Option<Parser<'a, char, ()>>, s: ParseState<'a, char>, items: Seq<char>, total: int)
  requires #[trigger] hint(hex_f()), reads(p, hex_f()), sep is None, #[trigger] rep_end(p, Some(4int), sep, s, items, total), s.wf()
  ensures items.len() < 4 ==> !(s.offset + 4 <= s.input@.len() && hex_text(s.input@.subrange(s.offset as int, s.offset + 4))),
    items.len() >= 4 ==> total == 4 && s.offset + 4 <= s.input@.len() && items == s.input@.subrange(s.offset as int, s.offset + 4) && hex_text(items) && 0 <= hex(items) <= 65535
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  reveal(rep_end);
  let x = s.input@; let o = s.offset as int;
  let n = choose|n: int| #[trigger] items_at(p, sep, s, items, n) && stops_at(p, sep, Some(4int), adv(s, n), items.len() as int, n, total);
  lemma_hex_items(p, sep, s, items, n);
  if items.len() < 4 {
    assert(adv(s, n).offset == o + n);
    if o + 4 <= x.len() && hex_text(x.subrange(o, o + 4)) { assert(x.subrange(o, o + 4)[n] == x[o + n]); }
  } else {
    assert(items =~= x.subrange(o, o + 4));
    assert forall|j: int| 0 <= j < 4 implies hexdig(#[trigger] items[j]) by { assert(hexdig(x[o + j])); }
    reveal_with_fuel(hex, 5);
    let a = items.drop_last(); let b = a.drop_last(); let c = b.drop_last();
    assert(items.last() == items[3] && a.last() == items[2] && b.last() == items[1] && c.last() == items[0]);
    assert(c.drop_last().len() == 0);
  }
}
pub broadcast proof fn lemma_utf16(u: Seq<u16>, t: Seq<char>)
  requires t.len() == utf16(u).len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == match utf16(u)[i] { Ok(c) => c, Err(_) => '\u{FFFD}' }
  ensures #[trigger] str_of(t) == str_of(#[trigger] utf16_text(u))
{ assert(t =~= utf16_text(u)); }
/// the words of the operators, all different
pub proof fn lemma_ops()
  ensures "&&"@.len() == 2, "&&"@[0] == '&', "&&"@[1] == '&', "||"@.len() == 2, "||"@[0] == '|', "||"@[1] == '|', "<="@.len() == 2, "<="@[0] == '<', "<="@[1] == '=', ">="@.len() == 2, ">="@[0] == '>', ">="@[1] == '=', "<"@.len() == 1, "<"@[0] == '<', ">"@.len() == 1, ">"@[0] == '>', "=="@.len() == 2, "=="@[0] == '=', "=="@[1] == '=', "!="@.len() == 2, "!="@[0] == '!', "!="@[1] == '=',
    forall|a: &str, b: &str| #[trigger] a@ == #[trigger] b@ ==> a == b
{
  reveal_strlit("&&"); reveal_strlit("||"); reveal_strlit("<="); reveal_strlit(">="); reveal_strlit("<"); reveal_strlit(">"); reveal_strlit("=="); reveal_strlit("!=");
  assert("&&"@ =~= seq!['&', '&']); assert("||"@ =~= seq!['|', '|']); assert("<="@ =~= seq!['<', '=']); assert(">="@ =~= seq!['>', '=']);
  assert("<"@ =~= seq!['<']); assert(">"@ =~= seq!['>']); assert("=="@ =~= seq!['=', '=']); assert("!="@ =~= seq!['!', '=']);
  assert forall|a: &str, b: &str| #[trigger] a@ == #[trigger] b@ implies a == b by { axiom_lit(a, b); }
}
pub proof fn lemma_defs()
  ensures "global"@.len() == 6, "global"@[0] == 'g', "global"@[1] == 'l', "fn"@.len() == 2, "fn"@[0] == 'f', "fn"@[1] == 'n'
{
  reveal_strlit("global"); reveal_strlit("fn");
  assert("global"@ =~= seq!['g', 'l', 'o', 'b', 'a', 'l']); assert("fn"@ =~= seq!['f', 'n']);
}
pub broadcast proof fn lemma_global_sp(x: Seq<char>, i: int)
  requires 0 <= i <= x.len()
  ensures #[trigger] global_at(x, sp(x, i)) == global_at(x, i), match global_at(x, i) { Some(t) => sp(x, t.1) == t.1, None => true }
{ broadcast use lemma_sp; reveal(global_at); reveal(named_at); }
pub broadcast proof fn lemma_function_sp(x: Seq<char>, i: int)
  requires 0 <= i <= x.len()
  ensures #[trigger] function_at(x, sp(x, i)) == function_at(x, i), match function_at(x, i) { Some(t) => sp(x, t.1) == t.1, None => true }
{ broadcast use lemma_sp; reveal(function_at); reveal(named_at); }
pub broadcast proof fn lemma_named(x: Seq<char>, i: int, t: Seq<char>)
  ensures #[trigger] named_at(x, i, t) is Some && t.len() > 0 ==> is_at(x, sp(x, i), t[0])
{ broadcast use lemma_kw_first; reveal(named_at); }
pub broadcast proof fn lemma_while_sp(x: Seq<char>, i: int)
  requires 0 <= i <= x.len()
  ensures #[trigger] while_at(x, sp(x, i)) == while_at(x, i), match while_at(x, i) { Some(t) => sp(x, t.1) == t.1, None => true }
{ broadcast use lemma_sp; reveal(while_at); reveal(head_at); }
pub broadcast proof fn lemma_if_sp(x: Seq<char>, i: int)
  requires 0 <= i <= x.len()
  ensures #[trigger] if_at(x, sp(x, i)) == if_at(x, i), match if_at(x, i) { Some(t) => sp(x, t.1) == t.1, None => true }
{ broadcast use lemma_sp; reveal(if_at); reveal(head_at); }
pub broadcast proof fn lemma_for_sp(x: Seq<char>, i: int)
  requires 0 <= i <= x.len()
  ensures #[trigger] for_at(x, sp(x, i)) == for_at(x, i), match for_at(x, i) { Some(t) => sp(x, t.1) == t.1, None => true }
{ broadcast use lemma_sp; reveal(for_at); }
pub broadcast proof fn lemma_vec_is<A>(v: Vec<A>, t: Seq<A>)
  requires v@ =~= t
  ensures #[trigger] vec_of(t) == v, #[trigger] v@ == t
{ broadcast use axiom_vec; }
pub proof fn lemma_words()
  ensures "println"@.len() == 7, "while"@.len() == 5, "if"@.len() == 2, "else"@.len() == 4, "for"@.len() == 3, "in"@.len() == 2, "to"@.len() == 2
{ reveal_strlit("println"); reveal_strlit("while"); reveal_strlit("if"); reveal_strlit("else"); reveal_strlit("for"); reveal_strlit("in"); reveal_strlit("to"); }
pub proof fn lemma_bools()
  ensures "true"@.len() == 4, "true"@[0] == 't', "true"@[1] == 'r', "false"@.len() == 5, "false"@[0] == 'f', "false"@[1] == 'a', forall|a: &str, b: &str| #[trigger] a@ == #[trigger] b@ ==> a == b
{
  reveal_strlit("true"); reveal_strlit("false");
  assert("true"@ =~= seq!['t', 'r', 'u', 'e']); assert("false"@ =~= seq!['f', 'a', 'l', 's', 'e']);
  assert forall|a: &str, b: &str| #[trigger] a@ == #[trigger] b@ implies a == b by { axiom_lit(a, b); }
}
/// q takes a comma with the blanks around it
pub open spec fn is_comma<'a>(q: Parser<'a, char, String>) -> bool {
  forall|s: ParseState<'a, char>, r: ParseResult<'a, char, String>| #[trigger] q.post(s, r) ==> ends(tok(s.input@, s.offset as int, ','), s, r)
}
proof fn lemma_commas_items<'a, A>(p: Parser<'a, char, A>, q: Parser<'a, char, String>, g: Rd<A>, s: ParseState<'a, char>, items: Seq<A>, n: int)
  requires reads(p, g), is_comma(q), items_at(p, Some(q), s, items, n), items.len() >= 1, s.wf()
  ensures g(s.input@, s.offset as int) is Some, (g(s.input@, s.offset as int)->0).0 == items[0], 0 <= n, s.offset + n <= s.input@.len(),
    ({ let e = (g(s.input@, s.offset as int)->0).1; let m = more_at(g, s.input@, s.offset + n); more_at(g, s.input@, e) == (items.skip(1) + m.0, m.1) })
  decreases items.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  reveal(items_at);
  let x = s.input@;
  if items.len() == 1 {
    assert(takes(p, s, items[0], n));
    assert(items.skip(1) =~= Seq::<A>::empty());
    let m = more_at(g, x, s.offset + n);
    assert(Seq::<A>::empty() + m.0 =~= m.0);
  } else {
    let m = choose|m: int| #[trigger] mark(m) && items_at(p, Some(q), s, items.drop_last(), m) && exists|rq: ParseResult<'a, char, String>| #[trigger] q.post(adv(s, m), rq) && rq is Success
        && takes(p, adv(adv(s, m), rq->length as int), items.last(), n - m - rq->length);
    lemma_commas_items(p, q, g, s, items.drop_last(), m);
    let rq = choose|rq: ParseResult<'a, char, String>| #[trigger] q.post(adv(s, m), rq) && rq is Success
        && takes(p, adv(adv(s, m), rq->length as int), items.last(), n - m - rq->length);
    let j = s.offset + m + rq->length;
    assert(tok(x, s.offset + m, ',') == Some(j));
    assert(g(x, j) == Some((items.last(), s.offset + n)));
    let k = more_at(g, x, s.offset + n);
    assert(more_at(g, x, s.offset + m) == (seq![items.last()] + k.0, k.1));
    assert(items.drop_last().skip(1) + (seq![items.last()] + k.0) =~= items.skip(1) + k.0);
  }
}
/// a repetition with commas reads what `commas_at` says
pub broadcast proof fn lemma_commas<'a, A>(p: Parser<'a, char, A>, q: Parser<'a, char, String>, g: Rd<A>, s: ParseState<'a, char>, items: Seq<A>, total: int)
  requires #[trigger] hint(g), reads(p, g), is_comma(q), #[trigger] rep_end(p, None, Some(q), s, items, total), s.wf()
  ensures commas_at(g, s.input@, s.offset as int) == (items, s.offset + total), 0 <= total, s.offset + total <= s.input@.len()
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  broadcast use lemma_sp;
  reveal(items_at);
  reveal(rep_end);
  let x = s.input@;
  let n = choose|n: int| #[trigger] items_at(p, Some(q), s, items, n) && stops_at(p, Some(q), None, adv(s, n), items.len() as int, n, total);
  if items.len() >= 1 {
    lemma_commas_items(p, q, g, s, items, n);
    let m = more_at(g, x, s.offset + n);
    assert(m.0 =~= Seq::<A>::empty() && m.1 == s.offset + total);
    assert(items =~= seq![items[0]] + (items.skip(1) + m.0));
  } else { assert(items =~= Seq::<A>::empty()); }
}
proof fn lemma_rest<'a>(d: nat, p: Parser<'a, char, Rc<Expr>>, op: Parser<'a, char, VxFn2<Rc<Expr>>>, g: Rd<Rc<Expr>>, h: OpRd, v: Rc<Expr>, s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>)
  requires reads(p, g), op_reads(op, h), left_step(d, p, op, v, s, r), s.wf()
  ensures match h(s.input@, s.offset as int) {
    Op::No => unc(r),
    _ => match rest_at(g, h, s.input@, v, s.offset as int) { None => r is Failure && !unc(r), Some(t) => ok(r, t.0, t.1 - s.offset) && s.offset < t.1 <= s.input@.len() },
  }
  decreases d
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  let x = s.input@;
  let ro = choose|ro: ParseResult<'a, char, VxFn2<Rc<Expr>>>| #[trigger] op.post(s, ro) && match ro {
    ParseResult::Failure { .. } => fail_as(ro, r),
    ParseResult::Success { value: f, length: n1 } => exists|ry: ParseResult<'a, char, Rc<Expr>>| #[trigger] p.post(adv(s, n1 as int), ry) && match ry {
      ParseResult::Failure { .. } => after(n1 as int, ry, r),
      ParseResult::Success { value: y, length: n2 } => d > 0 && exists|fxy: Rc<Expr>, r1: ParseResult<'a, char, Rc<Expr>>, rr: ParseResult<'a, char, Rc<Expr>>| #[trigger] f.ensures((v, y), fxy)
        && left_step((d - 1) as nat, p, op, fxy, adv(adv(s, n1 as int), n2 as int), r1) && #[trigger] or_else_value(fxy, r1, rr) && left_total(n1, n2, rr, r),
    },
  };
  match ro {
    ParseResult::Failure { .. } => { },
    ParseResult::Success { value: f, length: n1 } => {
      let ry = choose|ry: ParseResult<'a, char, Rc<Expr>>| #[trigger] p.post(adv(s, n1 as int), ry) && match ry {
        ParseResult::Failure { .. } => after(n1 as int, ry, r),
        ParseResult::Success { value: y, length: n2 } => d > 0 && exists|fxy: Rc<Expr>, r1: ParseResult<'a, char, Rc<Expr>>, rr: ParseResult<'a, char, Rc<Expr>>| #[trigger] f.ensures((v, y), fxy)
          && left_step((d - 1) as nat, p, op, fxy, adv(adv(s, n1 as int), n2 as int), r1) && #[trigger] or_else_value(fxy, r1, rr) && left_total(n1, n2, rr, r),
      };
      match ry {
        ParseResult::Failure { .. } => { },
        ParseResult::Success { value: y, length: n2 } => {
          let (fxy, r1, rr) = choose|fxy: Rc<Expr>, r1: ParseResult<'a, char, Rc<Expr>>, rr: ParseResult<'a, char, Rc<Expr>>| #[trigger] f.ensures((v, y), fxy)
            && left_step((d - 1) as nat, p, op, fxy, adv(adv(s, n1 as int), n2 as int), r1) && #[trigger] or_else_value(fxy, r1, rr) && left_total(n1, n2, rr, r);
          let s2 = adv(adv(s, n1 as int), n2 as int);
          lemma_rest((d - 1) as nat, p, op, g, h, fxy, s2, r1);
        },
      }
    },
  }
}
/// a chain of operators is read as `chain_at` says
pub broadcast proof fn lemma_chain<'a>(p: Parser<'a, char, Rc<Expr>>, op: Parser<'a, char, VxFn2<Rc<Expr>>>, g: Rd<Rc<Expr>>, h: OpRd, s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>)
  requires #[trigger] op_hint(g, h), reads(p, g), op_reads(op, h), #[trigger] left_chain_post::<char, Rc<Expr>, VxFn2<Rc<Expr>>>(p, op, s, r), s.wf()
  ensures reads_as(chain_at(g, h, s.input@, s.offset as int), s, r)
{
  broadcast use super::vx_lemmas::axiom_post_fits;
  let rx = choose|rx: ParseResult<'a, char, Rc<Expr>>| #[trigger] p.post(s, rx) && match rx {
    ParseResult::Failure { .. } => r == rx,
    ParseResult::Success { value: x, length: n } => exists|rr: ParseResult<'a, char, Rc<Expr>>| #[trigger] left_rest_post(p, op, x, adv(s, n as int), rr) && after(n as int, rr, r),
  };
  match rx {
    ParseResult::Failure { .. } => { },
    ParseResult::Success { value: v, length: n } => {
      let rr = choose|rr: ParseResult<'a, char, Rc<Expr>>| #[trigger] left_rest_post(p, op, v, adv(s, n as int), rr) && after(n as int, rr, r);
      let s1 = adv(s, n as int);
      let r1 = choose|r1: ParseResult<'a, char, Rc<Expr>>| #[trigger] left_step_post(p, op, v, s1, r1) && or_else_value(v, r1, rr);
      let d = choose|d: nat| #[trigger] left_step(d, p, op, v, s1, r1);
      lemma_rest(d, p, op, g, h, v, s1, r1);
    },
  }
}
}
