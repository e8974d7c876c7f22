// ---- std, as far as it is used
// TRUSTED: Clone is faithful; a hash map is a finite map from texts; Rc is a value
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Environment { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_make_mut<T>(x: &mut Rc<T>) -> (r: &mut T) ensures *r == **old(x), *final(r) == **final(x) { unimplemented!() }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct HashMap<K, V> { k: Option<Box<K>>, v: Option<Box<V>> }
pub trait VxKey { spec fn key(&self) -> Seq<char>; }
impl VxKey for str { open spec fn key(&self) -> Seq<char> { self@ } }
impl VxKey for String { open spec fn key(&self) -> Seq<char> { self@ } }
impl<'a, T: VxKey + ?Sized> VxKey for &'a T { open spec fn key(&self) -> Seq<char> { (**self).key() } }
impl<K: VxKey, V> HashMap<K, V> {
  pub uninterp spec fn m(&self) -> Map<Seq<char>, V>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r.m() == Map::<Seq<char>, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn clear(&mut self) ensures final(self).m() == Map::<Seq<char>, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut<Q: VxKey + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
    ensures match r {
      Some(v) => old(self).m().dom().contains(k.key()) && *v == old(self).m()[k.key()] && final(self).m() == old(self).m().insert(k.key(), *final(v)),
      None => !old(self).m().dom().contains(k.key()) && final(self).m() == old(self).m() }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn get<Q: VxKey + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
    ensures match r { Some(v) => self.m().dom().contains(k.key()) && *v == self.m()[k.key()], None => !self.m().dom().contains(k.key()) }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key<Q: VxKey + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self.m().dom().contains(k.key()) { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
    ensures final(self).m() == old(self).m().insert(k.key(), v)
  { unimplemented!() }
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'b, T> VxIntoIter for &'b [T] {
  type Item = &'b T;
  open spec fn items(self) -> Seq<&'b T> { refs(self@) }
  #[verifier::external_body]
  fn vx_into(self) -> VxIter<&'b T> { unimplemented!() }
}
impl<'b, T> VxIntoIter for &'b Vec<T> {
  type Item = &'b T;
  open spec fn items(self) -> Seq<&'b T> { refs(self@) }
  #[verifier::external_body]
  fn vx_into(self) -> VxIter<&'b T> { unimplemented!() }
}
pub trait VxIterRef { type Elem; spec fn elems(&self) -> Seq<Self::Elem>; fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a Self::Elem>) ensures r.view() == refs::<Self::Elem>(self.elems()); }
impl<T> VxIterRef for Vec<T> { type Elem = T; open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> VxIter<&'a T> { unimplemented!() } }
impl<T> VxIterRef for [T] { type Elem = T; open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> VxIter<&'a T> { unimplemented!() } }

// ---- values, frames
pub enum V { I(int), B(bool), S(Seq<char>), A(Seq<V>) }
pub type Fr = Map<Seq<char>, V>;
pub type St = Seq<Fr>;
pub type Fs = Map<Seq<char>, Rc<Expr>>;
#[verifier::opaque]
pub open spec fn abs(v: Value) -> V decreases v {
  match v {
    Value::Int(i) => V::I(i as int),
    Value::Bool(b) => V::B(b),
    Value::String(s) => V::S(s@),
    Value::Array(a) => V::A(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { abs(a@[i]) } else { V::B(false) })),
  }
}
pub open spec fn all_abs(s: Seq<Value>) -> Seq<V> { Seq::new(s.len(), |i: int| abs(s[i])) }
#[verifier::opaque]
pub open spec fn frm(m: Map<Seq<char>, Value>) -> Fr { m.map_values(|v: Value| abs(v)) }
pub open spec fn fr(h: HashMap<String, Value>) -> Fr { frm(h.m()) }
/// the frames of an environment, the innermost last
#[verifier::opaque]
pub open spec fn frames(e: Environment) -> St decreases e {
  match e.next { Some(n) => frames(*n).push(fr(e.bindings)), None => seq![fr(e.bindings)] }
}
#[verifier::opaque]
pub open spec fn lookup(s: St, x: Seq<char>) -> Option<V> decreases s.len() {
  if s.len() == 0 { None } else if s.last().dom().contains(x) { Some(s.last()[x]) } else { lookup(s.drop_last(), x) }
}
pub open spec fn bound(s: St, x: Seq<char>) -> bool { lookup(s, x) is Some }
/// the nearest frame that binds x gets the value
#[verifier::opaque]
pub open spec fn updated(s: St, x: Seq<char>, v: V) -> St decreases s.len() {
  if s.len() == 0 { s } else if s.last().dom().contains(x) { s.drop_last().push(s.last().insert(x, v)) } else { updated(s.drop_last(), x, v).push(s.last()) }
}
/// the innermost frame gets the value
pub open spec fn added(s: St, x: Seq<char>, v: V) -> St { s.drop_last().push(s.last().insert(x, v)) }
pub open spec fn assigned(s: St, x: Seq<char>, v: V) -> St { if bound(s, x) { updated(s, x, v) } else { added(s, x, v) } }
pub open spec fn left(s: St) -> St { if s.len() > 1 { s.drop_last() } else { s } }

pub open spec fn st(i: Interpreter) -> St { frames(i.variable_environment) }
pub open spec fn fns(i: Interpreter) -> Fs { i.function_environment.m() }
/// the expressions a sequence-like expression evaluates in order
pub open spec fn kids(e: Rc<Expr>) -> Seq<Rc<Expr>> {
  match *e { Expr::ArrayLiteral(v) => v@, Expr::Block(v) => v@, Expr::FunctionCall(_, v) => v@, Expr::LabelledCall(_, v) => exprs(v@), Expr::Program(v) => v@, _ => Seq::<Rc<Expr>>::empty() }
}
pub open spec fn firsts(v: Seq<(String, Value)>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].0@) }
pub open spec fn seconds(v: Seq<(String, Value)>) -> Seq<V> { Seq::new(v.len(), |i: int| abs(v[i].1)) }
pub open spec fn args_of(e: Rc<Expr>) -> Seq<LabelledParameter> { match *e { Expr::LabelledCall(_, v) => v@, _ => Seq::<LabelledParameter>::empty() } }
/// the parameters of the function a call names
pub open spec fn params_of(e: Rc<Expr>, fs: Fs) -> Seq<String> {
  match *e { Expr::FunctionCall(f, _) => match *fs[f@] { Expr::FunctionDefinition(_, ps, _) => ps@, _ => Seq::<String>::empty() }, _ => Seq::<String>::empty() }
}
/// marks where an evaluation is opened by one step
pub open spec fn at_step(e: Rc<Expr>, fs: Fs, s: St) -> bool { true }
/// evaluating es from the frames s0 has come to the frames s; the elements before k have the values done
#[verifier::opaque]
pub open spec fn so_far(es: Seq<Rc<Expr>>, k: int, done: Seq<V>, fs: Fs, s0: St, s: St) -> bool {
  &&& 0 <= k <= es.len() && done.len() == k
  &&& vals(es, fs, s0) is Some
  &&& vals(es.skip(k), fs, s) is Some
  &&& (vals(es, fs, s0)->0).0 == done + (vals(es.skip(k), fs, s)->0).0
  &&& (vals(es, fs, s0)->0).1 == (vals(es.skip(k), fs, s)->0).1
}
/// the same, where only the last value is kept
#[verifier::opaque]
pub open spec fn block_so_far(es: Seq<Rc<Expr>>, k: int, last: Option<Value>, fs: Fs, s0: St, s: St) -> bool {
  exists|done: Seq<V>| #[trigger] so_far(es, k, done, fs, s0, s) && (last is Some <==> k > 0) && (k > 0 ==> done.last() == abs(last->0))
}
/// the first k of the names ps are bound to the values vs in the innermost of the frames s, above `outer`
#[verifier::opaque]
pub open spec fn bound_so_far(ps: Seq<Seq<char>>, vs: Seq<V>, k: int, outer: St, s: St) -> bool {
  s.len() > 0 && s.drop_last() == outer && 0 <= k <= ps.len() && bind(ps.skip(k), vs.skip(k), s.last()) == bind(ps, vs, no_names())
}
// ---- what expressions mean
pub open spec fn int_in(n: int) -> Option<V> { if i64::MIN <= n <= i64::MAX { Some(V::I(n)) } else { None } }
/// division that truncates towards zero, and its remainder, as vstd defines them
pub use vstd::arithmetic::div_mod::{rust_div, rust_rem};
pub open spec fn binop(op: Operator, a: V, b: V) -> Option<V> {
  match (a, b) {
    (V::B(a), V::B(b)) => match op { Operator::And => Some(V::B(a && b)), Operator::Or => Some(V::B(a || b)), _ => None },
    (V::I(a), V::I(b)) => match op {
      Operator::Mod => if b == 0 || (a == i64::MIN && b == -1) { None } else { Some(V::I(rust_rem(a, b))) },
      Operator::Divide => if b == 0 || (a == i64::MIN && b == -1) { None } else { Some(V::I(rust_div(a, b))) },
      Operator::Add => int_in(a + b),
      Operator::Subtract => int_in(a - b),
      Operator::Multiply => int_in(a * b),
      Operator::LessThan => Some(V::B(a < b)),
      Operator::LessOrEqual => Some(V::B(a <= b)),
      Operator::GreaterThan => Some(V::B(a > b)),
      Operator::GreaterOrEqual => Some(V::B(a >= b)),
      Operator::EqualEqual => Some(V::B(a == b)),
      Operator::NotEqual => Some(V::B(a != b)),
      _ => None },
    _ => None,
  }
}
#[verifier::opaque]
pub open spec fn bind(xs: Seq<Seq<char>>, vs: Seq<V>, m: Fr) -> Fr decreases xs.len() {
  if xs.len() == 0 { m } else { bind(xs.drop_first(), vs.drop_first(), m.insert(xs[0], vs[0])) }
}
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn labels(v: Seq<LabelledParameter>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].name@) }
pub open spec fn exprs(v: Seq<LabelledParameter>) -> Seq<Rc<Expr>> { Seq::new(v.len(), |i: int| v[i].parameter) }
pub open spec fn no_names() -> Fr { Map::<Seq<char>, V>::empty() }
/// evaluation in at most n nested steps: the value and the frames after, or nothing where it is not defined
#[verifier::opaque]
pub open spec fn ev(n: nat, e: Rc<Expr>, fs: Fs, s: St) -> Option<(V, St)> decreases n, 0nat {
  if n == 0 { None } else {
    let k = (n - 1) as nat;
    match *e {
      Expr::Binary(op, l, r) => match ev(k, l, fs, s) {
        Some((a, s1)) => match ev(k, r, fs, s1) { Some((b, s2)) => match binop(op, a, b) { Some(v) => Some((v, s2)), None => None }, None => None },
        None => None },
      Expr::StringLiteral(t) => Some((V::S(t@), s)),
      Expr::IntegerLiteral(i) => Some((V::I(i as int), s)),
      Expr::BoolLiteral(b) => Some((V::B(b), s)),
      Expr::ArrayLiteral(es) => match ev_seq(k, es@, fs, s) { Some((vs, s1)) => Some((V::A(vs), s1)), None => None },
      Expr::Parenthesized(e1) => ev(k, e1, fs, s),
      Expr::Symbol(x) => match lookup(s, x@) { Some(v) => Some((v, s)), None => None },
      Expr::Assignment(x, e1) => match ev(k, e1, fs, s) { Some((v, s1)) => Some((v, assigned(s1, x@, v))), None => None },
      Expr::Block(es) => match ev_seq(k, es@, fs, s) { Some((vs, s1)) => if vs.len() > 0 { Some((vs.last(), s1)) } else { None }, None => None },
      Expr::Println(e1) => ev(k, e1, fs, s),
      Expr::If(c, t, f) => match ev(k, c, fs, s) {
        Some((V::B(true), s1)) => ev(k, t, fs, s1),
        Some((V::B(false), s1)) => match f { Some(f) => ev(k, f, fs, s1), None => Some((V::B(true), s1)) },
        _ => None },
      Expr::While(c, b) => match ev(k, c, fs, s) {
        Some((V::B(true), s1)) => match ev(k, b, fs, s1) { Some((_, s2)) => ev(k, e, fs, s2), None => None },
        Some((V::B(false), s1)) => Some((V::B(true), s1)),
        _ => None },
      Expr::FunctionCall(f, args) => if fs.dom().contains(f@) {
        match *fs[f@] {
          Expr::FunctionDefinition(_, ps, body) => match ev_seq(k, args@, fs, s) {
            Some((vs, s1)) => if ps@.len() <= vs.len() {
              match ev(k, body, fs, s1.push(bind(texts(ps@), vs, no_names()))) { Some((v, s2)) => Some((v, left(s2))), None => None }
            } else { None },
            None => None },
          _ => None }
        } else { None },
      Expr::LabelledCall(f, args) => if fs.dom().contains(f@) {
        match *fs[f@] {
          Expr::FunctionDefinition(_, ps, body) => match ev_seq(k, exprs(args@), fs, s) {
            Some((vs, s1)) => match ev(k, body, fs, s1.push(bind(labels(args@), vs, no_names()))) { Some((v, s2)) => Some((v, left(s2))), None => None },
            None => None },
          _ => None }
        } else { None },
      _ => None,
    }
  }
}
#[verifier::opaque]
pub open spec fn ev_seq(n: nat, es: Seq<Rc<Expr>>, fs: Fs, s: St) -> Option<(Seq<V>, St)> decreases n, es.len() + 1 {
  if es.len() == 0 { Some((Seq::<V>::empty(), s)) }
  else {
    match ev(n, es[0], fs, s) {
      Some((v, s1)) => match ev_seq(n, es.drop_first(), fs, s1) { Some((vs, s2)) => Some((seq![v] + vs, s2)), None => None },
      None => None,
    }
  }
}
/// the value of an expression, if it has one
#[verifier::opaque]
pub open spec fn val(e: Rc<Expr>, fs: Fs, s: St) -> Option<(V, St)> { if exists|n: nat| (#[trigger] ev(n, e, fs, s)) is Some { ev(choose|n: nat| (#[trigger] ev(n, e, fs, s)) is Some, e, fs, s) } else { None } }
#[verifier::opaque]
pub open spec fn vals(es: Seq<Rc<Expr>>, fs: Fs, s: St) -> Option<(Seq<V>, St)> { if exists|n: nat| (#[trigger] ev_seq(n, es, fs, s)) is Some { ev_seq(choose|n: nat| (#[trigger] ev_seq(n, es, fs, s)) is Some, es, fs, s) } else { None } }
/// one step of it
pub open spec fn step(e: Rc<Expr>, fs: Fs, s: St) -> Option<(V, St)> {
  match *e {
    Expr::Binary(op, l, r) => match val(l, fs, s) {
      Some((a, s1)) => match val(r, fs, s1) { Some((b, s2)) => match binop(op, a, b) { Some(v) => Some((v, s2)), None => None }, None => None },
      None => None },
    Expr::StringLiteral(t) => Some((V::S(t@), s)),
    Expr::IntegerLiteral(i) => Some((V::I(i as int), s)),
    Expr::BoolLiteral(b) => Some((V::B(b), s)),
    Expr::ArrayLiteral(es) => match vals(es@, fs, s) { Some((vs, s1)) => Some((V::A(vs), s1)), None => None },
    Expr::Parenthesized(e1) => val(e1, fs, s),
    Expr::Symbol(x) => match lookup(s, x@) { Some(v) => Some((v, s)), None => None },
    Expr::Assignment(x, e1) => match val(e1, fs, s) { Some((v, s1)) => Some((v, assigned(s1, x@, v))), None => None },
    Expr::Block(es) => match vals(es@, fs, s) { Some((vs, s1)) => if vs.len() > 0 { Some((vs.last(), s1)) } else { None }, None => None },
    Expr::Println(e1) => val(e1, fs, s),
    Expr::If(c, t, f) => match val(c, fs, s) {
      Some((V::B(true), s1)) => val(t, fs, s1),
      Some((V::B(false), s1)) => match f { Some(f) => val(f, fs, s1), None => Some((V::B(true), s1)) },
      _ => None },
    Expr::While(c, b) => match val(c, fs, s) {
      Some((V::B(true), s1)) => match val(b, fs, s1) { Some((_, s2)) => val(e, fs, s2), None => None },
      Some((V::B(false), s1)) => Some((V::B(true), s1)),
      _ => None },
    Expr::FunctionCall(f, args) => if fs.dom().contains(f@) {
      match *fs[f@] {
        Expr::FunctionDefinition(_, ps, body) => match vals(args@, fs, s) {
          Some((vs, s1)) => if ps@.len() <= vs.len() {
            match val(body, fs, s1.push(bind(texts(ps@), vs, no_names()))) { Some((v, s2)) => Some((v, left(s2))), None => None }
          } else { None },
          None => None },
        _ => None }
      } else { None },
    Expr::LabelledCall(f, args) => if fs.dom().contains(f@) {
      match *fs[f@] {
        Expr::FunctionDefinition(_, ps, body) => match vals(exprs(args@), fs, s) {
          Some((vs, s1)) => match val(body, fs, s1.push(bind(labels(args@), vs, no_names()))) { Some((v, s2)) => Some((v, left(s2))), None => None },
          None => None },
        _ => None }
      } else { None },
    _ => None,
  }
}
pub open spec fn step_seq(es: Seq<Rc<Expr>>, fs: Fs, s: St) -> Option<(Seq<V>, St)> {
  if es.len() == 0 { Some((Seq::<V>::empty(), s)) }
  else {
    match val(es[0], fs, s) {
      Some((v, s1)) => match vals(es.drop_first(), fs, s1) { Some((vs, s2)) => Some((seq![v] + vs, s2)), None => None },
      None => None,
    }
  }
}
/// a program's definitions, in order: the functions, and the globals in the innermost frame
#[verifier::opaque]
pub open spec fn defs(ds: Seq<Rc<Expr>>, fs: Fs, s: St) -> Option<(Fs, St)> decreases ds.len() {
  if ds.len() == 0 { Some((fs, s)) }
  else {
    match *ds[0] {
      Expr::GlobalVariableDefinition(x, e) => match val(e, fs, s) { Some((v, s1)) => defs(ds.drop_first(), fs, added(s1, x@, v)), None => None },
      Expr::FunctionDefinition(f, ps, body) => defs(ds.drop_first(), fs.insert(f@, ds[0]), s),
      _ => None,
    }
  }
}
/// reading the definitions ds has come to the functions fs and the frames s, with k of them read
#[verifier::opaque]
pub open spec fn defs_so_far(ds: Seq<Rc<Expr>>, k: int, fs0: Fs, s0: St, fs: Fs, s: St) -> bool {
  0 <= k <= ds.len() && defs(ds, fs0, s0) is Some && defs(ds.skip(k), fs, s) == defs(ds, fs0, s0)
}
pub open spec fn program(e: Rc<Expr>, fs: Fs, s: St) -> Option<(V, St)> {
  match *e {
    Expr::Program(ds) => match defs(ds@, fs, s) {
      Some((fs1, s1)) => if fs1.dom().contains("main"@) { match *fs1["main"@] { Expr::FunctionDefinition(_, _, body) => val(body, fs1, s1), _ => None } } else { None },
      None => None },
    _ => None,
  }
}
pub mod vx_toys_lemmas {
  use super::*;
  use vstd::prelude::*;
  /// a quotient fits where its dividend does, with the one exception, and so does a remainder
  pub broadcast proof fn lemma_div(a: int, b: int)
    requires a >= 0, b != 0
    ensures b > 0 ==> 0 <= #[trigger] (a / b) <= a, b < 0 ==> -a <= a / b <= 0, b < -1 && a > 0 ==> -a < a / b
  {
    assert(b > 0 ==> 0 <= a / b <= a) by (nonlinear_arith) requires a >= 0;
    assert(b < 0 ==> -a <= a / b <= 0) by (nonlinear_arith) requires a >= 0;
    assert(b < -1 && a > 0 ==> -a < a / b) by (nonlinear_arith) requires a >= 0;
  }
  pub broadcast proof fn lemma_rem(a: int, b: int)
    requires b != 0
    ensures 0 <= #[trigger] (a % b) < if b < 0 { -b } else { b }
  { assert(0 <= a % b < if b < 0 { -b } else { b }) by (nonlinear_arith) requires b != 0; }
  pub broadcast proof fn lemma_firsts(v: Seq<(String, Value)>)
    requires v.len() > 0
    ensures #[trigger] firsts(v.drop_first()) == firsts(v).drop_first(), firsts(v)[0] == v[0].0@
  { assert(firsts(v.drop_first()) =~= firsts(v).drop_first()); }
  pub broadcast proof fn lemma_seconds(v: Seq<(String, Value)>)
    requires v.len() > 0
    ensures #[trigger] seconds(v.drop_first()) == seconds(v).drop_first(), seconds(v)[0] == abs(v[0].1)
  { assert(seconds(v.drop_first()) =~= seconds(v).drop_first()); }
  pub broadcast proof fn lemma_unbound(s: St, x: Seq<char>, v: V)
    requires !bound(s, x)
    ensures #[trigger] updated(s, x, v) == s
    decreases s.len()
  { reveal(lookup); reveal(updated); if s.len() > 0 { assert(!s.last().dom().contains(x)); lemma_unbound(s.drop_last(), x, v); assert(updated(s.drop_last(), x, v).push(s.last()) =~= s); } }
  pub broadcast proof fn lemma_all_abs(v: Seq<Value>, x: Value)
    ensures #[trigger] all_abs(v.push(x)) == all_abs(v).push(abs(x))
  { assert(all_abs(v.push(x)) =~= all_abs(v).push(abs(x))); }
  /// more steps change nothing
  pub proof fn lemma_more(n: nat, m: nat, e: Rc<Expr>, fs: Fs, s: St)
    requires n <= m, ev(n, e, fs, s) is Some
    ensures ev(m, e, fs, s) == ev(n, e, fs, s)
    decreases n, 0nat
  {
    reveal(ev); reveal(ev_seq);
    let k = (n - 1) as nat;
    let j = (m - 1) as nat;
    match *e {
      Expr::Binary(op, l, r) => { lemma_more(k, j, l, fs, s); lemma_more(k, j, r, fs, (ev(k, l, fs, s)->0).1); }
      Expr::ArrayLiteral(es) => { lemma_more_seq(k, j, es@, fs, s); }
      Expr::Parenthesized(e1) => { lemma_more(k, j, e1, fs, s); }
      Expr::Assignment(x, e1) => { lemma_more(k, j, e1, fs, s); }
      Expr::Block(es) => { lemma_more_seq(k, j, es@, fs, s); }
      Expr::Println(e1) => { lemma_more(k, j, e1, fs, s); }
      Expr::If(c, t, f) => {
        lemma_more(k, j, c, fs, s);
        let s1 = (ev(k, c, fs, s)->0).1;
        match ev(k, c, fs, s) {
          Some((V::B(true), s1)) => { lemma_more(k, j, t, fs, s1); }
          Some((V::B(false), s1)) => { match f { Some(f) => { lemma_more(k, j, f, fs, s1); } None => {} } }
          _ => {}
        }
      }
      Expr::While(c, b) => {
        lemma_more(k, j, c, fs, s);
        match ev(k, c, fs, s) {
          Some((V::B(true), s1)) => { lemma_more(k, j, b, fs, s1); lemma_more(k, j, e, fs, (ev(k, b, fs, s1)->0).1); }
          _ => {}
        }
      }
      Expr::FunctionCall(f, args) => {
        lemma_more_seq(k, j, args@, fs, s);
        match *fs[f@] { Expr::FunctionDefinition(_, ps, body) => { let (vs, s1) = ev_seq(k, args@, fs, s)->0; lemma_more(k, j, body, fs, s1.push(bind(texts(ps@), vs, no_names()))); } _ => {} }
      }
      Expr::LabelledCall(f, args) => {
        lemma_more_seq(k, j, exprs(args@), fs, s);
        match *fs[f@] { Expr::FunctionDefinition(_, ps, body) => { let (vs, s1) = ev_seq(k, exprs(args@), fs, s)->0; lemma_more(k, j, body, fs, s1.push(bind(labels(args@), vs, no_names()))); } _ => {} }
      }
      _ => {}
    }
  }
  pub proof fn lemma_more_seq(n: nat, m: nat, es: Seq<Rc<Expr>>, fs: Fs, s: St)
    requires n <= m, ev_seq(n, es, fs, s) is Some
    ensures ev_seq(m, es, fs, s) == ev_seq(n, es, fs, s)
    decreases n, es.len() + 1
  {
    reveal(ev); reveal(ev_seq);
    if es.len() > 0 { lemma_more(n, m, es[0], fs, s); lemma_more_seq(n, m, es.drop_first(), fs, (ev(n, es[0], fs, s)->0).1); }
  }
  pub broadcast proof fn lemma_val_is(n: nat, e: Rc<Expr>, fs: Fs, s: St)
    requires (#[trigger] ev(n, e, fs, s)) is Some
    ensures val(e, fs, s) == ev(n, e, fs, s)
  {
    reveal(val);
    let k = choose|n: nat| (#[trigger] ev(n, e, fs, s)) is Some;
    if k <= n { lemma_more(k, n, e, fs, s); } else { lemma_more(n, k, e, fs, s); }
  }
  pub broadcast proof fn lemma_vals_is(n: nat, es: Seq<Rc<Expr>>, fs: Fs, s: St)
    requires (#[trigger] ev_seq(n, es, fs, s)) is Some
    ensures vals(es, fs, s) == ev_seq(n, es, fs, s)
  {
    reveal(vals);
    let k = choose|n: nat| (#[trigger] ev_seq(n, es, fs, s)) is Some;
    if k <= n { lemma_more_seq(k, n, es, fs, s); } else { lemma_more_seq(n, k, es, fs, s); }
  }
  pub proof fn lemma_step(e: Rc<Expr>, fs: Fs, s: St)
    ensures val(e, fs, s) is Some ==> val(e, fs, s) == step(e, fs, s)
  {
    if val(e, fs, s) is Some {
      reveal(val);
      reveal(ev); reveal(ev_seq);
      let n = choose|n: nat| (#[trigger] ev(n, e, fs, s)) is Some;
      assert(ev(n, e, fs, s) is Some);
      let k = (n - 1) as nat;
      match *e {
        Expr::Binary(op, l, r) => { lemma_val_is(k, l, fs, s); lemma_val_is(k, r, fs, (ev(k, l, fs, s)->0).1); }
        Expr::ArrayLiteral(es) => { lemma_vals_is(k, es@, fs, s); }
        Expr::Parenthesized(e1) => { lemma_val_is(k, e1, fs, s); }
        Expr::Assignment(x, e1) => { lemma_val_is(k, e1, fs, s); }
        Expr::Block(es) => { lemma_vals_is(k, es@, fs, s); }
        Expr::Println(e1) => { lemma_val_is(k, e1, fs, s); }
        Expr::If(c, t, f) => {
          lemma_val_is(k, c, fs, s);
          match ev(k, c, fs, s) {
            Some((V::B(true), s1)) => { lemma_val_is(k, t, fs, s1); }
            Some((V::B(false), s1)) => { match f { Some(f) => { lemma_val_is(k, f, fs, s1); } None => {} } }
            _ => {}
          }
        }
        Expr::While(c, b) => {
          lemma_val_is(k, c, fs, s);
          match ev(k, c, fs, s) {
            Some((V::B(true), s1)) => { lemma_val_is(k, b, fs, s1); lemma_val_is(k, e, fs, (ev(k, b, fs, s1)->0).1); }
            _ => {}
          }
        }
        Expr::FunctionCall(f, args) => {
          lemma_vals_is(k, args@, fs, s);
          match *fs[f@] { Expr::FunctionDefinition(_, ps, body) => { let (vs, s1) = ev_seq(k, args@, fs, s)->0; lemma_val_is(k, body, fs, s1.push(bind(texts(ps@), vs, no_names()))); } _ => {} }
        }
        Expr::LabelledCall(f, args) => {
          lemma_vals_is(k, exprs(args@), fs, s);
          match *fs[f@] { Expr::FunctionDefinition(_, ps, body) => { let (vs, s1) = ev_seq(k, exprs(args@), fs, s)->0; lemma_val_is(k, body, fs, s1.push(bind(labels(args@), vs, no_names()))); } _ => {} }
        }
        _ => {}
      }
    }
  }
  pub broadcast proof fn lemma_at_step(e: Rc<Expr>, fs: Fs, s: St)
    ensures #[trigger] at_step(e, fs, s) ==> (val(e, fs, s) is Some ==> val(e, fs, s) == step(e, fs, s))
  { lemma_step(e, fs, s); }
  pub proof fn lemma_step_seq(es: Seq<Rc<Expr>>, fs: Fs, s: St)
    ensures vals(es, fs, s) is Some ==> vals(es, fs, s) == step_seq(es, fs, s)
  {
    if vals(es, fs, s) is Some {
      reveal(vals);
      reveal(ev); reveal(ev_seq);
      let n = choose|n: nat| (#[trigger] ev_seq(n, es, fs, s)) is Some;
      assert(ev_seq(n, es, fs, s) is Some);
      if es.len() > 0 { lemma_val_is(n, es[0], fs, s); lemma_vals_is(n, es.drop_first(), fs, (ev(n, es[0], fs, s)->0).1); }
    }
  }
  // sequences of expressions, one after the other
  pub broadcast proof fn lemma_seq_start(es: Seq<Rc<Expr>>, k: int, done: Seq<V>, fs: Fs, s: St)
    requires vals(es, fs, s) is Some, k == 0, done.len() == 0
    ensures #[trigger] so_far(es, k, done, fs, s, s)
  { reveal(so_far); assert(es.skip(0) =~= es); assert(done + (vals(es, fs, s)->0).0 =~= (vals(es, fs, s)->0).0); }
  pub broadcast proof fn lemma_seq_next(es: Seq<Rc<Expr>>, k: int, done: Seq<V>, fs: Fs, s0: St, s: St)
    requires #[trigger] so_far(es, k, done, fs, s0, s)
    ensures 0 <= k <= es.len(), k < es.len() ==> val(es[k], fs, s) is Some, k == es.len() ==> vals(es, fs, s0) == Some((done, s))
  {
    reveal(so_far);
    lemma_step_seq(es.skip(k), fs, s);
    if k < es.len() { assert(es.skip(k)[0] == es[k]); }
    else { assert(es.skip(k).len() == 0); assert(done + Seq::<V>::empty() =~= done); }
  }
  pub broadcast proof fn lemma_seq_step(es: Seq<Rc<Expr>>, k: int, done: Seq<V>, fs: Fs, s0: St, s: St, j: int, done1: Seq<V>, s1: St)
    requires #[trigger] so_far(es, k, done, fs, s0, s), k < es.len(), j == k + 1, done1.len() == j, done1.drop_last() =~= done, val(es[k], fs, s) == Some((done1.last(), s1))
    ensures #[trigger] so_far(es, j, done1, fs, s0, s1)
  {
    reveal(so_far);
    lemma_step_seq(es.skip(k), fs, s);
    assert(es.skip(k).drop_first() =~= es.skip(j));
    let rest = (vals(es.skip(j), fs, s1)->0).0;
    assert(done + (seq![done1.last()] + rest) =~= done1 + rest);
  }
  pub broadcast proof fn lemma_block_start(es: Seq<Rc<Expr>>, k: int, last: Option<Value>, fs: Fs, s: St)
    requires vals(es, fs, s) is Some, k == 0, last is None
    ensures #[trigger] block_so_far(es, k, last, fs, s, s)
  { reveal(block_so_far); lemma_seq_start(es, 0, Seq::<V>::empty(), fs, s); }
  pub broadcast proof fn lemma_block_next(es: Seq<Rc<Expr>>, k: int, last: Option<Value>, fs: Fs, s0: St, s: St)
    requires #[trigger] block_so_far(es, k, last, fs, s0, s)
    ensures 0 <= k <= es.len(), k < es.len() ==> val(es[k], fs, s) is Some, vals(es, fs, s0) is Some,
      k == es.len() && k > 0 ==> last is Some && vals(es, fs, s0)->0 == ((vals(es, fs, s0)->0).0, s) && (vals(es, fs, s0)->0).0.last() == abs(last->0),
      k == es.len() ==> (vals(es, fs, s0)->0).0.len() == k
  {
    reveal(block_so_far);
    let done = choose|done: Seq<V>| #[trigger] so_far(es, k, done, fs, s0, s) && (last is Some <==> k > 0) && (k > 0 ==> done.last() == abs(last->0));
    lemma_seq_next(es, k, done, fs, s0, s);
    reveal(so_far);
  }
  pub broadcast proof fn lemma_block_step(es: Seq<Rc<Expr>>, k: int, last: Option<Value>, fs: Fs, s0: St, s: St, j: int, v: Value, s1: St)
    requires #[trigger] block_so_far(es, k, last, fs, s0, s), k < es.len(), j == k + 1, val(es[k], fs, s) == Some((abs(v), s1))
    ensures #[trigger] block_so_far(es, j, Some(v), fs, s0, s1)
  {
    reveal(block_so_far);
    let done = choose|done: Seq<V>| #[trigger] so_far(es, k, done, fs, s0, s) && (last is Some <==> k > 0) && (k > 0 ==> done.last() == abs(last->0));
    lemma_seq_next(es, k, done, fs, s0, s);
    assert(done.len() == k) by { reveal(so_far); }
    assert(done.push(abs(v)).drop_last() =~= done);
    lemma_seq_step(es, k, done, fs, s0, s, j, done.push(abs(v)), s1);
  }
  // parameters
  pub broadcast proof fn lemma_bind_start(ps: Seq<Seq<char>>, vs: Seq<V>, k: int, outer: St, s: St)
    requires k == 0, s == outer.push(no_names())
    ensures #[trigger] bound_so_far(ps, vs, k, outer, s)
  { reveal(bound_so_far); assert(outer.push(no_names()).drop_last() =~= outer); assert(ps.skip(0) =~= ps); assert(vs.skip(0) =~= vs); }
  pub broadcast proof fn lemma_bind_end(ps: Seq<Seq<char>>, vs: Seq<V>, k: int, outer: St, s: St)
    requires #[trigger] bound_so_far(ps, vs, k, outer, s)
    ensures s.len() > 0, 0 <= k <= ps.len(), k == ps.len() ==> s == outer.push(bind(ps, vs, no_names()))
  { reveal(bound_so_far); reveal_with_fuel(bind, 1); assert(s =~= s.drop_last().push(s.last())); }
  pub broadcast proof fn lemma_bind_step(ps: Seq<Seq<char>>, vs: Seq<V>, k: int, outer: St, s: St, j: int, s1: St)
    requires #[trigger] bound_so_far(ps, vs, k, outer, s), k < ps.len(), k < vs.len(), j == k + 1, s1 == added(s, ps[k], vs[k])
    ensures #[trigger] bound_so_far(ps, vs, j, outer, s1)
  {
    reveal(bound_so_far);
    reveal_with_fuel(bind, 2);
    assert(s1.drop_last() =~= s.drop_last());
    assert(ps.skip(k).drop_first() =~= ps.skip(j));
    assert(vs.skip(k).drop_first() =~= vs.skip(j));
  }
  // definitions, one after the other
  pub broadcast proof fn lemma_defs_start(ds: Seq<Rc<Expr>>, k: int, fs: Fs, s: St)
    requires k == 0, defs(ds, fs, s) is Some
    ensures #[trigger] defs_so_far(ds, k, fs, s, fs, s)
  { reveal(defs_so_far); assert(ds.skip(0) =~= ds); }
  pub broadcast proof fn lemma_defs_next(ds: Seq<Rc<Expr>>, k: int, fs0: Fs, s0: St, fs: Fs, s: St)
    requires #[trigger] defs_so_far(ds, k, fs0, s0, fs, s)
    ensures 0 <= k <= ds.len(), k == ds.len() ==> defs(ds, fs0, s0) == Some((fs, s)),
      k < ds.len() ==> match *ds[k] { Expr::GlobalVariableDefinition(x, e) => val(e, fs, s) is Some, Expr::FunctionDefinition(..) => true, _ => false }
  { reveal(defs_so_far); reveal_with_fuel(defs, 1); if k < ds.len() { assert(ds.skip(k)[0] == ds[k]); } }
  pub broadcast proof fn lemma_defs_step(ds: Seq<Rc<Expr>>, k: int, fs0: Fs, s0: St, fs: Fs, s: St, j: int, fs1: Fs, s1: St)
    requires #[trigger] defs_so_far(ds, k, fs0, s0, fs, s), k < ds.len(), j == k + 1,
      match *ds[k] {
        Expr::GlobalVariableDefinition(x, e) => match val(e, fs, s) { Some((v, s2)) => fs1 == fs && s1 == added(s2, x@, v), None => false },
        Expr::FunctionDefinition(f, _, _) => fs1 == fs.insert(f@, ds[k]) && s1 == s,
        _ => false }
    ensures #[trigger] defs_so_far(ds, j, fs0, s0, fs1, s1)
  {
    reveal(defs_so_far);
    reveal_with_fuel(defs, 2);
    assert(ds.skip(k)[0] == ds[k]);
    assert(ds.skip(k).drop_first() =~= ds.skip(j));
  }
  // frames
  pub broadcast proof fn lemma_lookup(s: St, m: Fr, x: Seq<char>)
    ensures #[trigger] lookup(s.push(m), x) == if m.dom().contains(x) { Some(m[x]) } else { lookup(s, x) }
  { reveal(lookup); assert(s.push(m).drop_last() =~= s); }
  pub broadcast proof fn lemma_lookup_none(x: Seq<char>)
    ensures #[trigger] lookup(Seq::<Fr>::empty(), x) is None
  { reveal(lookup); }
  pub broadcast proof fn lemma_updated(s: St, m: Fr, x: Seq<char>, v: V)
    ensures #[trigger] updated(s.push(m), x, v) == if m.dom().contains(x) { s.push(m.insert(x, v)) } else { updated(s, x, v).push(m) }
  { reveal(updated); assert(s.push(m).drop_last() =~= s); }
  pub broadcast proof fn lemma_updated_none(x: Seq<char>, v: V)
    ensures #[trigger] updated(Seq::<Fr>::empty(), x, v) == Seq::<Fr>::empty()
  { reveal(updated); }
  pub broadcast proof fn lemma_frm(m: Map<Seq<char>, Value>, k: Seq<char>, v: Value)
    ensures #[trigger] frm(m.insert(k, v)) == frm(m).insert(k, abs(v))
  { reveal(frm); assert(frm(m.insert(k, v)) =~= frm(m).insert(k, abs(v))); }
  pub broadcast proof fn lemma_frm_at(m: Map<Seq<char>, Value>, k: Seq<char>)
    ensures (#[trigger] frm(m).dom().contains(k)) <==> m.dom().contains(k), m.dom().contains(k) ==> frm(m)[k] == abs(m[k])
  { reveal(frm); }
  pub broadcast proof fn lemma_frm_none(m: Map<Seq<char>, Value>)
    requires m == Map::<Seq<char>, Value>::empty()
    ensures #[trigger] frm(m) == no_names()
  { reveal(frm); assert(frm(m) =~= no_names()); }
  pub broadcast proof fn lemma_abs(v: Value)
    ensures match v { Value::Int(i) => #[trigger] abs(v) == V::I(i as int), Value::Bool(b) => abs(v) == V::B(b), Value::String(t) => abs(v) == V::S(t@), Value::Array(a) => abs(v) == V::A(all_abs(a@)) }
  { reveal(abs); match v { Value::Array(a) => { assert((abs(v)->A_0) =~= all_abs(a@)); } _ => {} } }
  pub broadcast proof fn lemma_frames(e: Environment)
    ensures #[trigger] frames(e).len() > 0, frames(e).last() == fr(e.bindings)
  { reveal(frames); }
}
