// TRUSTED: numbers (rust_decimal). A decimal is a number; for whole numbers the integer conversions answer exactly
#[verifier::external_body]
pub struct Decimal { x: u64 }
impl Decimal {
  pub uninterp spec fn whole(&self) -> bool;
  pub uninterp spec fn val(&self) -> int;
}
pub open spec fn fits_as(whole: bool, v: int, lo: int, hi: int, r: Option<int>) -> bool {
  whole ==> match r { Some(x) => x == v && lo <= v <= hi, None => v < lo || v > hi }
}
pub open spec fn some<T>(o: Option<T>, f: spec_fn(T) -> int) -> Option<int> { match o { Some(x) => Some(f(x)), None => None } }
macro_rules! vx_to {
  ($($n:ident $t:ty),*) => { verus! { impl Decimal { $(
    #[verifier::external_body]
    pub fn $n(&self) -> (r: Option<$t>)
      ensures fits_as(self.whole(), self.val(), <$t>::MIN as int, <$t>::MAX as int, some(r, |x: $t| x as int))
    { unimplemented!() }
  )* } } }
}
vx_to! { to_i128 i128, to_u128 u128, to_i64 i64, to_u64 u64, to_i32 i32, to_u32 u32, to_i16 i16, to_u16 u16, to_i8 i8, to_u8 u8 }
impl Clone for Decimal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// TRUSTED: durations. A duration is its length in nanoseconds
#[verifier::external_body]
pub struct VxStdDuration { x: u64 }
impl VxStdDuration {
  pub uninterp spec fn ns(&self) -> int;
  #[verifier::external_body]
  pub fn from_nanos(n: u64) -> (r: Self) ensures r.ns() == n { unimplemented!() }
  #[verifier::external_body]
  pub fn from_micros(n: u64) -> (r: Self) ensures r.ns() == n * 1_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn from_millis(n: u64) -> (r: Self) ensures r.ns() == n * 1_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn from_secs(n: u64) -> (r: Self) ensures r.ns() == n * 1_000_000_000 { unimplemented!() }
}
#[verifier::external_body]
pub struct VxChronoDuration { x: u64 }
/// chrono holds at most i64::MAX milliseconds either way
pub open spec fn chrono_fits(ns: int) -> bool { -(i64::MAX * 1_000_000) <= ns <= i64::MAX * 1_000_000 }
pub open spec fn chrono_try(r: Option<VxChronoDuration>, ns: int) -> bool {
  match r { Some(d) => d.ns() == ns && chrono_fits(ns), None => !chrono_fits(ns) }
}
impl VxChronoDuration {
  pub uninterp spec fn ns(&self) -> int;
  #[verifier::external_body]
  pub fn nanoseconds(n: i64) -> (r: Self) ensures r.ns() == n { unimplemented!() }
  #[verifier::external_body]
  pub fn microseconds(n: i64) -> (r: Self) ensures r.ns() == n * 1_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn milliseconds(n: i64) -> (r: Self) requires chrono_fits(n * 1_000_000) ensures r.ns() == n * 1_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn seconds(n: i64) -> (r: Self) requires chrono_fits(n * 1_000_000_000) ensures r.ns() == n * 1_000_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn minutes(n: i64) -> (r: Self) requires chrono_fits(n * 60_000_000_000) ensures r.ns() == n * 60_000_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn hours(n: i64) -> (r: Self) requires chrono_fits(n * 3_600_000_000_000) ensures r.ns() == n * 3_600_000_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn days(n: i64) -> (r: Self) requires chrono_fits(n * 86_400_000_000_000) ensures r.ns() == n * 86_400_000_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn try_milliseconds(n: i64) -> (r: Option<Self>) ensures chrono_try(r, n * 1_000_000) { unimplemented!() }
  #[verifier::external_body]
  pub fn try_seconds(n: i64) -> (r: Option<Self>) ensures chrono_try(r, n * 1_000_000_000) { unimplemented!() }
  #[verifier::external_body]
  pub fn try_minutes(n: i64) -> (r: Option<Self>) ensures chrono_try(r, n * 60_000_000_000) { unimplemented!() }
  #[verifier::external_body]
  pub fn try_hours(n: i64) -> (r: Option<Self>) ensures chrono_try(r, n * 3_600_000_000_000) { unimplemented!() }
  #[verifier::external_body]
  pub fn try_days(n: i64) -> (r: Option<Self>) ensures chrono_try(r, n * 86_400_000_000_000) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxError { x: u64 }
#[verifier::external]
impl std::fmt::Debug for VxError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
pub type Result<T, E = VxError> = std::result::Result<T, E>;
#[verifier::external_body]
pub fn vx_anyhow() -> VxError { unimplemented!() }
/// the length of one unit in nanoseconds
pub open spec fn unit_ns(u: TimeUnit) -> int {
  match u {
    TimeUnit::Nanoseconds => 1,
    TimeUnit::Microseconds => 1_000,
    TimeUnit::Milliseconds => 1_000_000,
    TimeUnit::Seconds => 1_000_000_000,
    TimeUnit::Minutes => 60_000_000_000,
    TimeUnit::Hours => 3_600_000_000_000,
    TimeUnit::Days => 86_400_000_000_000,
  }
}
pub open spec fn total_ns(d: ConfigDurationValue) -> int { d.value.0.val() * unit_ns(d.unit) }
// TRUSTED: a hash map is a finite map from texts; a traversal visits every entry once, in an order of its own
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct HashMap<K, V> { k: Option<Box<K>>, v: Option<Box<V>> }
pub trait VxKey { spec fn key(&self) -> Seq<char>; }
impl VxKey for str { open spec fn key(&self) -> Seq<char> { self@ } }
impl VxKey for String { open spec fn key(&self) -> Seq<char> { self@ } }
impl<'a, T: VxKey + ?Sized> VxKey for &'a T { open spec fn key(&self) -> Seq<char> { (**self).key() } }
impl<V> HashMap<String, V> {
  pub uninterp spec fn m(&self) -> Map<Seq<char>, V>;
  pub uninterp spec fn order(&self) -> Seq<(String, V)>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r.m() == Map::<Seq<char>, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut<Q: VxKey + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
    ensures match r {
      Some(v) => old(self).m().dom().contains(k.key()) && *v == old(self).m()[k.key()] && final(self).m() == old(self).m().insert(k.key(), *final(v)),
      None => !old(self).m().dom().contains(k.key()) && final(self).m() == old(self).m() }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn get<Q: VxKey + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
    ensures match r { Some(v) => self.m().dom().contains(k.key()) && *v == self.m()[k.key()], None => !self.m().dom().contains(k.key()) }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key<Q: VxKey + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self.m().dom().contains(k.key()) { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
    ensures final(self).m() == old(self).m().insert(k@, v)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_is_empty(&self) -> (r: bool) ensures r == (self.m().dom() =~= vstd::set::Set::<Seq<char>>::empty()) { unimplemented!() }
}
impl<V> VxIntoIter for HashMap<String, V> {
  type Item = (String, V);
  open spec fn items(self) -> Seq<(String, V)> { self.order() }
  #[verifier::external_body]
  fn vx_into(self) -> VxIter<(String, V)> { unimplemented!() }
}
impl<'a, V> VxIntoIter for &'a HashMap<String, V> {
  type Item = (&'a String, &'a V);
  open spec fn items(self) -> Seq<(&'a String, &'a V)> { refs(self.order()) }
  #[verifier::external_body]
  fn vx_into(self) -> VxIter<(&'a String, &'a V)> { unimplemented!() }
}
pub open spec fn refs<'a, V>(s: Seq<(String, V)>) -> Seq<(&'a String, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].0, &s[i].1)) }
/// k is the key of an entry the traversal has visited when n entries are done
pub open spec fn seen<V>(h: HashMap<String, V>, n: int, k: Seq<char>) -> bool {
  exists|i: int| 0 <= i < n && i < h.order().len() && k == (#[trigger] h.order()[i]).0@
}
pub mod vx_hocon_lemmas {
  use super::*;
  use vstd::prelude::*;
  /// every entry once
  pub broadcast axiom fn axiom_order<V>(h: HashMap<String, V>)
    ensures
      #![trigger h.order()]
      forall|i: int| 0 <= i < h.order().len() ==> h.m().dom().contains((#[trigger] h.order()[i]).0@) && h.order()[i].1 == h.m()[h.order()[i].0@],
      forall|k: Seq<char>| #[trigger] h.m().dom().contains(k) ==> seen(h, h.order().len() as int, k),
      forall|i: int, j: int| 0 <= i < j < h.order().len() ==> (#[trigger] h.order()[i]).0@ != (#[trigger] h.order()[j]).0@;
  pub broadcast proof fn lemma_merge_step(l: ConfigValue, xs: Seq<ConfigValue>, i: int, y: ConfigValue, j: int, r: ConfigValue)
    requires
      #[trigger] is_merged_all(l, xs.take(i), y),
      0 <= i < xs.len(), j == i + 1, is_merged(y, xs[i], r)
    ensures
      #[trigger] is_merged_all(l, xs.take(j), r)
  {
    assert forall|n: nat| #[trigger] merged_all(n, l, xs.take(j), r) by {
      assert(xs.take(j).drop_last() =~= xs.take(i));
      assert(xs.take(j).last() == xs[i]);
      assert(merged_all(n, l, xs.take(i), y));
      if n > 0 {
        let zs = xs.take(j);
        assert(zs.len() > 0);
        assert(merged((n - 1) as nat, y, zs.last(), r));
        assert(merged_all(n, l, zs.drop_last(), y));
        assert(between(y));
      }
    }
  }
  pub broadcast proof fn lemma_push_step(v: ConfigValue, xs: Seq<ConfigValue>, i: int, y: ConfigValue, j: int, r: ConfigValue)
    requires
      #[trigger] pushed_all(v, xs.take(i), y),
      0 <= i < xs.len(), j == i + 1, pushed(y, xs[i], r)
    ensures
      #[trigger] pushed_all(v, xs.take(j), r)
  {
    let zs = xs.take(j);
    assert(zs.drop_last() =~= xs.take(i));
    assert(zs.last() == xs[i]);
    assert(pushed(y, zs.last(), r));
  }
  /// the cases of a merge
  pub open spec fn merge_case(l: ConfigValue, x: ConfigValue, r: ConfigValue) -> bool {
    match (l, x) {
      (ConfigValue::Object(a), ConfigValue::Object(b)) => r is Object && forall|n: nat| #[trigger] obj_merged(n, a.0.m(), b.0.m(), r->Object_0.0.m()),
      (ConfigValue::Array(a), ConfigValue::Array(b)) => r is Array && r->Array_0.0@ == a.0@ + b.0@,
      (_, ConfigValue::Link(_)) => is_merged_all(l, hist(x), r),
      (ConfigValue::Link(p), ConfigValue::Object(_)) if p.value is Object => exists|y: ConfigValue| is_merged(p.value, x, y) && #[trigger] pushed(l, y, r),
      (ConfigValue::Link(p), ConfigValue::Array(_)) if p.value is Array => exists|y: ConfigValue| is_merged(p.value, x, y) && #[trigger] pushed(l, y, r),
      _ => pushed(l, x, r),
    }
  }
  pub broadcast proof fn lemma_merge_case(l: ConfigValue, x: ConfigValue, r: ConfigValue)
    requires merge_case(l, x, r)
    ensures #[trigger] is_merged(l, x, r)
  {
    assert forall|n: nat| #[trigger] merged(n, l, x, r) by {
      if n > 0 {
        match (l, x) {
          (ConfigValue::Object(a), ConfigValue::Object(b)) => { assert(obj_merged((n - 1) as nat, a.0.m(), b.0.m(), r->Object_0.0.m())); }
          (_, ConfigValue::Link(_)) => { assert(merged_all((n - 1) as nat, l, hist(x), r)); }
          (ConfigValue::Link(p), ConfigValue::Object(_)) if p.value is Object => { let y = choose|y: ConfigValue| is_merged(p.value, x, y) && #[trigger] pushed(l, y, r); assert(merged((n - 1) as nat, p.value, x, y)); }
          (ConfigValue::Link(p), ConfigValue::Array(_)) if p.value is Array => { let y = choose|y: ConfigValue| is_merged(p.value, x, y) && #[trigger] pushed(l, y, r); assert(merged((n - 1) as nat, p.value, x, y)); }
          _ => {}
        }
      }
    }
  }
  /// a product with a known factor
  pub broadcast proof fn lemma_factor(a: int, b: int)
    ensures
      #![trigger a * b]
      b == 24 ==> a * b == a * 24,
      b == 60 ==> a * b == a * 60,
      b == 1440 ==> a * b == a * 1440,
      b == 3600 ==> a * b == a * 3600,
      b == 86400 ==> a * b == a * 86400
  {}
  pub broadcast axiom fn axiom_blen(s: Seq<char>, k: int)
    ensures
      #![trigger blen(s.take(k))]
      0 <= k < s.len() && (s[k] as u32) < 128 ==> blen(s.take(k + 1)) == blen(s.take(k)) + 1,
      0 <= k <= s.len() ==> blen(s.take(k)) <= blen(s);
  pub broadcast proof fn lemma_find(s: Seq<char>, c: char)
    ensures
      #![trigger find(s, c)]
      0 <= find(s, c) <= s.len(),
      find(s, c) < s.len() ==> s[find(s, c)] == c
    decreases s.len()
  { if s.len() > 0 && s[0] != c { lemma_find(s.drop_first(), c); } }
}
impl Clone for ConfigValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for ConfigDurationValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---- the meaning of values
/// all values a key was given, oldest first
pub open spec fn hist(v: ConfigValue) -> Seq<ConfigValue> decreases v {
  match v { ConfigValue::Link(l) => hist(*l.prev).push(l.value), x => seq![x] }
}
pub open spec fn now(v: ConfigValue) -> ConfigValue { match v { ConfigValue::Link(l) => l.value, x => x } }
/// v with x put on top; a substitution remembers what it stands on
pub open spec fn pushed(v: ConfigValue, x: ConfigValue, r: ConfigValue) -> bool {
  match r {
    ConfigValue::Link(l) => *l.prev == v && match x {
      ConfigValue::Reference { prev, path, missing } => l.value is Reference && l.value->Reference_prev == Some(l.prev) && l.value->path@ == path@ && l.value->missing == missing,
      x => l.value == x,
    },
    _ => false,
  }
}
/// v with all of xs put on top, in order
pub open spec fn pushed_all(v: ConfigValue, xs: Seq<ConfigValue>, r: ConfigValue) -> bool decreases xs.len() {
  if xs.len() == 0 { r == v } else { exists|y: ConfigValue| pushed_all(v, xs.drop_last(), y) && #[trigger] pushed(y, xs.last(), r) }
}
/// r is l with x merged in; n bounds how deep the statement looks, and it is proved for every n
pub open spec fn merged(n: nat, l: ConfigValue, x: ConfigValue, r: ConfigValue) -> bool decreases n, 1int {
  n == 0 || match (l, x) {
    (ConfigValue::Object(a), ConfigValue::Object(b)) => r is Object && obj_merged((n - 1) as nat, a.0.m(), b.0.m(), r->Object_0.0.m()),
    (ConfigValue::Array(a), ConfigValue::Array(b)) => r is Array && r->Array_0.0@ == a.0@ + b.0@,
    (_, ConfigValue::Link(_)) => merged_all((n - 1) as nat, l, hist(x), r),
    (ConfigValue::Link(p), ConfigValue::Object(_)) if p.value is Object => exists|y: ConfigValue| merged((n - 1) as nat, p.value, x, y) && #[trigger] pushed(l, y, r),
    (ConfigValue::Link(p), ConfigValue::Array(_)) if p.value is Array => exists|y: ConfigValue| merged((n - 1) as nat, p.value, x, y) && #[trigger] pushed(l, y, r),
    _ => pushed(l, x, r),
  }
}
pub open spec fn obj_merged(n: nat, a: Map<Seq<char>, ConfigValue>, b: Map<Seq<char>, ConfigValue>, r: Map<Seq<char>, ConfigValue>) -> bool decreases n, 0int {
  n == 0 || (r.dom() =~= a.dom().union(b.dom()) && forall|k: Seq<char>| #[trigger] r.dom().contains(k) ==>
    if !b.dom().contains(k) { r[k] == a[k] } else if !a.dom().contains(k) { r[k] == b[k] } else { merged((n - 1) as nat, a[k], b[k], r[k]) })
}
pub open spec fn is_merged(l: ConfigValue, x: ConfigValue, r: ConfigValue) -> bool { forall|n: nat| #[trigger] merged(n, l, x, r) }
pub open spec fn is_merged_all(l: ConfigValue, xs: Seq<ConfigValue>, r: ConfigValue) -> bool { forall|n: nat| #[trigger] merged_all(n, l, xs, r) }
/// what the entry of one key of b does to a
pub open spec fn put(a: Map<Seq<char>, ConfigValue>, b: Map<Seq<char>, ConfigValue>, r: Map<Seq<char>, ConfigValue>, k: Seq<char>) -> bool {
  r.dom().contains(k) && if a.dom().contains(k) { is_merged(a[k], b[k], r[k]) } else { r[k] == b[k] }
}
/// what combining does to one key that other has
pub open spec fn comb(a: Map<Seq<char>, ConfigValue>, b: Map<Seq<char>, ConfigValue>, r: Map<Seq<char>, ConfigValue>, k: Seq<char>) -> bool {
  r.dom().contains(k) && if !a.dom().contains(k) { r[k] == b[k] } else if b[k] is Link { pushed_all(a[k], hist(b[k]), r[k]) } else { r[k] == a[k] }
}
pub open spec fn between(y: ConfigValue) -> bool { true }
pub open spec fn merged_all(n: nat, l: ConfigValue, xs: Seq<ConfigValue>, r: ConfigValue) -> bool decreases n, xs.len() {
  n == 0 || if xs.len() == 0 { r == l } else { exists|y: ConfigValue| #[trigger] between(y) && merged_all(n, l, xs.drop_last(), y) && merged((n - 1) as nat, y, xs.last(), r) }
}
/// the value a dotted path leads to
pub open spec fn lookup(v: ConfigValue, p: Seq<char>) -> Option<ConfigValue> decreases p.len() {
  let k = find(p, '.');
  match v {
    ConfigValue::Object(o) => {
      let key = p.take(k);
      if !o.0.m().dom().contains(key) { None }
      else if k < 0 || k >= p.len() { Some(now(o.0.m()[key])) }
      else { lookup(now(o.0.m()[key]), p.skip(k + 1)) }
    }
    _ => None,
  }
}

pub open spec fn chrono_ok(d: ConfigDurationValue) -> bool { d.value.0.whole() && i64::MIN <= d.value.0.val() <= i64::MAX && chrono_fits(total_ns(d)) }
pub open spec fn std_ok(d: ConfigDurationValue) -> bool { d.value.0.whole() && 0 <= d.value.0.val() <= u64::MAX && total_ns(d) <= u64::MAX * 1_000_000_000 }
// TRUSTED: the grammar of a path accepts dotted words of letters, '-' and '_' (checked by the harness on samples)
pub open spec fn word(p: Seq<char>) -> bool { p.len() > 0 && forall|i: int| 0 <= i < p.len() ==> { let c = #[trigger] p[i]; 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '-' || c == '_' } }
pub open spec fn legal(p: Seq<char>) -> bool decreases p.len() {
  let k = find(p, '.');
  word(p.take(k)) && (0 <= k < p.len() ==> legal(p.skip(k + 1)))
}
