// TRUSTED in resolve only: a call that panics does not come back. `unwrap` of nothing, `panic!` and looking up a text that is no
// path panic, as the library documents; that is outside partial correctness
pub trait VxUnwrap<T>: Sized {
  spec fn gives(self, r: T) -> bool;
  fn vx_unwrap(self) -> (r: T) ensures self.gives(r);
}
impl<T> VxUnwrap<T> for Option<T> {
  open spec fn gives(self, r: T) -> bool { self == Some(r) }
  #[verifier::external_body]
  fn vx_unwrap(self) -> T { unimplemented!() }
}
impl<T, E> VxUnwrap<T> for std::result::Result<T, E> {
  open spec fn gives(self, r: T) -> bool { self == Ok::<T, E>(r) }
  #[verifier::external_body]
  fn vx_unwrap(self) -> T { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_stop() -> ! { unimplemented!() }
impl ConfigValue {
  #[verifier::external_body]
  pub fn vx_get_value(&self, path: &str) -> (res: Option<&ConfigValue>)
    ensures legal(path@) ==> match res { Some(v) => lookup(*self, path@) == Some(*v), None => lookup(*self, path@) is None }
  { unimplemented!() }
}
// TRUSTED: the file system. A file that opens and is read holds a text (UTF-8), which is put behind what the buffer had; the
// factory's reader is the default one (a reader of one's own is outside)
pub uninterp spec fn holds(name: Seq<char>, text: Seq<char>) -> bool;
pub uninterp spec fn opens(name: Seq<char>) -> bool;
pub uninterp spec fn reads_as_text(name: Seq<char>) -> bool;
#[verifier::external_body]
pub struct File { x: u64 }
impl File {
  pub uninterp spec fn name(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn open(name: &str) -> (r: std::result::Result<File, VxError>) ensures r is Ok <==> opens(name@), r is Ok ==> r->Ok_0.name() == name@ { unimplemented!() }
  #[verifier::external_body]
  pub fn read_to_string(&mut self, text: &mut String) -> (r: std::result::Result<usize, VxError>)
    ensures r is Ok <==> reads_as_text(old(self).name()), r is Ok ==> exists|t: Seq<char>| holds(old(self).name(), t) && #[trigger] (old(text)@ + t) == final(text)@
  { unimplemented!() }
}
pub struct DefaultFileReader;
pub struct ConfigFactory { pub file_reader: Box<DefaultFileReader> }
pub open spec fn there(name: Seq<char>) -> bool { opens(name) && reads_as_text(name) }
/// what an include of that file gives: by definition, whatever loading it gives (a name of its own, because documents include documents)
pub uninterp spec fn included(name: Seq<char>, v: ConfigValue) -> bool;
pub mod vx_include_lemmas {
  use super::*;
  use vstd::prelude::*;
  pub broadcast axiom fn axiom_included(name: Seq<char>, v: ConfigValue) requires #[trigger] loaded(name, v) ensures included(name, v);
}
/// what a file stands for
#[verifier::opaque]
pub open spec fn loaded(name: Seq<char>, v: ConfigValue) -> bool { exists|t: Seq<char>| #[trigger] holds(name, t) && document(t, v) }
// TRUSTED: the environment is a partial map from names to texts
pub uninterp spec fn env(name: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn vx_env(name: &str) -> (r: std::result::Result<String, VxError>)
  ensures match r { Ok(t) => env(name@) == Some(t@), Err(_) => env(name@) is None }
{ unimplemented!() }
pub trait VxOk<T>: Sized { spec fn okay(self) -> Option<T>; fn vx_ok(self) -> (r: Option<T>) ensures r == self.okay(); }
impl<T, E> VxOk<T> for std::result::Result<T, E> {
  open spec fn okay(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
  fn vx_ok(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
}
// TRUSTED: slices, vectors and texts of std
#[verifier::external_body]
pub fn vx_slice_from<T>(v: &Vec<T>, a: usize) -> (r: &[T]) requires a <= v@.len() ensures r@ == v@.skip(a as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_slice<T>(v: &Vec<T>, a: usize, b: usize) -> (r: &[T]) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { unimplemented!() }
pub open spec fn points<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> VxIntoIter for &'a [T] {
  type Item = &'a T;
  open spec fn items(self) -> Seq<&'a T> { points(self@) }
  #[verifier::external_body]
  fn vx_into(self) -> VxIter<&'a T> { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_next_mut<'a, T>(v: &'a mut Vec<T>, i: &mut usize) -> (r: Option<&'a mut T>)
  requires *old(i) <= old(v)@.len()
  ensures match r {
    Some(x) => *old(i) < old(v)@.len() && *x == old(v)@[*old(i) as int] && final(v)@ == old(v)@.update(*old(i) as int, *final(x)) && *final(i) == *old(i) + 1,
    None => *old(i) >= old(v)@.len() && final(v)@ == old(v)@ && *final(i) == *old(i),
  }
{ unimplemented!() }
pub trait VxLast<T> { spec fn end(&self) -> Option<T>; fn vx_last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.end() == Some(*x), None => self.end() is None }; }
impl<T> VxLast<T> for Vec<T> {
  open spec fn end(&self) -> Option<T> { if self@.len() == 0 { None } else { Some(self@.last()) } }
  #[verifier::external_body]
  fn vx_last(&self) -> Option<&T> { self.last() }
}
pub trait VxOption<T>: Sized {
  spec fn opt(&self) -> Option<T>;
  fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>)
    requires f.requires(())
    ensures self.opt() is Some ==> r == self.opt(), self.opt() is None ==> f.ensures((), r);
  fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
    requires self.opt() is Some ==> f.requires((self.opt()->0,))
    ensures match self.opt() { Some(x) => f.ensures((x,), r), None => r == d };
  fn vx_as_mut(&mut self) -> (r: Option<&mut T>)
    ensures match r { Some(x) => old(self).opt() == Some(*x) && final(self).opt() == Some(*final(x)), None => old(self).opt() is None && final(self).opt() is None };
}
impl<T> VxOption<T> for Option<T> {
  open spec fn opt(&self) -> Option<T> { *self }
  fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> Option<T> { match self { Some(x) => Some(x), None => f() } }
  fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> U { match self { Some(x) => f(x), None => d } }
  #[verifier::external_body]
  fn vx_as_mut(&mut self) -> Option<&mut T> { unimplemented!() }
}
pub trait VxCloned { spec fn copy(self) -> Option<ConfigValue>; fn vx_cloned(self) -> (r: Option<ConfigValue>) ensures r == self.copy(); }
impl<'a> VxCloned for Option<&'a ConfigValue> {
  open spec fn copy(self) -> Option<ConfigValue> { match self { Some(x) => Some(*x), None => None } }
  fn vx_cloned(self) -> Option<ConfigValue> { match self { Some(x) => Some(x.clone()), None => None } }
}
pub open spec fn dotted(k: Seq<char>) -> bool { find(k, '.') < k.len() }
/// the words between the dots
pub open spec fn parts(k: Seq<char>) -> Seq<Seq<char>> decreases k.len() {
  let i = find(k, '.');
  if 0 <= i < k.len() { seq![k.take(i)] + parts(k.skip(i + 1)) } else { seq![k] }
}
pub trait VxWords {
  spec fn word(&self) -> Seq<char>;
  fn vx_contains(&self, p: &str) -> (r: bool) requires p@.len() == 1 ensures r == (find(self.word(), p@[0]) < self.word().len());
  fn vx_to_string(&self) -> (r: String) ensures r@ == self.word();
  fn vx_words<'a>(&'a self, p: &str) -> (r: VxIter<&'a str>)
    requires p@ =~= seq!['.']
    ensures r.view().len() == parts(self.word()).len(), forall|i: int| 0 <= i < r.view().len() ==> (#[trigger] r.view()[i])@ == parts(self.word())[i];
}
impl VxWords for str {
  open spec fn word(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn vx_contains(&self, p: &str) -> bool { unimplemented!() }
  #[verifier::external_body]
  fn vx_to_string(&self) -> String { unimplemented!() }
  #[verifier::external_body]
  fn vx_words<'a>(&'a self, p: &str) -> VxIter<&'a str> { unimplemented!() }
}
pub trait VxPush { spec fn was(&self) -> Seq<char>; fn vx_push_str(&mut self, t: &str) ensures final(self).was() == old(self).was() + t@; fn vx_is_empty(&self) -> (r: bool) ensures r == (self.was().len() == 0); }
impl VxPush for String {
  open spec fn was(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn vx_push_str(&mut self, t: &str) { unimplemented!() }
  #[verifier::external_body]
  fn vx_is_empty(&self) -> bool { unimplemented!() }
}
impl<V> HashMap<String, V> {
  #[verifier::external_body]
  pub fn iter<'a>(&'a self) -> (r: VxIter<(&'a String, &'a V)>) ensures r.view() == refs(self.order()) { unimplemented!() }
}
// TRUSTED: derived Clone is faithful
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<V: Clone> Clone for HashMap<String, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Clone> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> T { unimplemented!() } }
impl<T> VxIter<T> {
  /// what the test accepts, in order: which of the elements is said by the test's own contract
  #[verifier::external_body]
  pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VxIter<T>)
    requires forall|x: &T| f.requires((x,))
    ensures
      forall|i: int| 0 <= i < r.view().len() ==> exists|j: int| 0 <= j < self.view().len() && self.view()[j] == #[trigger] r.view()[i] && f.ensures((&r.view()[i],), true),
      forall|j: int| 0 <= j < self.view().len() && !f.ensures((&#[trigger] self.view()[j],), false) ==> exists|i: int| 0 <= i < r.view().len() && r.view()[i] == self.view()[j],
  { unimplemented!() }
}

// ---- what resolving means
pub open spec fn nondotted(m: Map<Seq<char>, ConfigValue>, k: Seq<char>) -> bool { m.dom().contains(k) && !dotted(k) }
/// v under the keys ks, one inside the other
pub open spec fn nested(ks: Seq<Seq<char>>, v: ConfigValue, x: ConfigValue) -> bool decreases ks.len() {
  if ks.len() == 0 { x == v } else {
    x is Object && (forall|k: Seq<char>| #[trigger] x->Object_0.0.m().dom().contains(k) <==> k == ks[0]) && nested(ks.drop_first(), v, x->Object_0.0.m()[ks[0]])
  }
}
/// m1 is m with x put or merged at k
pub open spec fn joined(m: Map<Seq<char>, ConfigValue>, k: Seq<char>, x: ConfigValue, m1: Map<Seq<char>, ConfigValue>) -> bool {
  &&& m1.dom() == m.dom().insert(k)
  &&& forall|j: Seq<char>| j != k && #[trigger] m1.dom().contains(j) ==> m1[j] == m[j]
  &&& if m.dom().contains(k) { is_merged(m[k], x, m1[k]) } else { m1[k] == x }
}
pub open spec fn here(m: Map<Seq<char>, ConfigValue>) -> bool { true }
/// the object of the keys without dots, and then the dotted ones, one after the other in the map's order
pub open spec fn expanded(n: nat, es: Seq<(String, ConfigValue)>, o: Map<Seq<char>, ConfigValue>, m: Map<Seq<char>, ConfigValue>) -> bool decreases n, 0int, es.len() {
  if es.len() == 0 {
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) <==> nondotted(o, k)
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> (n == 0 || resolved((n - 1) as nat, o[k], None, m[k]))
  } else if !dotted(es.last().0@) { expanded(n, es.drop_last(), o, m) } else {
    exists|m0: Map<Seq<char>, ConfigValue>, x: ConfigValue, y: ConfigValue| expanded(n, es.drop_last(), o, m0) && (n == 0 || resolved((n - 1) as nat, es.last().1, None, x))
      && #[trigger] nested(parts(es.last().0@).drop_first(), x, y) && #[trigger] joined(m0, parts(es.last().0@)[0], y, m)
  }
}
pub open spec fn each(n: nat, xs: Seq<ConfigValue>, s: Option<ConfigValue>, ys: Seq<ConfigValue>) -> bool decreases n, 1int {
  xs.len() == ys.len() && (n == 0 || forall|i: int| 0 <= i < xs.len() ==> resolved((n - 1) as nat, #[trigger] xs[i], s, ys[i]))
}
pub open spec fn texts(xs: Seq<ConfigValue>) -> Seq<char> decreases xs.len() {
  if xs.len() == 0 { seq![] } else { texts(xs.drop_last()) + match xs.last() { ConfigValue::String(t) => t@, _ => seq![] } }
}
/// the value a path has: in the document, or else in the environment
pub open spec fn value_of(src: ConfigValue, p: Seq<char>, x: ConfigValue) -> bool {
  match lookup(src, p) { Some(y) => x == y, None => match env(p) { Some(t) => x is String && x->String_0@ == t, None => false } }
}
pub open spec fn has_value(src: ConfigValue, p: Seq<char>) -> bool { lookup(src, p) is Some || env(p) is Some }
/// what stands in for an optional substitution of nothing
pub open spec fn before(prev: Option<Rc<ConfigValue>>) -> ConfigValue { match prev { None => ConfigValue::Null, Some(p) => now(*p) } }
pub open spec fn so(ys: Seq<ConfigValue>) -> bool { true }
pub open spec fn prior(v: ConfigValue) -> ConfigValue { match v { ConfigValue::Link(l) => now(*l.prev), x => x } }
pub open spec fn doc(s: Option<&ConfigValue>) -> Option<ConfigValue> { match s { Some(x) => Some(*x), None => None } }
pub open spec fn linked(xs: Seq<ConfigValue>, s: Option<ConfigValue>, r: ConfigValue) -> bool {
  exists|ys: Seq<ConfigValue>| #[trigger] is_each(xs, s, ys) && ys.len() > 0 && pushed_all(ys[0], ys.skip(1), r)
}
/// an entry of that key is still to come
pub open spec fn pending(es: Seq<(&String, &ConfigValue)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0@ == k }
pub open spec fn coming(es: Seq<(String, ConfigValue)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0@ == k }
/// r is v with its substitutions resolved against s (without s: with its dotted keys expanded)
pub open spec fn resolved(n: nat, v: ConfigValue, s: Option<ConfigValue>, r: ConfigValue) -> bool decreases n, 2int {
  n == 0 || match (v, s) {
    (ConfigValue::Include(i), _) => included(i.file_name@, r),
    (ConfigValue::Link(_), Some(_)) => exists|ys: Seq<ConfigValue>| #[trigger] so(ys) && each((n - 1) as nat, hist(v), s, ys) && pushed_all(ys[0], ys.skip(1), r),
    (ConfigValue::Array(a), Some(_)) => r is Array && each((n - 1) as nat, a.0@, s, r->Array_0.0@),
    (ConfigValue::Object(a), Some(_)) => r is Object && (forall|k: Seq<char>| #[trigger] r->Object_0.0.m().dom().contains(k) <==> a.0.m().dom().contains(k))
      && forall|k: Seq<char>| #[trigger] r->Object_0.0.m().dom().contains(k) ==> resolved((n - 1) as nat, a.0.m()[k], s, r->Object_0.0.m()[k]),
    (ConfigValue::Object(a), None) => r is Object && expanded((n - 1) as nat, a.0.order(), a.0.m(), r->Object_0.0.m()),
    (ConfigValue::Enumeration { prev, values }, Some(_)) => exists|ys: Seq<ConfigValue>| #[trigger] so(ys) && each((n - 1) as nat, values.0@, s, ys)
      && if texts(ys).len() == 0 { prev is Some && r == prior(*prev->0) } else { r is String && r->String_0@ == texts(ys) },
    (ConfigValue::Reference { prev, path, missing }, Some(src)) => legal(path@) ==>
      if has_value(src, path@) { exists|x: ConfigValue| #[trigger] value_of(src, path@, x) && resolved((n - 1) as nat, x, s, r) }
      else { missing && resolved((n - 1) as nat, before(prev), s, r) },
    _ => r == v,
  }
}
pub open spec fn is_resolved(v: ConfigValue, s: Option<ConfigValue>, r: ConfigValue) -> bool { forall|n: nat| #[trigger] resolved(n, v, s, r) }
pub open spec fn is_each(xs: Seq<ConfigValue>, s: Option<ConfigValue>, ys: Seq<ConfigValue>) -> bool {
  xs.len() == ys.len() && forall|i: int| 0 <= i < xs.len() ==> is_resolved(#[trigger] xs[i], s, ys[i])
}
pub open spec fn is_expanded(es: Seq<(String, ConfigValue)>, o: Map<Seq<char>, ConfigValue>, m: Map<Seq<char>, ConfigValue>) -> bool { forall|n: nat| #[trigger] expanded(n, es, o, m) }
pub mod vx_resolve_lemmas {
  use super::*;
  use vstd::prelude::*;
  pub proof fn lemma_each(xs: Seq<ConfigValue>, s: Option<ConfigValue>, ys: Seq<ConfigValue>)
    requires is_each(xs, s, ys)
    ensures forall|n: nat| #[trigger] each(n, xs, s, ys)
  {
    assert forall|n: nat| #[trigger] each(n, xs, s, ys) by {
      if n > 0 { assert forall|i: int| 0 <= i < xs.len() implies resolved((n - 1) as nat, #[trigger] xs[i], s, ys[i]) by { assert(is_resolved(xs[i], s, ys[i])); } }
    }
  }
  pub open spec fn res_case(v: ConfigValue, s: Option<ConfigValue>, r: ConfigValue) -> bool {
    match (v, s) {
      (ConfigValue::Include(i), _) => included(i.file_name@, r),
      (ConfigValue::Link(_), Some(_)) => linked(hist(v), s, r),
      (ConfigValue::Array(a), Some(_)) => r is Array && is_each(a.0@, s, r->Array_0.0@),
      (ConfigValue::Object(a), Some(_)) => r is Object && (forall|k: Seq<char>| #[trigger] r->Object_0.0.m().dom().contains(k) <==> a.0.m().dom().contains(k))
        && forall|k: Seq<char>| #[trigger] r->Object_0.0.m().dom().contains(k) ==> is_resolved(a.0.m()[k], s, r->Object_0.0.m()[k]),
      (ConfigValue::Object(a), None) => r is Object && is_expanded(a.0.order(), a.0.m(), r->Object_0.0.m()),
      (ConfigValue::Enumeration { prev, values }, Some(_)) => exists|ys: Seq<ConfigValue>| #[trigger] is_each(values.0@, s, ys)
        && if texts(ys).len() == 0 { prev is Some && r == prior(*prev->0) } else { r is String && r->String_0@ == texts(ys) },
      (ConfigValue::Reference { prev, path, missing }, Some(src)) => legal(path@) ==>
        if has_value(src, path@) { exists|x: ConfigValue| #[trigger] value_of(src, path@, x) && is_resolved(x, s, r) }
        else { missing && is_resolved(before(prev), s, r) },
      _ => r == v,
    }
  }
  pub broadcast proof fn lemma_resolved(v: ConfigValue, s: Option<ConfigValue>, r: ConfigValue)
    requires res_case(v, s, r)
    ensures #[trigger] is_resolved(v, s, r)
  {
    assert forall|n: nat| #[trigger] resolved(n, v, s, r) by {
      if n > 0 {
        let m = (n - 1) as nat;
        match (v, s) {
          (ConfigValue::Link(_), Some(_)) => { let ys = choose|ys: Seq<ConfigValue>| #[trigger] is_each(hist(v), s, ys) && pushed_all(ys[0], ys.skip(1), r); lemma_each(hist(v), s, ys); assert(so(ys)); assert(each(m, hist(v), s, ys)); assert(resolved(n, v, s, r)); }
          (ConfigValue::Array(a), Some(_)) => { lemma_each(a.0@, s, r->Array_0.0@); assert(each(m, a.0@, s, r->Array_0.0@)); assert(resolved(n, v, s, r)); }
          (ConfigValue::Object(a), Some(_)) => { assert forall|k: Seq<char>| #[trigger] r->Object_0.0.m().dom().contains(k) implies resolved(m, a.0.m()[k], s, r->Object_0.0.m()[k]) by { assert(is_resolved(a.0.m()[k], s, r->Object_0.0.m()[k])); } assert(resolved(n, v, s, r)); }
          (ConfigValue::Object(a), None) => { assert(expanded(m, a.0.order(), a.0.m(), r->Object_0.0.m())); assert(resolved(n, v, s, r)); }
          (ConfigValue::Enumeration { prev, values }, Some(_)) => { let ys = choose|ys: Seq<ConfigValue>| #[trigger] is_each(values.0@, s, ys)
            && if texts(ys).len() == 0 { prev is Some && r == prior(*prev->0) } else { r is String && r->String_0@ == texts(ys) }; lemma_each(values.0@, s, ys); assert(so(ys)); assert(each(m, values.0@, s, ys)); assert(resolved(n, v, s, r)); }
          (ConfigValue::Reference { prev, path, missing }, Some(src)) => { if legal(path@) { if has_value(src, path@) {
            let x = choose|x: ConfigValue| #[trigger] value_of(src, path@, x) && is_resolved(x, s, r); assert(resolved(m, x, s, r)); } else { assert(resolved(m, before(prev), s, r)); } } assert(resolved(n, v, s, r)); }
          _ => { assert(resolved(n, v, s, r)); }
        }
      }
    }
  }
  pub proof fn lemma_expand_start(o: Map<Seq<char>, ConfigValue>, m: Map<Seq<char>, ConfigValue>)
    requires
      forall|k: Seq<char>| #[trigger] m.dom().contains(k) <==> nondotted(o, k),
      forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> is_resolved(o[k], None, m[k])
    ensures is_expanded(Seq::empty(), o, m)
  {
    assert forall|n: nat| #[trigger] expanded(n, Seq::empty(), o, m) by {
      if n > 0 { assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies resolved((n - 1) as nat, o[k], None, m[k]) by { assert(is_resolved(o[k], None, m[k])); } }
    }
  }
  pub broadcast proof fn lemma_expand_skip(es: Seq<(String, ConfigValue)>, i: int, j: int, o: Map<Seq<char>, ConfigValue>, m: Map<Seq<char>, ConfigValue>)
    requires #[trigger] is_expanded(es.take(i), o, m), 0 <= i < es.len(), j == i + 1, !dotted(es[i].0@)
    ensures #[trigger] is_expanded(es.take(j), o, m)
  {
    assert forall|n: nat| #[trigger] expanded(n, es.take(j), o, m) by {
      assert(es.take(j).drop_last() =~= es.take(i)); assert(es.take(j).last() == es[i]); assert(expanded(n, es.take(i), o, m));
    }
  }
  pub proof fn lemma_expand_step(es: Seq<(String, ConfigValue)>, i: int, o: Map<Seq<char>, ConfigValue>, m: Map<Seq<char>, ConfigValue>, x: ConfigValue, y: ConfigValue, m1: Map<Seq<char>, ConfigValue>)
    requires is_expanded(es.take(i), o, m), 0 <= i < es.len(), dotted(es[i].0@), is_resolved(es[i].1, None, x), nested(parts(es[i].0@).drop_first(), x, y), joined(m, parts(es[i].0@)[0], y, m1)
    ensures is_expanded(es.take(i + 1), o, m1)
  {
    assert forall|n: nat| #[trigger] expanded(n, es.take(i + 1), o, m1) by {
      let z = es.take(i + 1);
      assert(z.drop_last() =~= es.take(i)); assert(z.last() == es[i]); assert(expanded(n, es.take(i), o, m));
      if n > 0 { assert(resolved((n - 1) as nat, es[i].1, None, x)); }
      assert(nested(parts(z.last().0@).drop_first(), x, y) && joined(m, parts(z.last().0@)[0], y, m1));
    }
  }
  pub broadcast proof fn lemma_link_start(xs: Seq<ConfigValue>, s: Option<ConfigValue>, h: ConfigValue)
    requires xs.len() == 1, is_resolved(xs[0], s, h)
    ensures #[trigger] linked(xs, s, h)
  { assert(is_each(xs, s, seq![h])); assert(seq![h].skip(1) =~= seq![]); }
  pub broadcast proof fn lemma_link_step(xs: Seq<ConfigValue>, i: int, j: int, s: Option<ConfigValue>, h: ConfigValue, e: ConfigValue, h2: ConfigValue)
    requires #[trigger] linked(xs.take(i), s, h), 0 < i < xs.len(), j == i + 1, is_resolved(xs[i], s, e), #[trigger] pushed(h, e, h2)
    ensures #[trigger] linked(xs.take(j), s, h2)
  {
    let ys = choose|ys: Seq<ConfigValue>| #[trigger] is_each(xs.take(i), s, ys) && ys.len() > 0 && pushed_all(ys[0], ys.skip(1), h);
    let zs = ys.push(e);
    assert(zs.skip(1).drop_last() =~= ys.skip(1));
    assert forall|k: int| 0 <= k < j implies is_resolved(#[trigger] xs.take(j)[k], s, zs[k]) by { if k < i { assert(xs.take(i)[k] == xs[k]); } }
    assert(is_each(xs.take(j), s, zs));
    assert(zs.skip(1).last() == e);
  }
  pub broadcast proof fn lemma_pending(es: Seq<(&String, &ConfigValue)>, k: Seq<char>)
    requires es.len() > 0, #[trigger] pending(es, k)
    ensures pending(es.drop_first(), k) || es[0].0@ == k
  { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0@ == k; if i > 0 { assert(es.drop_first()[i - 1] == es[i]); } }
  pub broadcast proof fn lemma_coming(es: Seq<(String, ConfigValue)>, k: Seq<char>)
    requires es.len() > 0, #[trigger] coming(es, k)
    ensures coming(es.drop_first(), k) || es[0].0@ == k
  { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0@ == k; if i > 0 { assert(es.drop_first()[i - 1] == es[i]); } }
  pub broadcast proof fn lemma_parts(k: Seq<char>)
    ensures #[trigger] parts(k).len() >= 1, dotted(k) ==> parts(k).len() >= 2
    decreases k.len()
  { lemma_find(k); let i = find(k, '.'); if 0 <= i < k.len() { lemma_parts(k.skip(i + 1)); } }
  pub proof fn lemma_find(s: Seq<char>) ensures 0 <= find(s, '.') <= s.len() decreases s.len()
  { if s.len() > 0 && s[0] != '.' { lemma_find(s.drop_first()); } }
  pub broadcast proof fn lemma_nest(ks: Seq<Seq<char>>, i: int, j: int, v: ConfigValue, x: ConfigValue, y: ConfigValue)
    requires
      #[trigger] nested(ks.skip(i), v, x), 0 < i <= ks.len(), j == i - 1,
      y is Object, forall|k: Seq<char>| #[trigger] y->Object_0.0.m().dom().contains(k) <==> k == ks[j], y->Object_0.0.m()[ks[j]] == x
    ensures #[trigger] nested(ks.skip(j), v, y)
  { assert(ks.skip(j).drop_first() =~= ks.skip(i)); assert(ks.skip(j)[0] == ks[j]); }
  pub broadcast proof fn lemma_expand_joined(es: Seq<(String, ConfigValue)>, i: int, j: int, o: Map<Seq<char>, ConfigValue>, m: Map<Seq<char>, ConfigValue>, x: ConfigValue, y: ConfigValue, m1: Map<Seq<char>, ConfigValue>)
    requires
      #[trigger] is_expanded(es.take(i), o, m), 0 <= i < es.len(), j == i + 1, dotted(es[i].0@), is_resolved(es[i].1, None, x),
      #[trigger] nested(parts(es[i].0@).skip(1), x, y), joined(m, parts(es[i].0@)[0], y, m1)
    ensures #[trigger] is_expanded(es.take(j), o, m1)
  { assert(parts(es[i].0@).skip(1) =~= parts(es[i].0@).drop_first()); lemma_expand_step(es, i, o, m, x, y, m1); }
  pub broadcast proof fn lemma_texts(xs: Seq<ConfigValue>, ys: Seq<ConfigValue>, i: int, j: int)
    requires 0 <= i < xs.len(), j == i + 1, xs.len() == ys.len(), forall|k: int| 0 <= k < i ==> xs[k] == ys[k]
    ensures #![trigger texts(xs.take(i)), texts(ys.take(j))] texts(ys.take(j)) == texts(xs.take(i)) + match ys[i] { ConfigValue::String(t) => t@, _ => seq![] }
  { assert(ys.take(j).drop_last() =~= xs.take(i)); assert(ys.take(j).last() == ys[i]); }
  pub broadcast proof fn lemma_leaf(ks: Seq<Seq<char>>, i: int, v: ConfigValue, y: ConfigValue)
    requires
      i == ks.len() - 1, i >= 0, y is Object, forall|k: Seq<char>| #[trigger] y->Object_0.0.m().dom().contains(k) <==> k == ks[i], y->Object_0.0.m()[ks[i]] == v
    ensures #[trigger] nested(ks.skip(i), v, y)
  { assert(ks.skip(i).drop_first().len() == 0); assert(nested(ks.skip(i).drop_first(), v, v)); }
  pub broadcast proof fn lemma_refs(h: HashMap<String, ConfigValue>, n: int, k: Seq<char>)
    requires #[trigger] seen(h, n, k)
    ensures exists|j: int| 0 <= j < h.order().len() && (#[trigger] refs(h.order())[j]).0@ == k
  { let i = choose|i: int| 0 <= i < n && i < h.order().len() && k == (#[trigger] h.order()[i]).0@; assert(refs(h.order())[i].0@ == k); }
  proof fn lemma_expand_keeps(es: Seq<(String, ConfigValue)>, o: Map<Seq<char>, ConfigValue>, m: Map<Seq<char>, ConfigValue>, k: Seq<char>)
    requires expanded(0, es, o, m), nondotted(o, k)
    ensures m.dom().contains(k)
    decreases es.len()
  {
    if es.len() > 0 {
      if !dotted(es.last().0@) { lemma_expand_keeps(es.drop_last(), o, m, k); } else {
        let (m0, x, y) = choose|m0: Map<Seq<char>, ConfigValue>, x: ConfigValue, y: ConfigValue| expanded(0, es.drop_last(), o, m0)
          && #[trigger] nested(parts(es.last().0@).drop_first(), x, y) && #[trigger] joined(m0, parts(es.last().0@)[0], y, m);
        lemma_expand_keeps(es.drop_last(), o, m0, k);
      }
    }
  }
  pub proof fn lemma_expand_empty(h: HashMap<String, ConfigValue>, m: Map<Seq<char>, ConfigValue>)
    requires expanded(0, h.order(), h.m(), m), m.dom() =~= vstd::set::Set::<Seq<char>>::empty()
    ensures h.m().dom() =~= vstd::set::Set::<Seq<char>>::empty()
  {
    vx_hocon_lemmas::axiom_order(h);
    if h.order().len() > 0 {
      let e = h.order().last();
      assert(h.m().dom().contains(h.order()[h.order().len() - 1].0@));
      if !dotted(e.0@) { lemma_expand_keeps(h.order(), h.m(), m, e.0@); assert(false); } else {
        let (m0, x, y) = choose|m0: Map<Seq<char>, ConfigValue>, x: ConfigValue, y: ConfigValue| expanded(0, h.order().drop_last(), h.m(), m0)
          && #[trigger] nested(parts(e.0@).drop_first(), x, y) && #[trigger] joined(m0, parts(e.0@)[0], y, m);
        assert(m.dom().contains(parts(e.0@)[0]));
        assert(false);
      }
    }
  }
}

// ---- reading a document
// TRUSTED here, proved in the unit hocongram: what the grammar reads from a text
pub uninterp spec fn reads(text: Seq<char>, vs: Seq<ConfigValue>) -> bool;
pub uninterp spec fn readable(text: Seq<char>) -> bool;
#[verifier::external_body]
pub struct VxDoc { x: u64 }
#[verifier::external_body]
pub struct VxDocResult { x: u64 }
#[verifier::external_body]
pub struct VxDocError { x: u64 }
impl VxDocResult { pub uninterp spec fn of(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn hocon() -> VxDoc { unimplemented!() }
impl VxDoc {
  #[verifier::external_body]
  pub fn parse(&self, i: VxPathBytes) -> (r: VxDocResult) ensures r.of() == i.of() { unimplemented!() }
}
impl VxDocResult {
  #[verifier::external_body]
  pub fn to_result(self) -> (r: std::result::Result<Vec<ConfigValue>, VxDocError>)
    ensures match r { Ok(vs) => readable(self.of()) && reads(self.of(), vs@), Err(_) => !readable(self.of()) }
  { unimplemented!() }
}
impl VxDocError {
  #[verifier::external_body]
  pub fn vx_to_string(&self) -> String { unimplemented!() }
  #[verifier::external_body]
  pub fn input_string(&self) -> Option<String> { unimplemented!() }
}
pub trait VxFirst<T> { spec fn head(&self) -> Option<T>; fn vx_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.head() == Some(*x), None => self.head() is None };
  spec fn whole(&self) -> Seq<T>; fn vx_walk<'a>(&'a self) -> (r: VxIter<&'a T>) ensures r.view() == points::<T>(self.whole()); }
impl<T> VxFirst<T> for Vec<T> {
  open spec fn head(&self) -> Option<T> { if self@.len() == 0 { None } else { Some(self@[0]) } }
  #[verifier::external_body]
  fn vx_first(&self) -> Option<&T> { self.first() }
  open spec fn whole(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn vx_walk<'a>(&'a self) -> VxIter<&'a T> { unimplemented!() }
}
pub trait VxUnwrapOr<T>: Sized { spec fn or(self, d: T) -> T; fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == self.or(d); }
impl<T> VxUnwrapOr<T> for Option<T> {
  open spec fn or(self, d: T) -> T { match self { Some(x) => x, None => d } }
  fn vx_unwrap_or(self, d: T) -> T { match self { Some(x) => x, None => d } }
}
pub open spec fn empty_doc(v: ConfigValue) -> bool { v is Object && v->Object_0.0.m() == Map::<Seq<char>, ConfigValue>::empty() }
/// the parts of a document with their dotted keys expanded, the later ones merged into the earlier
pub open spec fn staged(xs: Seq<ConfigValue>, r: ConfigValue) -> bool decreases xs.len() {
  if xs.len() == 0 { exists|e: ConfigValue| #[trigger] empty_doc(e) && is_resolved(e, None, r) }
  else if xs.len() == 1 { is_resolved(xs[0], None, r) }
  else { exists|y: ConfigValue, t: ConfigValue| staged(xs.drop_last(), y) && #[trigger] is_resolved(xs.last(), None, t) && #[trigger] is_merged(y, t, r) }
}
/// what a text means: its parts, put together and then resolved against the whole
pub open spec fn document(text: Seq<char>, r: ConfigValue) -> bool {
  exists|vs: Seq<ConfigValue>, d: ConfigValue| #[trigger] reads(text, vs) && staged(vs, d) && #[trigger] is_resolved(d, Some(d), r)
}
pub proof fn lemma_staged(xs: Seq<ConfigValue>, i: int, y: ConfigValue, t: ConfigValue, r: ConfigValue)
  requires staged(xs.take(i), y), 0 < i < xs.len(), is_resolved(xs[i], None, t), is_merged(y, t, r)
  ensures staged(xs.take(i + 1), r)
{ let z = xs.take(i + 1); assert(z.drop_last() =~= xs.take(i)); assert(z.last() == xs[i]); }
pub mod vx_stage_lemmas {
  use super::*;
  use vstd::prelude::*;
  pub broadcast proof fn lemma_step(xs: Seq<ConfigValue>, i: int, j: int, y: ConfigValue, t: ConfigValue, r: ConfigValue)
    requires #[trigger] staged(xs.take(i), y), 0 < i < xs.len(), j == i + 1, is_resolved(xs[i], None, t), #[trigger] is_merged(y, t, r)
    ensures #[trigger] staged(xs.take(j), r)
  { lemma_staged(xs, i, y, t, r); }
}
